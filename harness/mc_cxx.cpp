/* Model checker for the C++ loader class: several objects share one library */
#include "mc_model.hpp"
#include "cxxapi.h"

static const cxxapi &A = the_cxxapi;
enum { MAXOBJ = 3 };
enum { F_PATH = 1, F_LONG = 2, F_COPY = 4, F_GONE = 8, F_NUL = 16, F_CALL = 32, F_NAMES = 64, F_CLOSE = 128, F_FOREIGN = 256, F_FLAGS = 512, F_OBJ1 = 1024, F_OBJ3 = 2048, F_DTOR = 4096, F_FEW = 8192 };
static int g_features;
static int g_nobj = 2;

struct Obj { uint8_t alive, ns, dtor, requested; int flags; char name[48]; uint32_t namelong; Err e; };
struct Model : Shared {
    Obj o[MAXOBJ];
    uint8_t cb, term;
    int8_t last;
};
static Model M;
static void *raw_pointer(int s) { return A.raw(s); }

static std::string g_sunk;
static void sink(const char *s, size_t n) { bool k = g_in_impl; g_in_impl = false; g_sunk.assign(s, n); g_in_impl = k; }
static std::string get(void (*f)(int, sink_t), int slot) { g_sunk = "<nothing>"; impl_call([&] { f(slot, sink); }); return g_sunk; }
static std::string g_cbtext;
static int g_cbcount;
static void user_callback(const char *m) { bool k = g_in_impl; g_in_impl = false; g_cbtext += m; g_cbcount++; g_in_impl = k; }

struct XMachine : Machine {
    std::vector<int> slot_of, callop;
    int n_exit0 = 0;

    void *model() override { return &M; }
    size_t model_size() override { return sizeof M; }
    bool terminal() override { return M.term; }
    bool enabled(size_t o) override
    {
        int s = slot_of[o];
        if (s >= 100) {   /* constructions: the slot must be free; lower slots are used first */
            if (M.o[s - 100].alive) return false;
            for (int k = 0; k < s - 100; k++) if (!M.o[k].alive) return false;
            return true;
        }
        if (s >= 0 && !M.o[s].alive) return false;
        if (callop[o] >= 0 && (callop[o] == 2 || !(A.config & (X_WRAP | X_AUTO)))) return M.sym[callop[o]];
        return true;
    }
    void add(int slot, const std::string &n, std::function<void()> f, int call = -1)
    {
        if (g_features & F_FEW) {   /* fewer ways to fail */
            static const char *skip[] = { "libNONE", "undeclared", "NULL", "\"\"", "error()", "load()", "load_symbol(1)", "load_symbol(2)", "free(false)" };
            if (slot > 0 && slot < 100) for (auto k : skip) if (n.find(k) != std::string::npos && n != "load()") return;
        }
        ops.push_back({ slot < 0 ? n : "object " + std::to_string(slot % 100) + ": " + n, f });
        slot_of.push_back(slot);
        callop.push_back(call);
    }
    /* the message of an object which was not called last only counts as `some error' or none */
    void canon_model(std::string &k) override
    {
        static Model c;
        c = M;
        for (int i = 0; i < MAXOBJ; i++) if (i != c.last && c.o[i].alive) { int f = c.o[i].e.err != E_NONE; memset(&c.o[i].e, 0, sizeof c.o[i].e); c.o[i].e.err = f; }
        k.append((char *)&c, sizeof c);
    }
    /* std::string objects are compared by their text */
    void canon(std::string &k) override
    {
        std::string err[MAXOBJ];
        for (int i = 0; i < g_nobj; i++) if (M.o[i].alive && i != M.last) err[i] = get(A.error, i);
        char *p = __start_gdo_impl;
        size_t n = __stop_gdo_impl - p;
        char *st = (char *)A.storage;
        for (size_t o = 0; o + 8 <= n; o += 8) {
            uint64_t w;
            memcpy(&w, p + o, 8);
            if (!w) continue;
            if (p + o >= st && p + o < st + MAXOBJ * A.object_size && !M.o[(p + o - st) / A.object_size].alive) continue;
            if (o + 32 <= n) {
                uint64_t len;
                memcpy(&len, p + o + 8, 8);
                const char *c = (const char *)w;
                const wchar_t *wc = (const wchar_t *)w;
                auto is_text = [&] { for (size_t q = 0; q < len; q++) if (wc[q] <= 0 || wc[q] > 0x10000) return false; return wc[len] == 0; };
                if (g_win == 1 && len && ((c == p + o + 16 && len < 4) || (in_arena(c) && len < ARENA / 4 && (len + 1) * sizeof(wchar_t) <= ((AHdr *)c - 1)->size && ((AHdr *)c - 1)->magic == LIVE)) && is_text()) {
                    uint32_t x = o | 1;
                    k.append((char *)&x, 4);
                    std::string t = narrow(wc);
                    if (p + o >= st && p + o < st + MAXOBJ * A.object_size && err[(p + o - st) / A.object_size] == t) k.append("<error>");
                    else k.append(t);
                    k.push_back(0);
                    o += 24;
                    continue;
                }
                bool sso = c == p + o + 16 && len < 16;
                if (sso || (in_arena(c) && len < ARENA && c[len] == 0 && len + 1 <= ((AHdr *)c - 1)->size && ((AHdr *)c - 1)->magic == LIVE)) {
                    uint32_t x = o;
                    k.append((char *)&x, 4);
                    if (p + o >= st && p + o < st + MAXOBJ * A.object_size && len && err[(p + o - st) / A.object_size] == std::string(c, len)) k.append("<error>");
                    else k.append(c, len);
                    k.push_back(0);
                    o += 24;
                    continue;
                }
            }
            uint32_t x = o;
            k.append((char *)&x, 4);
            k.append((char *)&w, 8);
        }
    }
    void probe() override
    {
        if (M.term) return;
        g_ev.clear();
        bool loaded = false;
        impl_call([&] { loaded = A.lib_loaded(); });
        if (loaded != (M.lib >= 0)) fail("state", "lib_loaded() is %d, but a library is%s loaded", loaded, M.lib >= 0 ? "" : " not");
        bool a = true, y = false;
        for (int s = 0; s < A.nsym; s++) {
            void *p = A.raw(s);
            if ((p != NULL) != M.sym[s]) fail("state", "symbol `%s' changed by a query", A.names[s]);
            a = a && p; y = y || p;
        }
        for (int i = 0; i < g_nobj; i++) {
            Obj &o = M.o[i];
            if (!o.alive) continue;
            bool all = 0, none = 0, any = 0, dt = 0; int fl = 0;
            impl_call([&] { all = A.all(i); none = A.none(i); any = A.any(i); dt = A.get_dtor(i); fl = A.flags(i); });
            if (all != a) fail("state", "object %d: all_symbols_loaded() is %d", i, all);
            if (none != !y) fail("state", "object %d: no_symbols_loaded() is %d", i, none);
            if (any != y) fail("state", "object %d: any_symbol_loaded() is %d", i, any);
            if (dt != o.dtor) fail("state", "object %d: free_lib_in_dtor() is %d", i, dt);
            if (fl != o.flags && (o.requested || fl)) fail("state", "object %d: flags() is %d instead of %d", i, fl, o.flags);
            std::string fn = get(A.filename, i);
            if (!o.namelong && fn != o.name) fail("state", "object %d: filename() is `%s' instead of `%s'", i, fn.c_str(), o.name);
            check_error_text(get(A.error, i), o.e);
            if (A.config & (X_WRAP | X_AUTO)) {
                void (*cb)(const char *) = NULL;
                impl_call([&] { cb = A.get_callback(); });
                if (!cb || (cb == user_callback) != !!M.cb) fail("wrap", "message_callback() does not return the callback which was set");
            }
        }
        if (!g_ev.empty()) fail("state", "a query called the loader (%c)", g_ev[0].kind);
        int l = nlive();
        if (M.lib >= 0 && !mk.live[M.lib][M.inst]) fail("balance", "the loaded library's handle is closed");
        if (l != (M.lib >= 0)) fail("balance", "%d handles are open, library is %sloaded", l, M.lib >= 0 ? "" : "not ");
        if (mk.natexit != n_exit0) fail("balance", "%d exit handlers are registered instead of %d", mk.natexit, n_exit0);
        /* every object is destroyed, then the program ends */
        g_ev.clear();
        int want = 0;
        bool lib = M.lib >= 0;
        for (int i = 0; i < g_nobj; i++) {
            if (!M.o[i].alive) continue;
            g_ev.clear();
            impl_call([&] { A.destroy(i); });
            want = lib && M.o[i].dtor;
            if (count('c') != want) fail("balance", "destroying object %d closed %d handles instead of %d", i, count('c'), want);
            if (want) lib = false;
            if (M.lib >= 0 && lib != A.lib_loaded()) fail("state", "lib_loaded() is wrong after destroying object %d", i);
        }
        if (!mk.close_fails && nlive() != lib) fail("balance", "%d handles are open after all objects were destroyed", nlive());
        g_ev.clear();
        bool freed = A.config & X_AUTO;
        impl_call([&] { run_exit_handlers(); });
        if (count('c') != (lib && freed)) fail("balance", "%d handles were closed at exit", count('c'));
        if (count('o') + count('O')) fail("balance", "a library was opened at exit");
        if (g_arena.live) fail("mem", "%u allocations are left after all objects were destroyed", g_arena.live);
    }
    void set_name(Obj &o, const std::string &n) { memset(o.name, 0, sizeof o.name); o.namelong = n.size() >= sizeof o.name ? n.size() : 0; if (!o.namelong) memcpy(o.name, n.data(), n.size()); }
    void select(int i) { ER = &M.o[i].e; M.last = i; }
    void begin(int i, const std::string &n, int flags, bool ns) { Obj &o = M.o[i]; memset(&o, 0, sizeof o); o.alive = 1; o.dtor = 1; o.flags = flags; o.ns = ns; set_name(o, n); select(i); }

    void call_op(int i)
    {
        bool had = M.sym[i];
        long r = 0;
        std::string op = std::string("using ") + A.names[i];
        int obj_before = 0;
        if (i == 2 && M.lib >= 0) { memset(g_obj, 0, sizeof g_obj); g_obj[M.lib][M.inst] = obj_before = 41; }
        g_cbtext.clear(); g_cbcount = 0;
        bool alive = impl_call([&] { r = A.call(i); });
        int no = count('o') + count('O');
        bool autol = A.config & X_AUTO, lazy = A.config & X_LAZY;
        const char *cat = autol && !had ? "auto" : "wrap";
        bool expect_alive = had;
        uint8_t want[NSYM], unk[NSYM] = { 0 };
        memcpy(want, M.sym, sizeof want);
        std::string reason;
        if (!had && autol) {
            if (M.lib < 0) {
                int dl = -1;
                for (int l = 0; l < NLIB; l++) if (!strcmp(lib_names[l], A.deflib) && !mk.gone[l]) dl = l;
                if (no != 1) fail("auto", "%s opened the default library %d times", op.c_str(), no);
                for (auto &e : g_ev) if (e.kind == 'o' || e.kind == 'O') {
                    if (e.text != A.deflib) fail("auto", "%s opened `%s' instead of the default library `%s'", op.c_str(), e.text.c_str(), A.deflib);
                    if (e.flags != A.default_flags || e.kind == 'O') fail("auto", "%s opened the default library with other than the default flags", op.c_str());
                    if (e.lib >= 0 && e.lib < NLIB) { M.lib = e.lib; M.inst = e.inst; }
                }
                if (dl < 0) reason = open_reason();
                else if (M.lib != dl && alive) fail("auto", "%s did not load the default library", op.c_str());
            } else if (no) fail("auto", "%s opened a library although one is loaded", op.c_str());
            if (M.lib >= 0) {
                if (lazy) {
                    expect_alive = has_sym(M.lib, i) == 1;
                    if (expect_alive) want[i] = 1;
                    else if (has_sym(M.lib, i) == 0) reason = sym_msg(A.names[i]);
                } else {
                    expect_alive = complete(M.lib);
                    if (expect_alive) memset(want, 1, sizeof want);
                    else for (int s = A.nsym; s-- > 0;) if (has_sym(M.lib, s) == 0) reason = sym_msg(A.names[s]); else if (has_sym(M.lib, s) < 0) reason = "";
                }
            }
        } else if (no || (count('c') && alive)) fail(cat, "%s opened or closed a library", op.c_str());
        if (alive != expect_alive)
            fail(cat, "%s %s, but the symbol was %s%s", op.c_str(), alive ? "went on" : "ended the program", had ? "loaded" : "not loaded", expect_alive ? " and can be loaded" : "");
        if (alive) {
            if (!g_stderr.empty() || g_cbcount) fail(cat, "%s printed a message although it succeeded: %s%s", op.c_str(), g_stderr.c_str(), g_cbtext.c_str());
            sync_symbols(op.c_str(), want, unk);
            if (M.lib < 0) return;
            int L = M.lib, I = M.inst;
            if (i == 2) {
                if (r != obj_before) fail("state", "reading the object gave %ld instead of %d", r, obj_before);
                int sum = 0;
                for (auto &x : g_obj) for (int v : x) sum += v;
                if (g_obj[L][I] != obj_before + 1 || sum != obj_before + 1) fail("state", "writing the object has changed something else");
                memset(g_obj, 0, sizeof g_obj);
                return;
            }
            if (g_calls.size() != 1) { fail(cat, "%s called %zu functions", op.c_str(), g_calls.size()); return; }
            auto &c = g_calls[0];
            if (c.lib != L || c.inst != I || c.sym != i) fail(cat, "%s called `%s' of %s", op.c_str(), A.names[c.sym], lib_names[c.lib]);
            long er = i == 0 ? 70000 + L * 1000 + I * 100 + 31 - 17 : i == 1 ? 0 : 90000 + L * 1000 + I * 100 + 6;
            bool args = i == 0 ? c.a == 31017 : i == 1 ? c.d == 2.5 && c.s == "text" : c.a == 5 && c.s == "var" && c.d == 0.25;
            if (!args) fail(cat, "%s passed the wrong arguments", op.c_str());
            if (r != er) fail(cat, "%s returned %ld instead of %ld", op.c_str(), r, er);
            return;
        }
        if (g_calls.size()) fail(cat, "%s called a function before it ended the program", op.c_str());
        std::string msg = M.cb ? g_cbtext : g_stderr;
        if (M.cb && (g_cbcount != 1 || !g_stderr.empty())) fail(cat, "the message callback was called %d times, printed: `%s'", g_cbcount, g_stderr.c_str());
        if (!M.cb && g_cbcount) fail(cat, "a message callback was called which is not set");
        if (msg.find(A.names[i]) == std::string::npos) fail(cat, "the message does not name the symbol `%s': `%s'", A.names[i], msg.c_str());
        if (!M.cb && (msg.empty() || msg.back() != '\n')) fail(cat, "the message `%s' is no complete line", msg.c_str());
        if (autol) {
            if (g_term != T_EXIT || g_term_code != 1) fail("auto", "%s ended with %s %d instead of exit(1)", op.c_str(), g_term == T_ABORT ? "abort" : "exit", g_term_code);
            if (msg.find(A.deflib) == std::string::npos) fail("auto", "the message does not name the library `%s': `%s'", A.deflib, msg.c_str());
            if (!reason.empty() && msg.find(reason) == std::string::npos) fail("auto", "the message does not tell the reason `%s': `%s'", reason.c_str(), msg.c_str());
            impl_call([&] { run_exit_handlers(); });
            if (nlive() && !mk.close_fails) fail("auto", "a library is left open when the program ends");
        } else if (g_term != T_ABORT) fail("wrap", "%s ended with exit(%d) instead of abort", op.c_str(), g_term_code);
        M.term = 1;
    }

    void build()
    {
        static const int flags2 = 0x102;
        int F = g_features;
        std::vector<int> libs = { L_A, g_nsym > 1 ? L_MID : L_FIRST };
        if (F & F_NUL) libs.push_back(L_NUL);
        std::string nA = lib_names[L_A], nB = lib_names[L_B], nN = lib_names[L_NONE];
        for (int i = 0; i < g_nobj; i++) {
            int c = 100 + i;
            add(c, "construct()", [=] { impl_call([&] { A.construct(i); }); begin(i, "", A.default_flags, false); if (g_ev.size()) fail("state", "the constructor called the loader"); });
            add(c, "construct(" + nA + ")", [=] { impl_call([&] { A.construct_name(i, nA.c_str()); }); begin(i, nA, A.default_flags, false); if (g_ev.size()) fail("state", "the constructor called the loader"); });
            if (F & F_FLAGS) add(c, "construct(" + nB + ", flags, new namespace)", [=] { impl_call([&] { A.construct_args(i, nB.c_str(), flags2, true); }); begin(i, nB, flags2, true); M.o[i].requested = 1; if (g_ev.size()) fail("state", "the constructor called the loader"); });
            if (F & F_COPY) for (int j = 0; j < g_nobj; j++) if (j != i) add(c, "construct as a copy of object " + std::to_string(j), [=] {
                if (!M.o[j].alive) return;
                impl_call([&] { A.construct_copy(i, j); });
                M.o[i] = M.o[j]; select(i);
                if (g_ev.size()) fail("state", "the constructor called the loader");
            });
            add(i, "destroy", [=] {
                int want = M.o[i].dtor && M.lib >= 0;
                impl_call([&] { A.destroy(i); });
                memset(&M.o[i], 0, sizeof M.o[i]);
                static Err dummy; ER = &dummy; M.last = -1;
                if (count('c') != want) fail("balance", "the destructor closed %d handles instead of %d", count('c'), want);
                uint8_t w[NSYM] = { 0 };
                if (want) { mk.live[M.lib][M.inst] = 0; M.lib = M.inst = -1; } else memcpy(w, M.sym, sizeof w);
                sync_symbols("the destructor", w, all_known);
            });
            auto loader = [=](const std::string &opname, const std::string *n, int flags, bool ns, int how) {
                /* how: 0 load(), 1 load_lib_and_symbols(), 2 load(name), 3 load(name, flags, ns) */
                select(i);
                Obj &o = M.o[i];
                if (n) { set_name(o, *n); o.flags = flags; o.ns = ns; }
                o.requested = 1;
                bool r = false, op;
                impl_call([&] { r = how == 0 ? A.load(i) : how == 1 ? A.load_lib_and_symbols(i) : how == 2 ? A.load_name(i, n->c_str()) : A.load_args(i, n->c_str(), flags, ns); });
                uint8_t w[NSYM];
                memcpy(w, M.sym, sizeof w);
                std::string file = n ? *n : o.namelong ? long_name(o.namelong) : o.name;
                if ((A.config & X_CONVERT) && file.size() && file.back() == '\377') {
                    if (r) fail("state", "%s succeeded", opname.c_str());
                    if (g_ev.size()) fail("state", "the loader was called with a name which cannot be converted");
                    if (M.lib >= 0) set_err_model(E_ALREADY); else set_err_model(E_DL, win_text(WE_NAME).c_str());
                    sync_symbols(opname.c_str(), w, all_known);
                    return;
                }
                bool e = expect_load(opname.c_str(), file.c_str(), o.flags, o.ns, op);
                if (how == 1 && e) { expect_load_all(opname.c_str(), r); return; }
                if (r != e) fail("state", "%s returned %d", opname.c_str(), r);
                sync_symbols(opname.c_str(), w, all_known);
            };
            add(i, "load()", [=] { loader("load()", NULL, 0, false, 0); });
            add(i, "load_lib_and_symbols()", [=] { loader("load_lib_and_symbols()", NULL, 0, false, 1); });
            std::vector<std::string> nl;
            for (int l : libs) nl.push_back(lib_names[l]);
            nl.push_back(nN); nl.push_back("");
            if (g_win == 1 && i == 0) { nl.push_back("d/libA.so"); nl.push_back("x/y\\libNONE.so"); }
            if ((F & F_LONG) && i == 0) for (int d : { -40, -1, 0, 1, 5000 }) nl.push_back([&] { std::string s(A.buflen + d, 0); long_name_to(&s[0], A.buflen + d); return s; }());
            for (auto &n : nl) {
                std::string shown = n.size() > 100 ? "name of " + std::to_string(n.size()) + " bytes" : n;
                add(i, "load(" + shown + ")", [=] { loader("load(" + shown + ")", &n, A.default_flags, false, 2); });
            }
            if (F & F_FLAGS) {
                add(i, "load(" + nB + ", flags, new namespace)", [=] { loader("load(name, flags, new namespace)", &nB, flags2, true, 3); });
                add(i, "load(" + nB + ", flags)", [=] { loader("load(name, flags)", &nB, 0x2, false, 3); });
            }
            if ((A.config & X_CONVERT) && i == 0) add(i, "load(name which cannot be converted)", [=] {
                std::string n = "d/libA.so\377";
                loader("load(name which cannot be converted)", &n, A.default_flags, false, 2);
            });
            add(i, "load_all_symbols()", [=] {
                select(i); bool r = false; impl_call([&] { r = A.load_all(i); });
                if (count('o') + count('O') + count('c')) fail("state", "load_all_symbols opened or closed a library");
                expect_load_all("load_all_symbols", r);
            });
            for (int s = 0; s < g_nsym; s++) {
                std::string n = A.names[s];
                add(i, "load_symbol(GDO_LOAD_" + n + ")", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol(i, A.enumval(s)); }); expect_load_sym("load_symbol", r, s, 0, ""); });
                add(i, "load_symbol(\"" + n + "\")", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol_name(i, n.c_str()); }); expect_load_sym("load_symbol", r, s, 0, ""); });
            }
            std::vector<int> nums = { A.enum_last };
            if (F & F_NAMES) nums = { -1, A.enum_last, A.enum_last + 1, 0x7fffffff };
            for (int num : nums) add(i, "load_symbol(" + std::to_string(num) + ")", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol(i, num); }); expect_load_sym("load_symbol", r, -1, E_UNKNUM, std::to_string(num).c_str()); });
            std::set<std::string> names = { "zzz" };
            if ((F & F_NAMES) && i == 0) {
                for (int s = 0; s < g_nsym; s++) {
                    std::string n = A.names[s];
                    for (size_t k = 1; k < n.size(); k++) names.insert(n.substr(0, k));
                    names.insert(n + "x"); names.insert(" " + n); names.insert(n.substr(1) + "q");
                    std::string u = n; u[0] ^= 0x20; names.insert(u);
                    std::string v = n; v.back() = v.back() == 'k' ? 'j' : 'k'; names.insert(v);
                }
                for (int s = 0; s < g_nsym; s++) names.erase(A.names[s]);
            }
            for (auto &n : names) add(i, "load_symbol(\"" + n + "\") (undeclared)", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol_name(i, n.c_str()); }); expect_load_sym("load_symbol", r, -1, E_UNKNAME, n.c_str()); });
            if ((F & F_LONG) && i == 0) for (int d : { -20, 0, 3000 }) {
                std::string n(A.buflen + d, 0); long_name_to(&n[0], A.buflen + d);
                add(i, "load_symbol(name of " + std::to_string(n.size()) + " bytes)", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol_name(i, n.c_str()); }); expect_load_sym("load_symbol", r, -1, E_TRUNC, "", n.size()); });
            }
            if (i == 0 || (F & F_NAMES)) for (int k = 0; k < 2; k++) add(i, k ? "load_symbol(\"\")" : "load_symbol(NULL)", [=] { select(i); bool r = false; impl_call([&] { r = A.load_symbol_name(i, k ? "" : NULL); }); expect_load_sym("load_symbol", r, -1, E_EMPTYSYM, ""); });
            for (int force = 0; force < 3; force++) {
                const char *nm = force == 0 ? "free()" : force == 1 ? "free(false)" : "free(true)";
                if (force == 1 && i) continue;
                add(i, nm, [=] {
                    select(i);
                    bool r = false; impl_call([&] { r = A.free_lib(i, force); });
                    uint8_t w[NSYM] = { 0 };
                    if (count('c') != (M.lib >= 0)) fail("balance", "%s closed %d handles, library %sloaded", nm, count('c'), M.lib >= 0 ? "" : "not ");
                    if (M.lib >= 0 && mk.close_fails && force < 2) {
                        memcpy(w, M.sym, sizeof w);
                        if (r) fail("state", "%s returned true although the library was not closed", nm);
                        set_err_model(E_DL, close_msg(lib_names[M.lib]).c_str());
                    } else {
                        if (M.lib >= 0) mk.live[M.lib][M.inst] = 0;
                        M.lib = M.inst = -1;
                        if (!r) fail("state", "%s returned false", nm);
                        set_err_model(E_NONE);
                    }
                    sync_symbols(nm, w, all_known);
                });
            }
            if (F & F_DTOR) for (int b = 0; b < 2; b++) add(i, b ? "free_lib_in_dtor(true)" : "free_lib_in_dtor(false)", [=] { impl_call([&] { A.set_dtor(i, b); }); M.o[i].dtor = b; if (g_ev.size()) fail("state", "free_lib_in_dtor called the loader"); sync_symbols("free_lib_in_dtor", M.sym, all_known); });
            add(i, "library_path()", [=] {
                select(i);
                std::string got = get(A.library_path, i);
                sync_symbols("library_path", M.sym, all_known);
                if (count('o') + count('O') + count('c')) fail("state", "library_path opened or closed a library");
                if (M.lib < 0) {
                    if (!got.empty()) fail("path", "library_path() is `%.100s' with no library", got.c_str());
                    set_err_model(E_NOLIB);
                    return;
                }
                bool any = false; for (int s = 0; s < A.nsym; s++) any = any || M.sym[s];
                std::set<std::string> ok;
                auto P = [&](char k) { ok.insert(path_of(M.lib, M.inst, k)); };
                if (!plat_answer(mk.path_mode, M.lib, M.inst, any, false, ok)) switch (mk.path_mode) {
                case P_ABS: P('a'); break;
                case P_REL_MAPS: P('m'); break;
                case P_REL_NOMAPS: case P_REL_NOMATCH: P('r'); break;
                case P_REL_LONGMAPS: P('r'); P('L'); break;
                case P_FIT: P('F'); break;
                case P_FAIL_ADDR: case P_EMPTY_ADDR: case P_NULL_ADDR: if (any && g_win != 1) P('d'); break;
                case P_LONG_ADDR: if (!g_win) P('L'); if (any) P('d'); else ok.insert(""); break;
                case P_LONG_LONG: if (g_win != 1) P('L'); ok.insert(""); break;
                case P_FAIL_LONG: if (any) P('L'); ok.insert(""); break;
                }
                if (g_fds) { fail("path", "library_path() left %d files open", g_fds); g_fds = 0; }
                if (ok.empty()) ok.insert("");
                if (!ok.count(got)) fail("path", "library_path() is `%.100s' instead of `%.100s' (library %s, %s)", got.c_str(), ok.begin()->c_str(), lib_names[M.lib], path_mode_name[mk.path_mode]);
                if (got.empty()) set_err_model(E_PATH); else set_err_model(E_NONE);
            });
            add(i, "error()", [=] {
                std::string a = get(A.error, i), b = get(A.error, i);
                if (a != b) fail("error", "error() gives different texts when called twice: `%.100s' and `%.100s'", a.c_str(), b.c_str());
                if (!g_ev.empty()) fail("error", "error() called the loader");
            });
        }
        if (F & F_FOREIGN) add(-1, "environment: another library leaves an error behind", [=] { if (g_win == 1) mk.lasterr = WE_FOREIGN; else set_err("%s", "foreign error"); });
        if (F & F_CLOSE) add(-1, "environment: closing fails from now on / works again", [=] { mk.close_fails = !mk.close_fails; });
        if (F & F_GONE) add(-1, "environment: libA disappears / is back", [=] { mk.gone[L_A] = !mk.gone[L_A]; });
        if (F & F_PATH) for (int p = 0; p < NPATH; p++) if (path_mode_used(p)) if (!(F & F_FEW) || p == P_ABS || p == P_REL_MAPS || p == P_FAIL_ADDR || p == P_FAIL_NOADDR) add(-1, std::string("environment: ") + path_mode_name[p], [=] { mk.path_mode = p; });
        if (F & F_CALL) {
            for (int s = 0; s < g_nsym; s++) add(-1, std::string("use ") + A.names[s], [=] { call_op(s); }, s);
            if (A.config & (X_WRAP | X_AUTO)) for (int k = 0; k < 2; k++) add(-1, k ? "set the message callback" : "reset the message callback", [=] { impl_call([&] { A.set_callback(k ? user_callback : NULL); }); M.cb = k; });
        }
        if (F & F_PATH) {
            static const char *skip[] = { "libNONE", "undeclared", "\"", "NULL", "load()", "load_symbol(1", "load_symbol(2", "load_symbol(3", "free(false)", "_and_symbols", "error()" };
            for (size_t i = ops.size(); i-- > 0;) {
                bool drop = false;
                for (auto s : skip) drop |= ops[i].name.find(s) != std::string::npos;
                if (drop) { ops.erase(ops.begin() + i); slot_of.erase(slot_of.begin() + i); callop.erase(callop.begin() + i); }
            }
        }
    }
};

int main(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "features")) g_features = atoi(argv[i + 1]);
    g_nobj = g_features & F_OBJ1 ? 1 : g_features & F_OBJ3 ? 3 : 2;
    g_nsym = A0.nsym = A.nsym;
    A0.names = A.names;
    g_plat = plat_of(A.config);
    g_win = A.config & X_WINAPI ? 1 : A.config & X_WINDLFCN ? 2 : 0;
    g_fmtfail = A.config & X_FMTFAIL;
    A0.buflen = A0.errlen = (size_t)1 << 40;      /* std::string has no limit */
    SH = &M;
    g_buflen = A.buflen;
    for (int s = 0; s < g_nsym; s++) sym_names[s] = A.names[s];
    M.lib = M.inst = M.last = -1;
    capture_stderr();
    XMachine m;
    m.n_exit0 = mk.natexit;
    m.build();
    Engine e(m);
    engine_args(e, argc, argv);
    std::string base; e.copy_out(base);
    impl_call([&] { A.construct(0); });
    g_noerr = get(A.error, 0);
    e.copy_in(base);
    g_viol.clear(); g_ev.clear();
    e.run();
    e.report();
    return 0;
}
