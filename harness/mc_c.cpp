/* Model checker for the C API */
#include "mc_model.hpp"
#include "capi.h"

static const capi &A = the_capi;

struct Model : Shared, Err {
    uint8_t reg;
    uint8_t cached;        /* path mode + 1 of an answer given before */
    uint8_t term;
};
static Model M;
static int g_features;
enum { F_PATH = 1, F_LONG = 2, F_ATEXIT = 4, F_GONE = 8, F_NUL = 16, F_CALL = 32, F_NAMES = 64, F_CLOSE = 128, F_FOREIGN = 256 };


static void *raw_pointer(int s) { return A.raw(s); }

static void check_error()
{
    const char *t = NULL;
    impl_call([&] { t = A.last_error(); });
    if (!t) { fail("error", "last_error() returned a null pointer"); return; }
    size_t max = g_win == 1 ? 65536 : A.buflen;
    size_t n = strnlen(t, max + 1);
    if (n > max) { fail("error", "last_error() is not terminated within the buffer"); return; }
    check_error_text(std::string(t, n), M);
}

struct CMachine : Machine {
    void *model() override { return &M; }
    size_t model_size() override { return sizeof M; }
    bool terminal() override { return M.term; }
    bool repeatable(size_t o) override { return callop[o] < 0; }
    std::vector<int> callop;
    char *buf_err = NULL, *buf_path = NULL;

    bool enabled(size_t o) override
    {
        if (callop[o] >= 0 && !(A.config & (C_WRAP | C_AUTO))) return M.sym[callop[o]];   /* raw pointers */
        if (callop[o] >= 0 && callop[o] == 2) return M.sym[2];                            /* objects are always raw */
        return true;
    }
    bool path_op(const std::string &n)
    {
        static const char *skip[] = { "libNONE", "\"", "libB", "_and_symbols", "load_symbol(-", "load_symbol(2", "NULL", "enable_auto", "load_symbol_name(", "load_lib_name()" };
        for (auto s : skip) if (n.find(s) != std::string::npos) return false;
        if (isdigit(n[12]) && n.compare(0, 12, "load_symbol(") == 0) return false;
        return true;
    }
    void add(const std::string &n, std::function<void()> f, int call = -1) { if ((g_features & F_PATH) && !path_op(n)) return; ops.push_back({ n, f }); callop.push_back(call); }

    void canon(std::string &k) override
    {
        size_t n = __stop_gdo_impl - __start_gdo_impl;
        static std::string b;
        b.assign(__start_gdo_impl, n);
        for (char *p : { buf_err, buf_path }) {
            if (!p || p < __start_gdo_impl || p >= __stop_gdo_impl) continue;
            size_t o = p - __start_gdo_impl, l = strnlen(p, A.buflen);
            if (l < A.buflen && o + A.buflen <= n) memset(&b[o + l], 0, A.buflen - l);
        }
        win_canon(&b[0], __start_gdo_impl, n);
        /* compress zeros */
        for (size_t o = 0; o < n; o += 8) {
            size_t m = std::min<size_t>(8, n - o);
            uint64_t w = 0;
            memcpy(&w, b.data() + o, m);
            bool z = w == 0;
            if (!z) { uint32_t x = o; k.append((char *)&x, 4); k.append(b, o, m); }
        }
    }

    void probe() override
    {
        if (M.term) return;
        std::string before;
        g_ev.clear();
        int is = 0, all = 0, none = 0, any = 0;
        impl_call([&] { is = A.is_loaded(); all = A.all(); none = A.none(); any = A.any(); });
        no_loader_calls("a query");
        if (!!is != (M.lib >= 0)) fail("state", "lib_is_loaded() is %d, but a library is%s loaded", is, M.lib >= 0 ? "" : " not");
        bool a = true, y = false;
        for (int s = 0; s < A.nsym; s++) {
            void *p = A.raw(s);
            if ((p != NULL) != M.sym[s]) fail("state", "symbol `%s' changed by a query", A.names[s]);
            a = a && p; y = y || p;
        }
        if (!!all != a) fail("state", "all_symbols_loaded() is %d", all);
        if (!!none != !y) fail("state", "no_symbols_loaded() is %d", none);
        if (!!any != y) fail("state", "any_symbol_loaded() is %d", any);
        int l = nlive();
        if (M.lib >= 0 && !mk.live[M.lib][M.inst]) fail("balance", "the loaded library's handle is closed");
        if (l != (M.lib >= 0) + mk.abandoned) fail("balance", "%d handles are open, library is %sloaded", l - mk.abandoned, M.lib >= 0 ? "" : "not ");
        check_error();
        /* the program ends here */
        g_ev.clear();
        int nreg = mk.natexit;
        if (nreg > 1) fail("release", "%d exit handlers are registered", nreg);
        if (!!nreg != !!M.reg) fail("release", "auto-release is %s, but %d exit handlers are registered", M.reg ? "enabled" : "disabled", nreg);
        impl_call([&] { run_exit_handlers(); });
        int closes = count('c');
        int want = M.reg && M.lib >= 0;
        if (closes != want) fail("release", "%d handles were closed at exit instead of %d (library %sloaded)", closes, want, M.lib >= 0 ? "" : "not ");
        if (M.reg && !mk.close_fails && nlive() != mk.abandoned) fail("release", "a library is still open after exit with auto-release");
        if (count('o') + count('O')) fail("release", "a library was opened at exit");
    }

    void call_op(int i)
    {
        /* use of symbol i by its plain name */
        bool had = M.sym[i];
        long r = 0;
        char before[8]; (void)before;
        std::string op = std::string("using ") + A.names[i];
        int obj_before = M.lib >= 0 ? g_obj[M.lib][M.inst] : 0;
        if (i == 2 && M.lib >= 0) { memset(g_obj, 0, sizeof g_obj); g_obj[M.lib][M.inst] = 41; obj_before = 41; }
        bool alive = impl_call([&] { r = A.call(i); });
        int no = count('o') + count('O');
        if (!alive) { g_in_impl = false; }
        bool autol = A.config & C_AUTO, lazy = A.config & C_LAZY;
        bool expect_alive = had;
        uint8_t want[NSYM], unk[NSYM] = { 0 };
        memcpy(want, M.sym, sizeof want);
        std::string reason;
        if (!had && autol) {
            /* auto-release is set, ignoring errors */
            if (!mk.atexit_fails) M.reg = 1;
            if (M.lib < 0) {
                int dl = -1;
                for (int l = 0; l < NLIB; l++) if (!strcmp(lib_names[l], A.deflib) && !mk.gone[l]) dl = l;
                if (no != 1) fail("auto", "%s opened the default library %d times", op.c_str(), no);
                for (auto &e : g_ev) if (e.kind == 'o' || e.kind == 'O') {
                    if (e.text != A.deflib) fail("auto", "%s opened `%s' instead of the default library `%s'", op.c_str(), e.text.c_str(), A.deflib);
                    if (e.flags != A.default_flags || e.kind == 'O') fail("auto", "%s opened the default library with other than the default flags", op.c_str());
                    if (e.lib >= 0 && e.lib < NLIB) { M.lib = e.lib; M.inst = e.inst; }
                }
                if (dl < 0) reason = open_reason();
                else if (M.lib != dl && alive) fail("auto", "%s did not load the default library", op.c_str());
            } else if (no) fail("auto", "%s opened a library although one is loaded", op.c_str());
            if (M.lib >= 0) {
                if (lazy) {
                    expect_alive = has_sym(M.lib, i) == 1;
                    if (expect_alive) want[i] = 1;
                    else if (has_sym(M.lib, i) == 0) reason = sym_msg(A.names[i]);
                } else {
                    expect_alive = complete(M.lib);
                    if (expect_alive) memset(want, 1, sizeof want);
                    else for (int s = A.nsym; s-- > 0;) if (has_sym(M.lib, s) == 0) reason = sym_msg(A.names[s]); else if (has_sym(M.lib, s) < 0) reason = "";
                }
            }
        } else if (no || (count('c') && alive)) fail(autol ? "auto" : "wrap", "%s opened or closed a library", op.c_str());
        const char *cat = autol && !had ? "auto" : "wrap";
        if (alive != expect_alive) {
            fail(cat, "%s %s, but the symbol was %s%s", op.c_str(), alive ? "went on" : "ended the program", had ? "loaded" : "not loaded", expect_alive ? " and can be loaded" : "");
        }
        if (alive) {
            if (!g_stderr.empty()) fail(cat, "%s printed a message although it succeeded: %s", op.c_str(), g_stderr.c_str());
            sync_symbols(op.c_str(), want, unk);
            if (M.lib >= 0) {
                int L = M.lib, I = M.inst;
                if (i != 2) {
                    if (g_calls.size() != 1) fail(cat, "%s called %zu functions", op.c_str(), g_calls.size());
                    else {
                        auto &c = g_calls[0];
                        if (c.lib != L || c.inst != I || c.sym != i) fail(cat, "%s called `%s' of %s", op.c_str(), A.names[c.sym], lib_names[c.lib]);
                        long er = i == 0 ? 70000 + L * 1000 + I * 100 + 31 - 17 : i == 1 ? 0 : 90000 + L * 1000 + I * 100 + 6;
                        bool args = i == 0 ? c.a == 31017 : i == 1 ? c.d == 2.5 && c.s == "text" : c.a == 5 && c.s == "var" && c.d == 0.25;
                        if (!args) fail(cat, "%s passed the wrong arguments", op.c_str());
                        if (r != er) fail(cat, "%s returned %ld instead of %ld", op.c_str(), r, er);
                    }
                } else {
                    /* reads the object, then adds one */
                    if (r != obj_before) fail("state", "reading the object gave %ld instead of %d", r, obj_before);
                    int sum = 0;
                    for (auto &x : g_obj) for (int v : x) sum += v;
                    if (g_obj[L][I] != obj_before + 1 || sum != obj_before + 1) fail("state", "writing the object has changed something else");
                    memset(g_obj, 0, sizeof g_obj);
                }
            }
            set_err_model(E_ANY);
            return;
        }
        if (g_calls.size()) fail(cat, "%s called a function before it ended the program", op.c_str());
        if (g_stderr.find(A.names[i]) == std::string::npos) fail(cat, "the message does not name the symbol `%s': `%s'", A.names[i], g_stderr.c_str());
        if (g_stderr.empty() || g_stderr.back() != '\n') fail(cat, "the message `%s' is no complete line", g_stderr.c_str());
        if (autol) {
            if (g_term != T_EXIT || g_term_code != 1) fail("auto", "%s ended with %s %d instead of exit(1)", op.c_str(), g_term == T_ABORT ? "abort" : "exit", g_term_code);
            if (g_stderr.find(A.deflib) == std::string::npos) fail("auto", "the message does not name the library `%s': `%s'", A.deflib, g_stderr.c_str());
            if (!reason.empty() && g_stderr.find(reason) == std::string::npos) fail("auto", "the message does not tell the reason `%s': `%s'", reason.c_str(), g_stderr.c_str());
            impl_call([&] { run_exit_handlers(); });
            if (nlive() != mk.abandoned && !mk.close_fails) fail("auto", "a library is left open when the program ends");
        } else {
            if (g_term != T_ABORT) fail("wrap", "%s ended with exit(%d) instead of abort", op.c_str(), g_term_code);
            if (no) fail("wrap", "%s opened a library", op.c_str());
        }
        M.term = 1;
    }

    void build()
    {
        static const int flags2 = 0x102;
        std::vector<int> libs = { L_A, L_B };
        if (g_nsym > 1) { libs.push_back(L_MID); libs.push_back(L_FIRST); libs.push_back(L_LAST); } else libs.push_back(L_FIRST);
        if (g_features & (F_PATH | F_LONG | F_NAMES)) libs = { L_A, L_FIRST };
        if (g_features & F_NUL) libs.push_back(L_NUL);
        for (int l : libs) for (int k = 0; k < 2; k++) {
            std::string n = lib_names[l];
            if (k == 0) add("load_lib_name(" + n + ")", [=] {
                bool r = false, op; impl_call([&] { r = A.load_name(n.c_str()); });
                uint8_t w[NSYM] = { 0 };
                bool was = M.lib >= 0; if (was) memcpy(w, M.sym, sizeof w);
                bool e = expect_load("load_lib_name", n.c_str(), A.default_flags, false, op);
                if (r != e) fail("state", "load_lib_name(%s) returned %d", n.c_str(), r);
                sync_symbols("load_lib_name", w, all_known);
            });
            else add("load_lib_name_and_symbols(" + n + ")", [=] {
                bool r = false, op; impl_call([&] { r = A.load_name_and_symbols(n.c_str()); });
                uint8_t w[NSYM]; memcpy(w, M.sym, sizeof w);
                if (expect_load("load_lib_name_and_symbols", n.c_str(), A.default_flags, false, op)) expect_load_all("load_lib_name_and_symbols", r);
                else { if (r) fail("state", "load_lib_name_and_symbols(%s) returned true", n.c_str()); sync_symbols("load_lib_name_and_symbols", w, all_known); }
            });
        }
        if (g_win == 1) {   /* path separators and names which cannot be converted */
            for (std::string n : { "d/libA.so", "d\\libB.so", "x/y/libNONE.so", "/" }) add("load_lib_name(" + n + ")", [=] {
                bool r = false, op; impl_call([&] { r = A.load_name(n.c_str()); });
                uint8_t w[NSYM] = { 0 };
                bool was = M.lib >= 0; if (was) memcpy(w, M.sym, sizeof w);
                bool e = expect_load("load_lib_name", n.c_str(), A.default_flags, false, op);
                if (r != e) fail("state", "load_lib_name(%s) returned %d", n.c_str(), r);
                sync_symbols("load_lib_name", w, all_known);
            });
            if (A.config & C_CONVERT) for (std::string n : { "libA.so\377", "\377", "d/\377x" }) add("load_lib_name(name which cannot be converted)", [=] {
                bool r = false; impl_call([&] { r = A.load_name(n.c_str()); });
                if (r) fail("state", "load_lib_name succeeded");
                if (g_ev.size()) fail("state", "the loader was called with a name which cannot be converted");
                if (M.lib >= 0) set_err_model(E_ALREADY); else set_err_model(E_DL, win_text(WE_NAME).c_str());
                sync_symbols("load_lib_name", M.sym, all_known);
            });
        }
        for (int k = 0; k < 2; k++) {
            std::string n = lib_names[k ? L_B : L_A];
            add("load_lib_args(" + n + (k ? ", new namespace)" : ", flags)"), [=] {
                bool r = false, op; impl_call([&] { r = A.load_args(n.c_str(), flags2, k); });
                uint8_t w[NSYM]; memcpy(w, M.sym, sizeof w);
                bool e = expect_load("load_lib_args", n.c_str(), flags2, k, op);
                if (r != e) fail("state", "load_lib_args(%s) returned %d", n.c_str(), r);
                sync_symbols("load_lib_args", w, all_known);
            });
        }
        std::vector<std::string> bad = { lib_names[L_NONE], "" };
        if (g_features & F_LONG) for (int d : { -60, -41, -40, -39, -34, -33, -32, -31, -2, -1, 0, 1, 5000 }) bad.push_back(long_name(A.buflen + d));
        for (auto &n : bad) for (int k = 0; k < 2; k++) {
            if (k && n.size() > 100) continue;
            std::string shown = n.size() > 100 ? "name of " + std::to_string(n.size()) + " bytes" : n;
            add((k ? "load_lib_name_and_symbols(" : "load_lib_name(") + shown + ")", [=] {
                bool r = false, op; impl_call([&] { r = k ? A.load_name_and_symbols(n.c_str()) : A.load_name(n.c_str()); });
                uint8_t w[NSYM]; memcpy(w, M.sym, sizeof w);
                expect_load("load_lib_name", n.c_str(), A.default_flags, false, op);
                if (r) fail("state", "loading `%s' returned true", shown.c_str());
                sync_symbols("load_lib_name", w, all_known);
            });
        }
        add("load_lib_name(NULL)", [=] {
            bool r = false, op; impl_call([&] { r = A.load_name(NULL); });
            uint8_t w[NSYM]; memcpy(w, M.sym, sizeof w);
            expect_load("load_lib_name", NULL, 0, false, op);
            if (r) fail("state", "load_lib_name(NULL) returned true");
            sync_symbols("load_lib_name(NULL)", w, all_known);
        });
        if (A.config & C_DEFLIB) for (int k = 0; k < 2; k++) {
            add(k ? "load_lib_and_symbols()" : "load_lib()", [=] {
                const char *op = k ? "load_lib_and_symbols" : "load_lib";
                bool r = false, o; impl_call([&] { r = k ? A.load_lib_and_symbols() : A.load_lib(); });
                uint8_t w[NSYM]; memcpy(w, M.sym, sizeof w);
                bool e = expect_load(op, A.deflib, A.default_flags, false, o);
                if (k && e) { expect_load_all(op, r); return; }
                if (r != e) fail("state", "%s returned %d", op, r);
                sync_symbols(op, w, all_known);
            });
        }
        add("load_all_symbols()", [=] {
            bool r = false; impl_call([&] { r = A.load_all(); });
            if (count('o') + count('O') + count('c')) fail("state", "load_all_symbols opened or closed a library");
            expect_load_all("load_all_symbols", r);
        });
        for (int s = 0; s < g_nsym; s++) {
            std::string n = A.names[s];
            add("load_symbol(GDO_LOAD_" + n + ")", [=] {
                bool r = false; impl_call([&] { r = A.load_symbol(A.enumval(s)); });
                expect_load_sym("load_symbol", r, s, 0, "");
            });
            add("load_symbol_name(" + n + ")", [=] {
                bool r = false; impl_call([&] { r = A.load_symbol_name(n.c_str()); });
                expect_load_sym("load_symbol_name", r, s, 0, "");
            });
        }
        for (int num : { -1, A.enum_last, A.enum_last + 1, 0x7fffffff }) {
            add("load_symbol(" + std::to_string(num) + ")", [=] {
                bool r = false; impl_call([&] { r = A.load_symbol(num); });
                expect_load_sym("load_symbol", r, -1, E_UNKNUM, std::to_string(num).c_str());
            });
        }
        std::set<std::string> names = { "zzz", "*" };
        for (int s = 0; s < g_nsym; s++) {
            std::string n = A.names[s];
            for (size_t k = 1; k < n.size(); k++) names.insert(n.substr(0, k));   /* every prefix */
            names.insert(n + "x"); names.insert(n + "_"); names.insert(" " + n); names.insert(n.substr(1) + "q");
            std::string u = n; u[0] ^= 0x20; names.insert(u);
            std::string v = n; v.back() = v.back() == 'k' ? 'j' : 'k'; names.insert(v);
        }
        for (int s = 0; s < g_nsym; s++) names.erase(A.names[s]);
        for (auto &n : names) {
            if (!(g_features & F_NAMES) && n != "zzz") continue;
            add("load_symbol_name(\"" + n + "\")", [=] {
                bool r = false; impl_call([&] { r = A.load_symbol_name(n.c_str()); });
                expect_load_sym("load_symbol_name", r, -1, E_UNKNAME, n.c_str());
            });
        }
        if (g_features & F_LONG) for (int d : { -40, -20, -18, -17, -16, -15, -2, -1, 0, 1, 3000 }) {
            std::string n = long_name(A.buflen + d);
            add("load_symbol_name(name of " + std::to_string(n.size()) + " bytes)", [=] {
                bool r = false; impl_call([&] { r = A.load_symbol_name(n.c_str()); });
                expect_load_sym("load_symbol_name", r, -1, E_TRUNC, "", n.size());
            });
        }
        for (int k = 0; k < 2; k++) add(k ? "load_symbol_name(\"\")" : "load_symbol_name(NULL)", [=] {
            bool r = false; impl_call([&] { r = A.load_symbol_name(k ? "" : NULL); });
            expect_load_sym("load_symbol_name", r, -1, E_EMPTYSYM, "");
        });
        add("free_lib()", [=] {
            bool r = false; impl_call([&] { r = A.free_lib(); });
            int nc = count('c');
            uint8_t w[NSYM] = { 0 };
            if (nc != (M.lib >= 0)) fail("balance", "free_lib closed %d handles, library %sloaded", nc, M.lib >= 0 ? "" : "not ");
            if (M.lib >= 0 && mk.close_fails) {
                memcpy(w, M.sym, sizeof w);
                if (r) fail("state", "free_lib returned true although the library was not closed");
                set_err_model(E_DL, close_msg(lib_names[M.lib]).c_str());
            } else {
                M.lib = M.inst = -1; M.cached = 0;
                if (!r) fail("state", "free_lib returned false");
                set_err_model(E_NONE);
            }
            sync_symbols("free_lib", w, all_known);
        });
        add("force_free_lib()", [=] {
            impl_call([&] { A.force_free(); });
            int nc = count('c');
            uint8_t w[NSYM] = { 0 };
            if (nc != (M.lib >= 0)) fail("balance", "force_free_lib closed %d handles, library %sloaded", nc, M.lib >= 0 ? "" : "not ");
            if (M.lib >= 0 && mk.close_fails) { mk.live[M.lib][M.inst] = 0; }  /* given up */
            M.lib = M.inst = -1; M.cached = 0;
            set_err_model(E_NONE);
            sync_symbols("force_free_lib", w, all_known);
        });
        add("last_error()", [=] {
            const char *t = NULL; std::string s;
            impl_call([&] { t = A.last_error(); });
            no_loader_calls("last_error");
            if (t) s = t;
            const char *u = NULL;
            impl_call([&] { u = A.last_error(); });
            if (!t || !u || s != u) fail("error", "last_error() gives different texts when called twice: `%.100s' and `%.100s'", s.c_str(), u ? u : "<null>");
            sync_symbols("last_error", M.sym, all_known);
        });
        add("enable_autorelease()", [=] {
            bool r = false; impl_call([&] { r = A.autorelease(); });
            int n = count('x');
            if (M.reg) { if (n) fail("release", "enable_autorelease registered a second time"); if (!r) fail("release", "enable_autorelease returned false although it was registered"); set_err_model(E_NONE); }
            else {
                if (n != 1) fail("release", "enable_autorelease registered %d functions", n);
                if (r != !mk.atexit_fails) fail("release", "enable_autorelease returned %d, registering %s", r, mk.atexit_fails ? "failed" : "succeeded");
                if (!mk.atexit_fails) { M.reg = 1; set_err_model(E_NONE); } else set_err_model(E_ATEXIT);
            }
            sync_symbols("enable_autorelease", M.sym, all_known);
        });
        add("library_path()", [=] {
            const char *p = NULL; impl_call([&] { p = A.library_path(); });
            sync_symbols("library_path", M.sym, all_known);
            if (M.lib < 0) {
                if (p) fail("path", "library_path() is `%.100s' with no library", p);
                set_err_model(E_NOLIB);
                return;
            }
            bool any = false; for (int s = 0; s < A.nsym; s++) any = any || M.sym[s];
            auto answer = [&](int mode) -> std::string {
                char k = 0;
                switch (mode) {
                case P_ABS: k = 'a'; break;
                case P_REL_MAPS: k = 'm'; break;
                case P_REL_NOMAPS: case P_REL_NOMATCH: case P_REL_LONGMAPS: k = 'r'; break;
                case P_FIT: k = 'F'; break;
                case P_FAIL_ADDR: case P_EMPTY_ADDR: case P_LONG_ADDR: case P_NULL_ADDR: k = any && g_win != 1 ? 'd' : 0; break;
                }
                return k ? path_of(M.lib, M.inst, k) : "";
            };
            std::string got = p ? p : "";
            auto accepted = [&](int mode, bool a) -> bool {
                std::set<std::string> s;
                if (plat_answer(mode, M.lib, M.inst, a, true, s)) return s.count(got);
                bool a2 = any; any = a; bool r = got == answer(mode); any = a2;
                return r;
            };
            bool fresh = accepted(mk.path_mode, any), old = M.cached && accepted(M.cached - 1, true);
            bool ok = fresh || old;
            std::string now = answer(mk.path_mode);
            if (g_fds) { fail("path", "library_path() left %d files open", g_fds); g_fds = 0; }
            if (p && got.empty()) ok = false;
            if (!ok) fail("path", "library_path() is `%.100s' instead of `%.100s' (library %s, %s)", p ? p : "<null>", now.c_str(), lib_names[M.lib], path_mode_name[mk.path_mode]);
            if (got.empty()) set_err_model(E_PATH);
            else { set_err_model(E_NONE); if (fresh && !old) M.cached = mk.path_mode + 1; }
        });
        if (g_features & F_FOREIGN) add("environment: another library leaves an error behind", [=] { if (g_win == 1) mk.lasterr = WE_FOREIGN; else set_err("%s", "foreign error"); });
        if (g_features & F_CLOSE) add("environment: closing fails from now on / works again", [=] { mk.close_fails = !mk.close_fails; });
        if (g_features & F_ATEXIT) add("environment: registering fails from now on / works again", [=] { mk.atexit_fails = !mk.atexit_fails; });
        if (g_features & F_GONE) add("environment: libA disappears / is back", [=] { mk.gone[L_A] = !mk.gone[L_A]; });
        if (g_features & F_PATH) for (int p = 0; p < NPATH; p++) if (path_mode_used(p)) add(std::string("environment: ") + path_mode_name[p], [=] { mk.path_mode = p; });
        if (g_features & F_CALL) for (int s = 0; s < g_nsym; s++) add(std::string("use ") + A.names[s], [=] { call_op(s); }, s);
    }
};

int main(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "features")) g_features = atoi(argv[i + 1]);
    g_nsym = A0.nsym = A.nsym;
    A0.names = A.names;
    A0.buflen = A0.errlen = A.buflen;
    g_plat = plat_of(A.config);
    g_win = A.config & C_WINAPI ? 1 : A.config & C_WINDLFCN ? 2 : 0;
    g_fmtfail = A.config & C_FMTFAIL;
    SH = &M;
    ER = &M;
    g_buflen = A.buflen;
    for (int s = 0; s < g_nsym; s++) sym_names[s] = A.names[s];
    M.lib = M.inst = -1;
    capture_stderr();
    CMachine m;
    m.build();
    Engine e(m);
    engine_args(e, argc, argv);
    /* what the API says when nothing has happened yet */
    std::string base; e.copy_out(base);
    const char *t = NULL;
    impl_call([&] { t = A.last_error(); });
    g_noerr = t ? t : "";
    m.buf_err = (char *)t;
    e.copy_in(base);
    /* where paths are kept */
    const char *p = NULL;
    impl_call([&] { if (A.load_name(lib_names[L_A])) p = A.library_path(); });
    m.buf_path = (char *)p;
    e.copy_in(base);
    g_viol.clear(); g_ev.clear();
    e.run();
    e.report();
    return 0;
}
