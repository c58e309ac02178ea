/* Model checker for the plugin loader: several plugin sets at the same time */
#include "mc.hpp"
#include "plugapi.h"

static const plugapi &A = the_plugapi;
enum { F_CLOSE = 128, F_NUL = 16, F_LEN3 = 32768, F_SETS3 = 65536, F_GONE = 8 };
static int g_features;
enum { SETS = 3, LEN = 4 };
struct Set { uint8_t used, n; int8_t e[LEN], inst[LEN]; uint32_t live; void *p; };   /* e: library, or -1 null, -2 empty */
struct Model { Set s[SETS]; };
static Model M;
static const char *entry_name(int e) { return e == -1 ? "NULL" : e == -2 ? "\"\"" : lib_names[e]; }

struct PMachine : Machine {
    std::vector<int> kind, slot;    /* kind 0 load, 1 release, 2 other */
    void *model() override { return &M; }
    size_t model_size() override { return sizeof M; }
    int nsets() { return g_features & F_SETS3 ? 3 : 2; }
    bool enabled(size_t o) override
    {
        if (kind[o] == 0) { if (M.s[slot[o]].used) return false; for (int k = 0; k < slot[o]; k++) if (!M.s[k].used) return false; return true; }
        return true;
    }
    void canon_model(std::string &k) override { static Model c; c = M; for (auto &s : c.s) s.p = NULL; k.append((char *)&c, sizeof c); }
    void canon(std::string &k) override { k.append(__start_gdo_impl, __stop_gdo_impl - __start_gdo_impl); }
    void check(int i)
    {
        Set &S = M.s[i];
        if (!S.used || !S.p) return;
        if (A.num(S.p) != S.n) { fail("state", "set %d has %zu entries instead of %d", i, A.num(S.p), S.n); return; }
        for (int k = 0; k < S.n; k++) {
            const char *f = A.filename(S.p, k);
            if (S.e[k] < 0) {
                if (f && *f) fail("state", "entry %d of set %d has a file name `%s', but none was given", k, i, f);
                if (A.handle(S.p, k)) fail("state", "entry %d of set %d has a handle, but no name was given", k, i);
                for (int s = 0; s < A.nsym; s++) if (A.raw(S.p, k, s)) fail("state", "entry %d of set %d: symbol `%s' is not null without a library", k, i, A.names[s]);
                continue;
            }
            if (!f) fail("state", "entry %d of set %d has no file name", k, i);
            else if (!in_arena(A.rawname(S.p, k))) fail("state", "entry %d of set %d: the file name is no private copy", k, i);
            else if (((AHdr *)A.rawname(S.p, k) - 1)->magic != LIVE) fail("mem", "entry %d of set %d: the file name points to released memory", k, i);
            else if (strcmp(f, lib_names[S.e[k]]) != 0) fail("state", "entry %d of set %d: the file name is `%s' instead of `%s'", k, i, f, lib_names[S.e[k]]);
            void *h = A.handle(S.p, k);
            int l, n;
            if (S.inst[k] < 0) { if (h) fail("state", "entry %d of set %d has a handle although %s could not be loaded", k, i, lib_names[S.e[k]]); }
            else if (!h || !parse_handle(h, l, n) || l != S.e[k] || n != S.inst[k]) fail("state", "entry %d of set %d has not the handle of %s", k, i, lib_names[S.e[k]]);
            else if (!mk.live[l][n]) fail("balance", "entry %d of set %d: the handle was closed", k, i);
            for (int s = 0; s < A.nsym; s++) {
                void *p = A.raw(S.p, k, s);
                void *want = S.inst[k] >= 0 && has_sym(S.e[k], s) == 1 ? sym_addr(S.e[k], S.inst[k], s) : NULL;
                if (p != want) fail("state", "entry %d of set %d (%s): symbol `%s' is %s", k, i, lib_names[S.e[k]], A.names[s], p ? want ? "another one" : "not null" : "null");
            }
        }
    }
    void probe() override
    {
        g_ev.clear();
        int open = 0;
        uint32_t live = 0;
        for (int i = 0; i < nsets(); i++) { check(i); live += M.s[i].live; for (int k = 0; k < M.s[i].n; k++) open += M.s[i].inst[k] >= 0; }
        if (nlive() != open) fail("balance", "%d handles are open instead of %d", nlive(), open);
        if (g_arena.live != live) fail("mem", "%u allocations are in use instead of %u", g_arena.live, live);
    }
    void add(int k, int s, const std::string &n, std::function<void()> f) { ops.push_back({ n, f }); kind.push_back(k); slot.push_back(s); }
    void build()
    {
        std::vector<int> ent = { L_A, L_MID, L_FIRST, L_NONE, -1, -2 };
        if (g_features & F_NUL) ent.push_back(L_NUL);
        std::vector<std::vector<int>> lists = { {} }, cur = { {} };
        for (int len = 1; len <= ((g_features & F_LEN3) ? 3 : 2); len++) {
            std::vector<std::vector<int>> nx;
            for (auto &l : cur) for (int e : ent) { auto x = l; x.push_back(e); nx.push_back(x); lists.push_back(x); }
            cur = nx;
        }
        for (int i = 0; i < nsets(); i++) {
            for (auto &l : lists) {
                if (i > 0 && l.size() > 2) continue;
                if (i > 1 && l.size() > 1) continue;
                std::string d;
                for (int e : l) d += std::string(d.empty() ? "" : ", ") + entry_name(e);
                add(0, i, "set " + std::to_string(i) + ": load {" + d + "}", [=] {
                    Set &S = M.s[i];
                    static char buf[LEN][32];
                    const char *args[LEN + 1];
                    memset(&S, 0, sizeof S);
                    for (size_t k = 0; k < l.size(); k++) {
                        strcpy(buf[k], l[k] < 0 ? "" : lib_names[l[k]]);
                        args[k] = l[k] == -1 ? NULL : buf[k];
                    }
                    const char *keep[LEN + 1]; memcpy(keep, args, sizeof args);
                    uint32_t live = g_arena.live;
                    void *p = NULL;
                    impl_call([&] { p = A.load(args, l.size()); });
                    for (size_t k = 0; k < l.size(); k++) if (args[k] != keep[k] || (args[k] && strcmp(args[k], l[k] < 0 ? "" : lib_names[l[k]]) != 0)) fail("state", "the caller's list was changed");
                    /* the caller's strings are gone now */
                    memset(buf, '#', sizeof buf);
                    if (l.empty()) {
                        if (p) fail("state", "an empty list gave a plugin set");
                        if (!g_ev.empty()) fail("state", "an empty list called the loader");
                        if (g_arena.live != live) fail("mem", "an empty list allocated memory");
                        if (!p) return;
                    }
                    if (!p) { fail("state", "no plugin set was returned"); return; }
                    S.used = 1; S.n = l.size(); S.p = p; S.live = g_arena.live - live;
                    std::vector<Event> op;
                    for (auto &e : g_ev) { if (e.kind == 'o') op.push_back(e); else if (e.kind == 'O' || e.kind == 'c') fail("balance", "loading called the loader (%c)", e.kind); }
                    size_t at = 0;
                    for (size_t k = 0; k < l.size(); k++) {
                        S.e[k] = l[k]; S.inst[k] = -1;
                        if (l[k] < 0) continue;
                        if (at >= op.size()) { fail("state", "%s was not opened", lib_names[l[k]]); continue; }
                        if (op[at].text != lib_names[l[k]]) fail("state", "`%s' was opened instead of %s", op[at].text.c_str(), lib_names[l[k]]);
                        if (op[at].flags != A.default_flags) fail("state", "%s was opened with flags %d", lib_names[l[k]], op[at].flags);
                        if (op[at].lib == l[k] && op[at].lib < NLIB) S.inst[k] = op[at].inst;
                        at++;
                    }
                    if (at != op.size()) fail("state", "the loader was called %zu times instead of %zu", op.size(), at);
                });
            }
            add(1, i, "set " + std::to_string(i) + ": release", [=] {
                Set S = M.s[i];
                int want = 0;
                for (int k = 0; k < S.n; k++) want += S.inst[k] >= 0;
                uint32_t live = g_arena.live;
                impl_call([&] { A.release(S.p); });
                if (count('c') != want) fail("balance", "releasing closed %d handles instead of %d", count('c'), want);
                if (mk.close_fails) for (int k = 0; k < S.n; k++) if (S.inst[k] >= 0) mk.live[S.e[k]][S.inst[k]] = 0;
                if (count('o') + count('O')) fail("state", "releasing opened a library");
                if (live - g_arena.live != S.live) fail("mem", "releasing freed %u of %u allocations", live - g_arena.live, S.live);
                memset(&M.s[i], 0, sizeof S);
            });
        }
        add(2, 0, "load(NULL, 2)", [=] { void *p = NULL; uint32_t live = g_arena.live; impl_call([&] { p = A.load(NULL, 2); }); if (p) fail("state", "load(NULL) returned a plugin set"); if (!g_ev.empty()) fail("state", "load(NULL) called the loader"); if (g_arena.live != live) fail("mem", "load(NULL) allocated memory"); });
        add(2, 0, "release(NULL)", [=] { impl_call([&] { A.release(NULL); }); if (!g_ev.empty()) fail("balance", "release(NULL) called the loader"); });
        if (g_features & F_CLOSE) add(2, 0, "environment: closing fails from now on / works again", [=] { mk.close_fails = !mk.close_fails; });
        if (g_features & F_GONE) add(2, 0, "environment: libA disappears / is back", [=] { mk.gone[L_A] = !mk.gone[L_A]; });
    }
};

int main(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "features")) g_features = atoi(argv[i + 1]);
    g_nsym = A.nsym;
    g_win = A.config & 16 ? 1 : A.config & 32 ? 2 : 0;
    for (int s = 0; s < g_nsym; s++) sym_names[s] = A.names[s];
    capture_stderr();
    PMachine m;
    m.build();
    Engine e(m);
    engine_args(e, argc, argv);
    e.run();
    e.report();
    return 0;
}
