/* Model checker for the minimal C and C++ formats */
#include "mc.hpp"
#include "minapi.h"

static const minapi &A = the_minapi;
enum { F_GONE = 8, F_NUL = 16, F_CALL = 32, F_CLOSE = 128, F_FOREIGN = 256 };
static int g_features;
struct Model { int8_t lib, inst; };
static Model M;
static std::string g_text;
static void sink(const char *s) { bool k = g_in_impl; g_in_impl = false; g_text = s ? s : "<null>"; g_in_impl = k; }

struct MMachine : Machine {
    std::vector<int> callop;
    void *model() override { return &M; }
    size_t model_size() override { return sizeof M; }
    bool enabled(size_t o) override { return callop[o] < 0 || M.lib >= 0; }
    bool repeatable(size_t) override { return true; }
    void canon(std::string &k) override { k.append(__start_gdo_impl, __stop_gdo_impl - __start_gdo_impl); }
    void probe() override
    {
        g_ev.clear();
        for (int s = 0; s < A.nsym; s++) {
            void *p = A.raw(s);
            if (M.lib < 0) { if (p) fail("state", "no library is loaded, but symbol `%s' is not null", A.names[s]); }
            else if (p != sym_addr(M.lib, M.inst, s)) {
                int l, i, y;
                if (!p) fail("state", "symbol `%s' of the loaded library %s is null", A.names[s], lib_names[M.lib]);
                else if (parse_addr(p, l, i, y)) fail("state", "symbol `%s' points to `%s' of %s%s", A.names[s], A.names[y], lib_names[l], l == M.lib ? " (another instance)" : "");
                else fail("state", "symbol `%s' is a wild pointer", A.names[s]);
            }
        }
        if (nlive() != (M.lib >= 0)) fail("balance", "%d handles are open, library is %sloaded", nlive(), M.lib >= 0 ? "" : "not ");
        if (M.lib >= 0 && !mk.live[M.lib][M.inst]) fail("balance", "the loaded library's handle is closed");
        if (mk.natexit) fail("balance", "an exit handler was registered");
    }
    void add(const std::string &n, std::function<void()> f, int c = -1) { ops.push_back({ n, f }); callop.push_back(c); }
    void given_up(const char *op) {   /* a handle which cannot be closed is given up */
        int n = count('c');
        if (mk.close_fails) for (auto &e : g_ev) if (e.kind == 'c' && e.lib >= 0) mk.live[e.lib][e.inst] = 0;
        (void)op; (void)n;
    }
    void build()
    {
        int F = g_features;
        std::vector<std::string> names;
        for (int l : { (int)L_A, (int)L_B, (int)L_FIRST, (int)L_MID, (int)L_LAST }) names.push_back(lib_names[l]);
        if (F & F_NUL) names.push_back(lib_names[L_NUL]);
        names.push_back(lib_names[L_NONE]); names.push_back(""); names.push_back("<NULL>");
        for (auto &n : names) add("load(" + n + ")", [=] {
            const char *arg = n == "<NULL>" ? NULL : n.c_str();
            int r = R_OTHER;
            bool had = M.lib >= 0;
            g_text = "";
            impl_call([&] { r = A.load(arg, sink); });
            given_up("load");
            M.lib = M.inst = -1;
            int l = -1;
            for (int k = 0; k < NLIB; k++) if (n == lib_names[k] && !mk.gone[k]) l = k;
            bool bad = !arg || !*arg;
            int opens = count('o') + count('O'), closes = count('c');
            if (opens != !bad) fail("state", "load(%s) called the loader %d times", n.c_str(), opens);
            for (auto &e : g_ev) if (e.kind == 'o') { if (e.text != n) fail("state", "load(%s) opened `%s'", n.c_str(), e.text.c_str()); if (e.flags != (g_win == 1 ? 0 : RTLD_LAZY)) fail("state", "load(%s) used flags %d", n.c_str(), e.flags); if (e.lib >= 0 && e.lib < NLIB && complete(e.lib)) { M.lib = e.lib; M.inst = e.inst; } }
            if (count('O')) fail("state", "load(%s) used a new namespace", n.c_str());
            int want = l >= 0 && complete(l) ? R_OK_ : !A.cxx ? R_MSG : l < 0 ? R_LIBERR : R_SYMERR;
            int wclose = had + (l >= 0 && want != R_OK_);
            if (closes != wclose) fail("balance", "load(%s) closed %d handles instead of %d", n.c_str(), closes, wclose);
            static const char *kn[] = { "success", "an error message", "a library error", "a symbol error", "something else" };
            if (r != want) fail("state", "load(%s) gave %s (%s) instead of %s", n.c_str(), kn[r], g_text.c_str(), kn[want]);
            if (r != R_OK_ && g_text.empty()) fail("state", "load(%s) failed with an empty message", n.c_str());
            if (r != R_OK_ && l >= 0) {
                /* names the first symbol which is missing */
                int m = -1;
                for (int s = A.nsym; s-- > 0;) if (has_sym(l, s) != 1) m = s;
                std::string t = g_text;
                size_t p = t.rfind(A.names[m]);
                bool named = p != std::string::npos && p + strlen(A.names[m]) == t.size() && (p == 0 || !(isalnum(t[p - 1]) || t[p - 1] == '_'));
                if (!named) fail("state", "the message for load(%s) does not name the missing symbol `%s': `%s'", n.c_str(), A.names[m], t.c_str());
            }
            if (r == R_LIBERR && !bad && g_text.find(n) == std::string::npos) fail("state", "the library error does not name `%s': `%s'", n.c_str(), g_text.c_str());
        });
        add("free_library()", [=] {
            bool had = M.lib >= 0;
            impl_call([&] { A.free_lib(); });
            given_up("free");
            if (count('c') != had) fail("balance", "free_library closed %d handles, library %sloaded", count('c'), had ? "" : "not ");
            if (count('o') + count('O')) fail("state", "free_library opened a library");
            M.lib = M.inst = -1;
        });
        if (F & F_FOREIGN) add("environment: another library leaves an error behind", [=] { set_err("%s", "foreign error"); });
        if (F & F_CLOSE) add("environment: closing fails from now on / works again", [=] { mk.close_fails = !mk.close_fails; });
        if (F & F_GONE) add("environment: libA disappears / is back", [=] { mk.gone[L_A] = !mk.gone[L_A]; });
        if (F & F_CALL) for (int i = 0; i < A.nsym; i++) add(std::string("use ") + A.names[i], [=] {
            int L = M.lib, I = M.inst;
            memset(g_obj, 0, sizeof g_obj);
            g_obj[L][I] = 41;
            long r = 0;
            impl_call([&] { r = A.call(i); });
            if (i == 2) { if (r != 41 || g_obj[L][I] != 42) fail("state", "using the object `%s' gave %ld and left %d", A.names[i], r, g_obj[L][I]); }
            else {
                if (g_calls.size() != 1) { fail("state", "using %s called %zu functions", A.names[i], g_calls.size()); }
                else {
                    auto &c = g_calls[0];
                    long er = i == 0 ? 70000 + L * 1000 + I * 100 + 31 - 17 : i == 1 ? 0 : 90000 + L * 1000 + I * 100 + 6;
                    bool args = i == 0 ? c.a == 31017 : i == 1 ? c.d == 2.5 && c.s == "text" : c.a == 5 && c.s == "var" && c.d == 0.25;
                    if (c.lib != L || c.inst != I || c.sym != i || !args || r != er) fail("state", "using %s called the wrong function or passed wrong values", A.names[i]);
                }
            }
            memset(g_obj, 0, sizeof g_obj);
        }, i);
    }
};

int main(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "features")) g_features = atoi(argv[i + 1]);
    g_nsym = A.nsym;
    g_win = A.config & 16 ? 1 : A.config & 32 ? 2 : 0;
    for (int s = 0; s < g_nsym; s++) sym_names[s] = A.names[s];
    M.lib = M.inst = -1;
    capture_stderr();
    MMachine m;
    m.build();
    Engine e(m);
    engine_args(e, argc, argv);
    e.run();
    e.report();
    return 0;
}
