/* what the C and the C++ API have in common: the reference model of loading and of error messages */
#pragma once
#include "mc.hpp"

static void *raw_pointer(int);
enum ErrKind : uint8_t { E_NONE, E_ANY, E_DL, E_ALREADY, E_EMPTY, E_NOLIB, E_UNKNUM, E_UNKNAME, E_EMPTYSYM, E_NOMSG, E_PATH, E_ATEXIT, E_TRUNC, NKIND };
static const char *kind_name[] = { "none", "any", "loader", "already loaded", "empty file name", "no library", "unknown number", "unknown name", "empty symbol name", "loader without message", "no path", "atexit", "long message" };

struct Err { uint8_t err; char detail[96]; int32_t detail_n; };
struct Shared { int8_t lib, inst; uint8_t sym[NSYM]; };
/* the machine's model; the error state of the object which was called last */
static Shared *SH;
static Err *ER;
static struct { int nsym; const char *const *names; size_t buflen, errlen; } A0;
static std::string g_noerr;
static std::map<int, std::string> g_text;        /* message of each kind of failure, and the history which showed it first */
static std::map<std::string, int> g_kind_of_text;
static std::string long_name(int n) { std::string s(n, 0); long_name_to(&s[0], n); return s; }

static bool path_mode_used(int p)
{
    switch (g_plat) {
    case PL_AIX: return p == P_ABS || p == P_REL_MAPS || p == P_FIT || p == P_LONG_LONG || p == P_REL_LONGMAPS || p == P_LONG_ADDR || p == P_EMPTY_ADDR || p == P_REL_NOMATCH || p == P_FAIL_NOADDR;
    case PL_DLADDR: return p == P_FAIL_ADDR || p == P_FAIL_NOADDR || p == P_FAIL_LONG || p == P_ADDR_EMPTY;
    case PL_GLIBC: case PL_DLINFO: if (p == P_REL_OLD || p == P_REL_ANON) return false;
    }
    return !g_win || p == P_ABS || p == P_FIT || p == P_LONG_LONG || p == P_FAIL_NOADDR || (g_win == 2 && (p == P_FAIL_ADDR || p == P_ADDR_EMPTY || p == P_LONG_ADDR));
}
/* the name which the loader gets */
static int g_nlive() { int n = 0; for (auto &l : mk.live) for (auto x : l) n += x; return n; }
/* other platforms: the texts library_path() may give (empty: an error), or false: see the machine */
static bool plat_answer(int mode, int l, int i, bool any, bool fixed, std::set<std::string> &ok)
{
    auto P = [&](char k, const char *tail = "") { ok.insert(path_of(l, i, k) + tail); };
    switch (g_plat) {
    case PL_AIX:
        if (any) switch (mode) {
        case P_ABS: P('a'); break;
        case P_REL_MAPS: P('a', "(shr.o)"); break;
        case P_FIT: P('F'); break;
        case P_LONG_ADDR: P('G', "(m.o)"); break;
        case P_LONG_LONG: if (!fixed) P('L'); break;
        case P_REL_LONGMAPS: if (!fixed) P('F', "(m.o)"); break;
        }
        /* the system's answer may not fit into the buffer given to it */
        if (!any || mode == P_EMPTY_ADDR || mode == P_REL_NOMATCH || mode == P_FAIL_NOADDR || mode == P_LONG_LONG || mode == P_REL_LONGMAPS || ((g_nlive() > 1 || A0.nsym > 1) && (mode == P_FIT || mode == P_LONG_ADDR))) ok.insert("");
        return true;
    case PL_DLADDR:
        if (any && mode == P_FAIL_ADDR) P('d');
        if (any && mode == P_FAIL_LONG && !fixed) P('L');
        if (!any || mode != P_FAIL_ADDR) ok.insert("");
        return true;
    case PL_DLINFO:
        if (mode == P_REL_MAPS || mode == P_REL_NOMAPS || mode == P_REL_NOMATCH || mode == P_REL_LONGMAPS) { P('r'); return true; }
        return false;
    case PL_PROCMAP:
        if (mode == P_REL_OLD || mode == P_REL_ANON) { P('m'); return true; }
        return false;
    }
    return false;
}
static std::string loader_name(std::string n) { if (g_win == 1) for (char &c : n) if (c == '/') c = '\\'; return n; }
static void set_err_model(uint8_t k, const char *d = "", int n = 0) { memset(ER->detail, 0, sizeof ER->detail); ER->err = k; strncpy(ER->detail, d, sizeof ER->detail - 1); ER->detail_n = n; }


/* compares a message with the state expected in e */
static void check_error_text(const std::string &s, const Err &e)
{
    const char *t = s.c_str();
    if (s.empty()) { fail("error", "the error text is empty"); return; }
    if (s.find("foreign") != std::string::npos) { fail("error", "an error of another call shows through: `%s'", t); return; }
    switch (e.err) {
    case E_ANY: return;
    case E_NONE: if (s != g_noerr) fail("error", "the last call succeeded, but last_error() says `%.200s'", t); return;
    case E_DL: if (s.find(e.detail) == std::string::npos) fail("error", "the last call failed with `%s', but last_error() says `%.200s'", e.detail, t); return;
    case E_TRUNC: {
        std::string want = long_name(e.detail_n);
        if (s == g_noerr) { fail("error", "a call failed with a long message, but last_error() says `%.100s'", t); return; }
        size_t p = s.find("libLONG");
        if (p == std::string::npos) { fail("error", "the message of %d bytes is lost: `%.100s'", e.detail_n, t); return; }
        std::string tail = s.substr(p);
        size_t k = 0;
        while (k < tail.size() && k < want.size() && tail[k] == want[k]) k++;
        if (k < want.size() && s.size() < A0.errlen - 8) fail("error", "the message of %d bytes was cut at %zu bytes or is corrupt", e.detail_n, s.size());
        if (k < want.size() && k < tail.size() && !(g_win == 1 && p + k + 1 >= A0.errlen && tail.compare(k, 2, ": ") == 0)) fail("error", "the long message is corrupt at offset %zu", p + k);
        return;
    }
    default:
        if (s == g_noerr) { fail("error", "the last call failed (%s), but last_error() says `%s'", kind_name[e.err], t); return; }
        if ((e.err == E_UNKNUM || e.err == E_UNKNAME) && s.find(e.detail) == std::string::npos) { fail("error", "the last call failed (%s `%s'), but last_error() says `%.200s'", kind_name[e.err], e.detail, t); return; }
        if (e.err == E_PATH) return;
        {
            int key = e.err * 16;
            std::string d = e.detail;
            std::string gen = s;
            if (!d.empty()) { size_t p = gen.rfind(d); while (e.err == E_UNKNUM && p != std::string::npos && ((p && isdigit((unsigned char)gen[p - 1])) || isdigit((unsigned char)gen.c_str()[p + d.size()]))) p = p ? gen.rfind(d, p - 1) : std::string::npos; if (p != std::string::npos) gen.replace(p, d.size(), "<>"); }
            auto it = g_text.find(key);
            if (it == g_text.end()) {
                g_text[key] = gen;
                auto o = g_kind_of_text.find(gen);
                if (o != g_kind_of_text.end() && o->second != e.err)
                    fail("error", "two different failures (%s, %s) give the same message `%s'", kind_name[e.err], kind_name[o->second], t);
                g_kind_of_text[gen] = e.err;
            } else if (it->second != gen) {
                fail("error", "the last call failed (%s), but last_error() says `%.200s' (otherwise: `%.200s')", kind_name[e.err], t, it->second.c_str());
            }
        }
    }
}

/* compare the pointers with the model; unknown[s] != 0: may be null or loaded, the model follows */
static void sync_symbols(const char *op, const uint8_t *want, const uint8_t *unknown)
{
    for (int s = 0; s < A0.nsym; s++) {
        void *p = raw_pointer(s);
        uint8_t now = p != NULL;
        if (p && (SH->lib < 0 || p != sym_addr(SH->lib, SH->inst, s))) {
            int l, i, y;
            if (parse_addr(p, l, i, y))
                fail("state", "after %s symbol `%s' points to `%s' of %s%s", op, A0.names[s], A0.names[y], lib_names[l], l == SH->lib && i != SH->inst ? " (a freed instance)" : "");
            else
                fail("state", "after %s symbol `%s' is a wild pointer", op, A0.names[s]);
        } else if (!unknown[s] && now != want[s]) {
            fail("state", "after %s symbol `%s' is %s", op, A0.names[s], now ? "loaded" : "null");
        }
        SH->sym[s] = now;
    }
}
static const uint8_t all_known[NSYM] = { 0 };
static void no_loader_calls(const char *op) { if (!g_ev.empty()) fail("state", "%s called the loader (%c)", op, g_ev[0].kind); }

/* model of loading a library; returns the expected result */
static bool expect_load(const char *op, const char *name, int flags, bool ns, bool &opened)
{
    int no = count('o') + count('O');
    opened = false;
    if (SH->lib >= 0) {
        if (no) fail("balance", "%s opened a library although one is loaded", op);
        set_err_model(E_ALREADY);
        return false;
    }
    if (!name || !*name) {
        if (no) fail("state", "%s called the loader with an empty name", op);
        set_err_model(E_EMPTY);
        return false;
    }
    if (no != 1) { fail("state", "%s called the loader %d times", op, no); }
    for (auto &e : g_ev) {
        if (e.kind != 'o' && e.kind != 'O') continue;
        if (e.text != loader_name(name)) fail("state", "%s opened `%s' instead of `%s'", op, e.text.c_str(), name);
        if (e.flags != flags) fail("state", "%s used flags %d instead of %d", op, e.flags, flags);
        if ((e.kind == 'O') != (ns && !g_win && (g_plat == PL_GLIBC || g_plat == PL_PROCMAP))) fail("state", "%s %s a new namespace", op, ns ? "did not use" : "used");
        if (e.lib >= 0 && e.lib < NLIB) { SH->lib = e.lib; SH->inst = e.inst; opened = true; }
    }
    if (!opened) {
        if (!strncmp(name, "libLONG", 7)) set_err_model(E_TRUNC, "", strlen(name));
        else set_err_model(E_DL, open_msg(name).c_str());
        return false;
    }
    set_err_model(E_NONE);
    return true;
}
static void expect_load_all(const char *op, bool r)
{
    uint8_t want[NSYM], unk[NSYM] = { 0 };
    bool was_all = true;
    memcpy(want, SH->sym, sizeof want);
    for (int s = 0; s < A0.nsym; s++) was_all = was_all && SH->sym[s];
    if (SH->lib < 0) {
        if (r) fail("state", "%s returned true with no library", op);
        set_err_model(E_NOLIB);
        sync_symbols(op, want, all_known);
        return;
    }
    bool ok = was_all || complete(SH->lib);
    if (r != ok) fail("state", "%s returned %d for %s", op, r, lib_names[SH->lib]);
    if (ok) { memset(want, 1, sizeof want); set_err_model(E_NONE); }
    else {
        int missing = -1;
        for (int s = A0.nsym; s-- > 0;) {
            if (has_sym(SH->lib, s) != 1) missing = s;
            unk[s] = !SH->sym[s] && has_sym(SH->lib, s) == 1;
            want[s] = SH->sym[s];
        }
        if (has_sym(SH->lib, missing) == 0) set_err_model(E_DL, sym_msg(A0.names[missing]).c_str());
        else set_err_model(E_NOMSG);
    }
    sync_symbols(op, want, unk);
}
static void expect_load_sym(const char *op, bool r, int s, uint8_t kind, const char *detail, int n = 0)
{
    uint8_t want[NSYM];
    memcpy(want, SH->sym, sizeof want);
    bool ok = false;
    if (SH->lib < 0) set_err_model(E_NOLIB);
    else if (s < 0) set_err_model(kind, detail, n);
    else {
        ok = SH->sym[s] || has_sym(SH->lib, s) == 1;
        want[s] = ok;
        if (ok) set_err_model(E_NONE);
        else if (has_sym(SH->lib, s) == 0) set_err_model(E_DL, sym_msg(A0.names[s]).c_str());
        else set_err_model(E_NOMSG);
    }
    if (r != ok) fail("state", "%s returned %d, library %s", op, r, SH->lib < 0 ? "none" : lib_names[SH->lib]);
    if (count('o') + count('O') + count('c')) fail("state", "%s opened or closed a library", op);
    sync_symbols(op, want, all_known);
}

