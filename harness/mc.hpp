/* Explicit-state model checker which drives the real generated code.
 *
 * A state is the complete memory of the code under test (its .data/.bss, put
 * into one section by a linker script, and everything it allocated), the mock
 * loader, and the reference model.  A transition restores a state, executes
 * one API call (or one change of the environment) on the real code, compares
 * everything observable with the reference model, and saves the successor.
 * States are merged when their canonical form is equal.
 */
#pragma once
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>

extern "C" char __start_gdo_impl[], __stop_gdo_impl[];

/* ------------------------------------------------------------ violations */
struct Violation { std::string cat, what; };
static bool g_in_impl;
static std::vector<Violation> g_viol;      /* of the running operation */
__attribute__((format(printf, 2, 3)))
static void fail(const char *cat, const char *fmt, ...)
{
    char b[3000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    bool k = g_in_impl; g_in_impl = false;
    if (g_viol.size() < 30) g_viol.push_back({ cat, b });
    g_in_impl = k;
}

/* ------------------------------------------------------------- allocator */
/* bump allocator for the code under test; freed memory is poisoned */
static const size_t ARENA = 1 << 20;
alignas(16) static char g_arena_mem[ARENA];
struct ArenaState { uint32_t used, live, last; };   /* last: offset of the last block + 1 */
static ArenaState g_arena;
struct AHdr { uint32_t size; uint32_t magic; uint64_t pad; };
enum { LIVE = 0x11fe11fe, DEAD = 0xdeaddead };
static int g_fail_alloc = -1;

static void *a_alloc(size_t n)
{
    if (g_fail_alloc >= 0 && g_fail_alloc-- == 0) return NULL;
    size_t need = sizeof(AHdr) + ((n + 15) & ~(size_t)15);
    if (g_arena.used + need > ARENA) { fprintf(stderr, "arena exhausted\n"); abort(); }
    AHdr *h = (AHdr *)(g_arena_mem + g_arena.used);
    g_arena.used += need;
    h->size = n; h->magic = LIVE; h->pad = g_arena.last;
    g_arena.last = (char *)h - g_arena_mem + 1;
    memset(h + 1, 0xA5, need - sizeof *h);
    g_arena.live++;
    return h + 1;
}
static bool in_arena(const void *p) { return (const char *)p >= g_arena_mem && (const char *)p < g_arena_mem + ARENA; }
static void a_free(void *p)
{
    if (!p) return;
    AHdr *h = (AHdr *)p - 1;
    if (h->magic == DEAD) { fail("mem", "memory freed twice"); return; }
    if (h->magic != LIVE) { fail("mem", "invalid pointer freed"); return; }
    h->magic = DEAD;
    memset(p, 0xDD, h->size);
    g_arena.live--;
    while (g_arena.last) {   /* keep the arena short */
        AHdr *l = (AHdr *)(g_arena_mem + g_arena.last - 1);
        if (l->magic != DEAD) break;
        g_arena.used = g_arena.last - 1;
        g_arena.last = l->pad;
    }
}
/* malloc() of the code under test, also within the C library on its behalf */
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
void *malloc(size_t n) { return g_in_impl ? a_alloc(n) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (!g_in_impl) return __libc_calloc(a, b); void *p = a_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void free(void *p) { if (in_arena(p)) a_free(p); else if (!g_in_impl) __libc_free(p); /* made before the first state (static objects): must survive the return to it */ }
void *realloc(void *p, size_t n)
{
    if (!in_arena(p)) { if (p || !g_in_impl) return __libc_realloc(p, n); return a_alloc(n); }
    AHdr *h = (AHdr *)p - 1;
    void *q = a_alloc(n);
    if (q) { memcpy(q, p, n < h->size ? n : h->size); a_free(p); }
    return q;
}
}

/* --------------------------------------------------------- termination */
enum { T_NONE = 0, T_EXIT, T_ABORT, T_THROW };
static jmp_buf g_jmp;
static int g_term, g_term_code;
static bool g_can_jump;
extern "C" void mock_exit(int code) { if (!g_can_jump) { fprintf(stderr, "unexpected exit(%d)\n", code); _Exit(3); } g_term = T_EXIT; g_term_code = code; longjmp(g_jmp, 1); }
extern "C" void mock__exit(int code) { mock_exit(code); }
extern "C" void mock_abort() { if (!g_can_jump) { fprintf(stderr, "unexpected abort()\n"); _Exit(3); } g_term = T_ABORT; longjmp(g_jmp, 1); }

/* ------------------------------------------------------------- messages */
static std::string g_stderr;
static ssize_t cookie_write(void *, const char *b, size_t n) { bool s = g_in_impl; g_in_impl = false; g_stderr.append(b, n); g_in_impl = s; return n; }
struct CapBuf : std::streambuf {
    int overflow(int c) override { char ch = c; cookie_write(NULL, &ch, 1); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { cookie_write(NULL, s, n); return n; }
};
static void capture_stderr()
{
    cookie_io_functions_t io = { NULL, cookie_write, NULL, NULL };
    FILE *f = fopencookie(NULL, "w", io);
    setvbuf(f, NULL, _IONBF, 0);
    stderr = f;
    static CapBuf *cb = new CapBuf;
    std::cerr.rdbuf(cb);
}

/* ---------------------------------------------------------- mock loader */
enum { NI = 6, NSYM = 4 };
enum LibId { L_A, L_B, L_FIRST, L_MID, L_LAST, L_NUL, NLIB, L_NONE = NLIB };
static const char *lib_names[NLIB + 1] = { "libA.so", "libB.so", "libFIRST.so", "libMID.so", "libLAST.so", "libNUL.so", "libNONE.so" };
static const char *sym_names[NSYM];
static int g_nsym;

/* whether library l provides symbol s: 1 yes, 0 no, -1 null without an error */
static int has_sym(int l, int s)
{
    switch (l) {
    case L_FIRST: return s != 0;
    case L_MID: return s != g_nsym / 2;
    case L_LAST: return s != g_nsym - 1;
    case L_NUL: return s == (g_nsym > 1 ? 1 : 0) ? -1 : 1;
    }
    return 1;
}
static bool complete(int l) { for (int s = 0; s < g_nsym; s++) if (has_sym(l, s) != 1) return false; return true; }

struct Mock {
    uint8_t live[NLIB][NI];      /* open handles */
    uint8_t ns[NLIB][NI];
    uint8_t turn;                /* instance to use next */
    uint8_t abandoned;           /* handles given up after a failing forced close */
    bool close_fails, atexit_fails, gone[NLIB];
    uint8_t path_mode;
    uint32_t lasterr;            /* Windows: GetLastError() */
    bool has_err;
    char err[96];
    uint32_t err_long;           /* length of a long file name in the message */
    uint8_t natexit;
    void (*exit_fn[6])(void *);
    void *exit_arg[6];
};
static Mock mk;

struct Event { char kind; int lib, inst, sym, flags; std::string text; };
static std::vector<Event> g_ev;    /* of the running operation */

static void ev(char kind, int lib, int inst, int sym, int flags, const char *text = "")
{
    bool s = g_in_impl; g_in_impl = false;
    g_ev.push_back({ kind, lib, inst, sym, flags, text });
    g_in_impl = s;
}
/* Windows: 0 no, 1 native API, 2 dlfcn; and whether system messages are available */
static int g_win;
static bool g_fmtfail;
enum { WE_OPEN = 126, WE_SYM = 127, WE_CLOSE = 2000, WE_HANDLE = 6, WE_NAME = 123, WE_BUF = 122, WE_PATH = 31, WE_FOREIGN = 9999 };
static std::string win_text(uint32_t code)
{
    if (g_fmtfail) return "error code: " + std::to_string(code);
    switch (code) {
    case 0: return "everything went well";
    case WE_OPEN: return "cannot open shared object file";
    case WE_SYM: return "undefined symbol";
    case WE_CLOSE: return "dlclose failed";
    case WE_HANDLE: return "the handle is bad";
    case WE_NAME: return "the name is bad";
    case WE_BUF: return "the buffer is small";
    case WE_PATH: return "a device is defunct";
    case WE_FOREIGN: return "foreign error";
    }
    return "code " + std::to_string(code);
}
static std::string open_reason() { return g_win == 1 ? win_text(WE_OPEN) : "cannot open shared object file"; }
static std::string open_msg(const std::string &name) { return name + ": " + open_reason(); }
static std::string sym_msg(const std::string &name) { return g_win == 1 ? name + ": " + win_text(WE_SYM) : "undefined symbol: " + name; }
static std::string close_msg(const std::string &lib) { return g_win == 1 ? win_text(WE_CLOSE) : lib + ": dlclose failed"; }

static int count(char kind) { int n = 0; for (auto &e : g_ev) n += e.kind == kind; return n; }

static void *handle_of(int l, int i) { return (void *)(uintptr_t)(0x710000000000ull + l * 0x10000 + i * 0x100); }
static bool parse_handle(const void *h, int &l, int &i)
{
    uintptr_t d = (uintptr_t)h - 0x710000000000ull;
    l = d / 0x10000; i = d % 0x10000 / 0x100;
    return d < NLIB * 0x10000 && i < NI && d % 0x100 == 0;
}
static void set_err(const char *fmt, const char *a, const char *b = "") { mk.has_err = true; mk.err_long = 0; memset(mk.err, 0, sizeof mk.err); snprintf(mk.err, sizeof mk.err, fmt, a, b); }
static void long_name_to(char *b, int n) { strcpy(b, "libLONG"); int k = 7; while (k < n) { b[k] = 'a' + k % 26; k++; } b[k] = 0; }
static int nlive() { int n = 0; for (auto &x : mk.live) for (int v : x) n += v; return n; }

/* the library's functions and objects: one address for each library, instance and symbol */
struct CallRec { int lib, inst, sym; long a; double d; std::string s; };
static std::vector<CallRec> g_calls;
static void rec(int l, int i, int s, long a, double d, const char *str)
{
    bool k = g_in_impl; g_in_impl = false;
    g_calls.push_back({ l, i, s, a, d, str ? str : "<null>" });
    g_in_impl = k;
}
static int g_obj[NLIB][NI];
template<int L, int I> int fn0(int a, int b) { rec(L, I, 0, a * 1000 + b, 0, ""); return 70000 + L * 1000 + I * 100 + a - b; }
template<int L, int I> void fn1(double x, const char *s) { rec(L, I, 1, 0, x, s); }
template<int L, int I> long fn3(const char *f, ...) { va_list ap; va_start(ap, f); int a = va_arg(ap, int); const char *s = va_arg(ap, const char *); double d = va_arg(ap, double); va_end(ap); rec(L, I, 3, a, d, s); return 90000 + L * 1000 + I * 100 + strlen(f); }
template<int L, int I> void *addr_t(int s) {
    switch (s) { case 0: return (void *)fn0<L, I>; case 1: return (void *)fn1<L, I>; case 2: return &g_obj[L][I]; default: return (void *)fn3<L, I>; }
}
typedef void *(*addr_fn)(int);
#define ROW(L) { addr_t<L, 0>, addr_t<L, 1>, addr_t<L, 2>, addr_t<L, 3>, addr_t<L, 4>, addr_t<L, 5> }
static const addr_fn g_addr[NLIB][NI] = { ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5) };
static void *sym_addr(int l, int i, int s) { return g_addr[l][i](s); }
static bool parse_addr(const void *p, int &l, int &i, int &s)
{
    for (l = 0; l < NLIB; l++) for (i = 0; i < NI; i++) for (s = 0; s < g_nsym; s++) if (sym_addr(l, i, s) == p) return true;
    return false;
}

/* what the path facilities answer, see path_mode */
enum { P_ABS, P_REL_MAPS, P_REL_NOMAPS, P_REL_NOMATCH, P_FAIL_ADDR, P_EMPTY_ADDR, P_FAIL_NOADDR, P_LONG_ADDR, P_LONG_LONG, P_REL_LONGMAPS, P_FIT, P_FAIL_LONG, P_NULL_ADDR, P_ADDR_EMPTY, P_REL_OLD, P_REL_ANON, NPATH };
/* other platforms: AIX (loadquery), dladdr() only, Linux with PROCMAP_QUERY, dlinfo() without maps */
enum { PL_GLIBC, PL_AIX, PL_DLADDR, PL_PROCMAP, PL_DLINFO };
static int g_plat;
static int plat_of(int config) { return config & 256 ? PL_AIX : config & 512 ? PL_DLADDR : config & 1024 ? PL_PROCMAP : config & 2048 ? PL_DLINFO : PL_GLIBC; }
static const char *path_mode_name[NPATH] = { "absolute path from dlinfo", "relative path, in maps", "relative path, no maps", "relative path, not in maps", "dlinfo fails, dladdr answers",
    "dlinfo gives empty name, dladdr answers", "dlinfo and dladdr fail", "overlong path from dlinfo, dladdr answers", "overlong paths from both", "relative, overlong path in maps", "longest fitting path",
    "dlinfo fails, overlong path from dladdr", "dlinfo gives no name, dladdr answers", "dlinfo fails, dladdr gives an empty name", "relative path, ioctl() not supported, in maps", "relative path, ioctl() gives no name, in maps" };
static size_t g_buflen = 8192;
static std::string path_of(int l, int i, char kind)
{
    char b[64];
    snprintf(b, sizeof b, kind == 'r' ? "rel/%d-%d.so" : kind == 'm' ? "/maps/dir with blank/%d-%d.so" : kind == 'd' ? "/addr/%d-%d.so" : "/abs/%d-%d.so", l, i);
    std::string s = b;
    if (kind == 'L') s += std::string(g_buflen + 3 - s.size(), 'x');     /* too long for the buffer */
    if (kind == 'G') s += std::string(g_buflen - 6 - s.size(), 'z');     /* just fits with (m.o) */
    if (kind == 'F') s += std::string(g_buflen - 1 - s.size(), 'y');     /* just fits */
    return s;
}
static struct link_map g_lm;
static std::string g_lm_name, g_da_name;
static uintptr_t base_of(int l, int i) { return 0x7d0000000000ull + l * 0x10000000 + i * 0x1000000; }

extern "C" {
static void *do_open(const char *name, int flags, bool ns)
{
    bool s = g_in_impl; g_in_impl = false;
    void *r = NULL;
    if (!name) { ev('o', -2, -1, -1, flags, "<NULL>"); fail("state", "the loader was called with a null file name"); r = NULL; goto out; }
    for (int l = 0; l < NLIB; l++) {
        if (strcmp(g_win == 1 && !strncmp(name, "d\\", 2) ? name + 2 : name, lib_names[l]) != 0 || mk.gone[l]) continue;
        int i = -1;
        for (int k = NI; k-- > 0;) if (!mk.live[l][(mk.turn + k) % NI]) i = (mk.turn + k) % NI;
        if (i < 0) { fail("balance", "library handles are leaked"); break; }
        mk.live[l][i] = 1; mk.ns[l][i] = ns; mk.turn = i == 0;
        ev(ns ? 'O' : 'o', l, i, -1, flags, name);
        r = handle_of(l, i);
        goto out;
    }
    ev(ns ? 'O' : 'o', L_NONE, -1, -1, flags, name);
    if (g_win == 1) mk.lasterr = WE_OPEN;
    else if (strlen(name) > 60) { set_err("%s: cannot open shared object file", ""); mk.err_long = strlen(name); }
    else set_err("%s: cannot open shared object file", name);
out:
    g_in_impl = s;
    return r;
}
void *mock_dlopen(const char *name, int flags) { return do_open(name, flags, false); }
void *mock_dlmopen(long ns, const char *name, int flags) { if (ns != LM_ID_NEWLM) fail("state", "dlmopen called with namespace %ld", ns); return do_open(name, flags, true); }
void *mock_dlsym(void *h, const char *name)
{
    int l, i;
    if (!h || !parse_handle(h, l, i)) { fail("balance", "dlsym called with an invalid handle %p", h); set_err("invalid handle for %s", name); ev('s', -1, -1, -1, 0, name); return NULL; }
    if (!mk.live[l][i]) { fail("balance", "dlsym called with a closed handle (%s)", lib_names[l]); set_err("closed handle for %s", name); return NULL; }
    for (int s = 0; s < g_nsym; s++) {
        if (strcmp(name, sym_names[s]) != 0) continue;
        ev('s', l, i, s, 0, name);
        int h2 = has_sym(l, s);
        if (h2 == 1) return sym_addr(l, i, s);
        if (h2 == 0) set_err("%s: undefined symbol: %s", lib_names[l], name);
        return NULL;
    }
    ev('s', l, i, -1, 0, name);
    fail("state", "dlsym called with a name which was not declared: %s", name);
    set_err("undeclared %s", name);
    return NULL;
}
int mock_dlclose(void *h)
{
    int l, i;
    if (!h || !parse_handle(h, l, i)) { fail("balance", "dlclose called with an invalid handle %p", h); ev('c', -1, -1, -1, 0); set_err("%s", "dlclose: invalid handle"); return -1; }
    ev('c', l, i, -1, 0);
    if (!mk.live[l][i]) { fail("balance", "a handle of %s was closed twice", lib_names[l]); set_err("%s", "dlclose: closed handle"); return -1; }
    if (mk.close_fails) { set_err("%s: dlclose failed", lib_names[l]); return -1; }
    mk.live[l][i] = 0;
    return 0;
}
char *mock_dlerror(void)
{
    static char b[1 << 16];
    if (!mk.has_err) return NULL;
    mk.has_err = false;
    b[0] = 0;
    if (mk.err_long) long_name_to(b, mk.err_long);
    strcat(b, mk.err);
    memset(mk.err, 0, sizeof mk.err);
    mk.err_long = 0;
    return b;
}
/* --------------------------------------------------------- Windows, on top of the same loader */
static struct { char *p; size_t bytes, unit; } g_winbuf[8];    /* buffers of the code under test which hold text */
static void win_buffer(void *p, size_t bytes, size_t unit)
{
    for (auto &b : g_winbuf) { if (b.p == p) return; if (!b.p) { b.p = (char *)p; b.bytes = bytes; b.unit = unit; return; } }
}
/* conversion: ASCII and 0x80..0xfe <-> 0x180..0x1fe; 0xff cannot be converted */
static bool to_wide(const char *s, std::wstring &w) { w.clear(); for (; *s; s++) { unsigned char c = *s; if (c == 255) return false; w += (wchar_t)(c < 128 ? c : c + 0x100); } return true; }
static bool to_narrow(const wchar_t *s, std::string &n) { n.clear(); for (; *s; s++) { if (*s < 128) n += (char)*s; else if (*s >= 0x180 && *s < 0x1ff) n += (char)(*s - 0x100); else return false; } return true; }
static std::string narrow(const wchar_t *s) { std::string n; if (!to_narrow(s, n)) n = "<not convertible>"; return n; }
#define OUTSIDE bool in_impl_saved = g_in_impl; g_in_impl = false
#define INSIDE g_in_impl = in_impl_saved
static void *win_open(const char *name, unsigned flags)
{
    OUTSIDE;
    bool fwd = strchr(name, '/') != NULL;
    if (fwd) fail("state", "LoadLibrary was called with forward slashes: `%s'", name);
    INSIDE;
    return do_open(name, flags, false);
}
void *LoadLibraryExA(const char *name, void *file, unsigned flags) { if (file) fail("state", "LoadLibraryEx: reserved argument"); return win_open(name, flags); }
void *LoadLibraryExW(const wchar_t *name, void *file, unsigned flags) { OUTSIDE; if (file) fail("state", "LoadLibraryEx: reserved argument"); std::string n = narrow(name); INSIDE; void *r = win_open(n.c_str(), flags); g_in_impl = false; n = std::string(); INSIDE; return r; }
void *LoadLibraryA(const char *name) { return LoadLibraryExA(name, NULL, 0); }
void *LoadLibraryW(const wchar_t *name) { return LoadLibraryExW(name, NULL, 0); }
void *GetProcAddress(void *h, const char *name)
{
    void *p = mock_dlsym(h, name);
    if (!p) { mk.has_err = false; memset(mk.err, 0, sizeof mk.err); mk.lasterr = WE_SYM; }
    return p;
}
int FreeLibrary(void *h)
{
    if (mock_dlclose(h) == 0) return 4711;      /* `nonzero' */
    mk.has_err = false; memset(mk.err, 0, sizeof mk.err);
    mk.lasterr = WE_CLOSE;
    return 0;
}
static unsigned win_path(void *h, std::string &path, size_t size)
{
    int l, i;
    ev('i', -1, -1, -1, 0);
    if (!h || !parse_handle(h, l, i) || !mk.live[l][i]) { fail("balance", "GetModuleFileName called with an invalid or closed handle"); mk.lasterr = WE_HANDLE; return 0; }
    switch (mk.path_mode) {
    case P_ABS: path = path_of(l, i, 'a'); break;
    case P_FIT: path = path_of(l, i, 'F'); break;
    case P_LONG_LONG: case P_LONG_ADDR: path = path_of(l, i, 'L'); break;
    default: mk.lasterr = WE_PATH; return 0;
    }
    if (path.size() >= size) { path.resize(size - 1); mk.lasterr = WE_BUF; return size; }
    return path.size();
}
unsigned GetModuleFileNameA(void *h, char *buf, unsigned size)
{
    OUTSIDE;
    unsigned n;
    { std::string p; n = win_path(h, p, size); if (n) memcpy(buf, p.c_str(), p.size() + 1); }
    win_buffer(buf, size, 1);
    INSIDE;
    return n;
}
unsigned GetModuleFileNameW(void *h, wchar_t *buf, unsigned size)
{
    OUTSIDE;
    unsigned n;
    { std::string p; n = win_path(h, p, size); if (n) { std::wstring w; to_wide(p.c_str(), w); memcpy(buf, w.c_str(), (w.size() + 1) * sizeof(wchar_t)); } }
    win_buffer(buf, size * sizeof(wchar_t), sizeof(wchar_t));
    INSIDE;
    return n;
}
unsigned GetLastError(void) { return mk.lasterr; }
void SetLastError(unsigned e) { mk.lasterr = e; }
static std::string win_format(unsigned flags, unsigned id)
{
    if ((flags & 0x1300) != 0x1300) fail("error", "FormatMessage called with flags %#x", flags);
    return win_text(id) + ((flags & 0xff) == 0xff ? " " : "\r\n");
}
unsigned FormatMessageA(unsigned flags, const void *, unsigned id, unsigned, char *out, unsigned, void *)
{
    if (g_fmtfail) { mk.lasterr = 317; return 0; }
    OUTSIDE;
    static std::string t; t = win_format(flags, id);
    INSIDE;
    char *b = (char *)malloc(t.size() + 1);
    memcpy(b, t.c_str(), t.size() + 1);
    *(char **)out = b;
    return t.size();
}
unsigned FormatMessageW(unsigned flags, const void *, unsigned id, unsigned, wchar_t *out, unsigned, void *)
{
    if (g_fmtfail) { mk.lasterr = 317; return 0; }
    OUTSIDE;
    static std::wstring t; to_wide(win_format(flags, id).c_str(), t);
    INSIDE;
    wchar_t *b = (wchar_t *)malloc((t.size() + 1) * sizeof(wchar_t));
    memcpy(b, t.c_str(), (t.size() + 1) * sizeof(wchar_t));
    *(wchar_t **)out = b;
    return t.size();
}
void *LocalFree(void *p) { free(p); return NULL; }
int MessageBoxA(void *, const char *text, const char *, unsigned) { OUTSIDE; g_stderr += text; g_stderr += "\n"; INSIDE; return 1; }
int MessageBoxW(void *, const wchar_t *text, const wchar_t *, unsigned) { OUTSIDE; g_stderr += narrow(text); g_stderr += "\n"; INSIDE; return 1; }
char *win_strdup(const char *s) { char *p = (char *)malloc(strlen(s) + 1); strcpy(p, s); return p; }
wchar_t *win_wcsdup(const wchar_t *s) { wchar_t *p = (wchar_t *)malloc((wcslen(s) + 1) * sizeof *p); wcscpy(p, s); return p; }
enum { MS_EINVAL = 22, MS_EILSEQ = 42, MS_STRUNCATE = 80 };
} /* extern "C" */
template<typename O, typename S> static int win_conv(size_t *ret, O *out, size_t size, bool ok, const S &t)
{
    if (!ok) { if (ret) *ret = 0; if (out && size) out[0] = 0; return MS_EILSEQ; }
    if (ret) *ret = t.size() + 1;
    if (!out) return size ? MS_EINVAL : 0;
    if (!size) return MS_EINVAL;
    if (t.size() < size) { memcpy(out, t.c_str(), (t.size() + 1) * sizeof(O)); return 0; }
    memcpy(out, t.c_str(), (size - 1) * sizeof(O));
    out[size - 1] = 0;
    if (ret) *ret = size;
    return MS_STRUNCATE;
}
extern "C" {
int mbstowcs_s(size_t *ret, wchar_t *out, size_t size, const char *in, size_t) { OUTSIDE; int r; { std::wstring w; bool ok = to_wide(in, w); r = win_conv(ret, out, size, ok, w); } INSIDE; return r; }
int wcstombs_s(size_t *ret, char *out, size_t size, const wchar_t *in, size_t) { OUTSIDE; int r; { std::string n; bool ok = to_narrow(in, n); r = win_conv(ret, out, size, ok, n); } INSIDE; return r; }
/* Microsoft's printf: %s is a string of the function's own kind, %hs is narrow, %ls is wide */
static std::string win_vprintf(const std::string &fmt, bool wide, va_list ap, const void *dest, size_t dest_bytes)
{
    std::string o;
    auto overlap = [&](const void *p) { if (dest && (const char *)p >= (const char *)dest && (const char *)p < (const char *)dest + dest_bytes) fail("mem", "a text is printed into its own buffer"); };
    for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { o += fmt[i]; continue; }
        std::string spec = "%";
        for (i++; i < fmt.size() && !isalpha((unsigned char)fmt[i]) && fmt[i] != '%'; i++) spec += fmt[i];
        char mod = 0;
        while (i < fmt.size() && strchr("hlwz", fmt[i])) { mod = fmt[i]; i++; }
        char b[64];
        switch (fmt[i]) {
        case '%': o += '%'; break;
        case 'c': o += (char)va_arg(ap, int); break;
        case 'd': case 'i': snprintf(b, sizeof b, "%ld", mod == 'z' || mod == 'l' ? va_arg(ap, long) : (long)va_arg(ap, int)); o += b; break;
        case 'u': snprintf(b, sizeof b, "%lu", mod == 'z' || mod == 'l' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned)); o += b; break;
        case 's': {
            bool w = mod == 'h' ? false : mod ? true : wide;
            const void *p = va_arg(ap, const void *);
            if (!p) { o += "(null)"; break; }
            overlap(p);
            if (w) o += narrow((const wchar_t *)p); else o += (const char *)p;
            break; }
        default: fail("mem", "format `%s' is not understood", fmt.c_str());
        }
    }
    return o;
}
int _snprintf_s(char *buf, size_t size, size_t count, const char *fmt, ...)
{
    OUTSIDE;
    int r;
    { va_list ap; va_start(ap, fmt); std::string o = win_vprintf(fmt, false, ap, buf, size); va_end(ap);
      if (count != (size_t)-1) fail("mem", "_snprintf_s without _TRUNCATE");
      r = o.size() < size ? (int)o.size() : -1; if (r < 0) o.resize(size - 1);
      memcpy(buf, o.c_str(), o.size() + 1); memset(buf + o.size() + 1, 0xFE, size - o.size() - 1); win_buffer(buf, size, 1); }
    INSIDE;
    return r;
}
int _snwprintf_s(wchar_t *buf, size_t size, size_t count, const wchar_t *fmt, ...)
{
    OUTSIDE;
    int r;
    { va_list ap; va_start(ap, fmt); std::string o = win_vprintf(narrow(fmt), true, ap, buf, size * sizeof(wchar_t)); va_end(ap);
      if (count != (size_t)-1) fail("mem", "_snwprintf_s without _TRUNCATE");
      r = o.size() < size ? (int)o.size() : -1; if (r < 0) o.resize(size - 1);
      std::wstring w; to_wide(o.c_str(), w);
      memcpy(buf, w.c_str(), (w.size() + 1) * sizeof(wchar_t)); memset(buf + w.size() + 1, 0xFE, (size - w.size() - 1) * sizeof(wchar_t)); win_buffer(buf, size * sizeof(wchar_t), sizeof(wchar_t)); }
    INSIDE;
    return r;
}
int fprintf_s(FILE *f, const char *fmt, ...) { OUTSIDE; { va_list ap; va_start(ap, fmt); std::string o = win_vprintf(fmt, false, ap, NULL, 0); va_end(ap); if (f != stderr) fail("wrap", "a message is not printed to stderr"); g_stderr += o; } INSIDE; return 1; }
int fwprintf_s(FILE *f, const wchar_t *fmt, ...) { OUTSIDE; { va_list ap; va_start(ap, fmt); std::string o = win_vprintf(narrow(fmt), true, ap, NULL, 0); va_end(ap); if (f != stderr) fail("wrap", "a message is not printed to stderr"); g_stderr += o; } INSIDE; return 1; }
/* used by adapters */
static char g_nbuf[4][1 << 18];
static wchar_t g_wbuf[4][1 << 17];
static int g_nturn, g_wturn;
const char *mc_narrow(const wchar_t *w) { if (!w) return NULL; OUTSIDE; char *b = g_nbuf[g_nturn++ % 4]; { std::string n = narrow(w); strcpy(b, n.c_str()); } INSIDE; return b; }
const wchar_t *mc_wide(const char *n) { if (!n) return NULL; OUTSIDE; wchar_t *b = g_wbuf[g_wturn++ % 4]; { std::wstring w; to_wide(n, w); wcscpy(b, w.c_str()); } INSIDE; return b; }
/* bytes behind the end of a text do not matter */
static void win_canon(char *image, const char *start, size_t n)
{
    for (auto &b : g_winbuf) {
        if (!b.p || b.p < start || b.p + b.bytes > start + n) continue;
        char *q = image + (b.p - start);
        size_t k = 0;
        if (b.unit == 1) while (k < b.bytes && q[k]) k++;
        else while (k < b.bytes && *(wchar_t *)(q + k)) k += b.unit;
        if (k < b.bytes) memset(q + k, 0, b.bytes - k);
    }
}
int mock_dlinfo(void *h, int req, void *arg)
{
    int l, i;
    bool s = g_in_impl; g_in_impl = false;
    int rv = 0;
    ev('i', -1, -1, -1, req);
    if (!h || !parse_handle(h, l, i) || !mk.live[l][i]) { fail("balance", "dlinfo called with an invalid or closed handle"); set_err("%s", "dlinfo: bad handle"); rv = -1; goto out; }
    if (req != RTLD_DI_LINKMAP) { set_err("%s", "dlinfo: bad request"); rv = -1; goto out; }
    switch (mk.path_mode) {
    case P_ABS: g_lm_name = path_of(l, i, 'a'); break;
    case P_REL_MAPS: case P_REL_NOMAPS: case P_REL_NOMATCH: case P_REL_LONGMAPS: case P_REL_OLD: case P_REL_ANON: g_lm_name = path_of(l, i, 'r'); break;
    case P_EMPTY_ADDR: g_lm_name = ""; break;
    case P_LONG_ADDR: case P_LONG_LONG: g_lm_name = path_of(l, i, 'L'); break;
    case P_FIT: g_lm_name = path_of(l, i, 'F'); break;
    case P_NULL_ADDR: break;
    default: set_err("%s: dlinfo failed", lib_names[l]); rv = -1; goto out;
    }
    g_lm.l_addr = base_of(l, i);
    g_lm.l_name = mk.path_mode == P_NULL_ADDR ? NULL : &g_lm_name[0];
    *(struct link_map **)arg = &g_lm;
out:
    g_in_impl = s;
    return rv;
}
int mock_dladdr(const void *p, Dl_info *info)
{
    int l, i, sy;
    bool s = g_in_impl; g_in_impl = false;
    int rv = 0;
    ev('d', -1, -1, -1, 0);
    if (parse_addr(p, l, i, sy)) {
        if (!mk.live[l][i]) fail("balance", "the address of a symbol of a closed library was used");
        switch (mk.path_mode) {
        case P_FAIL_ADDR: case P_EMPTY_ADDR: case P_LONG_ADDR: case P_NULL_ADDR: g_da_name = path_of(l, i, 'd'); rv = 1; break;
        case P_LONG_LONG: case P_FAIL_LONG: g_da_name = path_of(l, i, 'L'); rv = 1; break;
        case P_ADDR_EMPTY: g_da_name = ""; rv = 1; break;
        }
        if (rv) { info->dli_fname = g_da_name.c_str(); info->dli_fbase = (void *)base_of(l, i); info->dli_sname = NULL; info->dli_saddr = NULL; }
    }
    g_in_impl = s;
    return rv;
}
/* AIX: one entry for the code or data around every symbol of every open library */
int mock_loadquery(int what, void *buf, unsigned size)
{
    ev('q', -1, -1, -1, what);
    if (mk.path_mode == P_FAIL_NOADDR || what != 2) { errno = ENOMEM; return -1; }
    bool sv = g_in_impl; g_in_impl = false;
    struct Ent { uintptr_t t, tn, d, dn; std::string p, m; };
    std::vector<Ent> v;
    v.push_back({ 0x10000000, 0x2000, 0x20000000, 0x100, "/usr/bin/prog", "" });
    v.push_back({ 0xd0100000, 0x2000, 0xf0000000, 0x100, "/usr/lib/libc.a", "shr_64.o" });
    for (int l = 0; l < NLIB; l++) for (int i = 0; i < NI; i++) for (int s = 0; s < g_nsym; s++) {
        if (!mk.live[l][i] || has_sym(l, s) != 1) continue;
        uintptr_t a = (uintptr_t)sym_addr(l, i, s);
        std::string p = path_of(l, i, 'a'), m;
        switch (mk.path_mode) {
        case P_REL_MAPS: m = "shr.o"; break;
        case P_FIT: p = path_of(l, i, 'F'); break;
        case P_LONG_LONG: p = path_of(l, i, 'L'); break;
        case P_REL_LONGMAPS: p = path_of(l, i, 'F'); m = "m.o"; break;
        case P_LONG_ADDR: p = path_of(l, i, 'G'); m = "m.o"; break;
        case P_EMPTY_ADDR: p = ""; break;
        }
        Ent below = { a - 1, 1, 0, 0, "/other/below", "" }, above = { a + 1, 1, a + 1, 1, "/other/above", "x.o" };
        Ent hit = s & 1 ? Ent{ 0, 0, a, 1, p, m } : Ent{ a, 1, a + 2, 0, p, m };
        v.push_back(below); v.push_back(above);
        if (mk.path_mode != P_REL_NOMATCH) v.push_back(hit);
    }
    if ((mk.turn & 1) && v.size() > 2) std::swap(v[0], v[v.size() - 1]);
    std::string out;
    for (size_t k = 0; k < v.size(); k++) {
        struct { unsigned next, flags; int fd; void *t; unsigned long tn; void *d; unsigned long dn; } e = { 0, 0, -1, (void *)v[k].t, v[k].tn, (void *)v[k].d, v[k].dn };
        std::string one((char *)&e, sizeof e);
        one += v[k].p; one += '\0'; one += v[k].m; one += '\0';
        while (one.size() % 8) one += '\0';
        if (k + 1 < v.size()) { unsigned n = one.size(); memcpy(&one[0], &n, sizeof n); }
        out += one;
        if (k == 0 && out.size() > size) break;
    }
    int rv = 0;
    if (out.size() > size) { errno = ENOMEM; rv = -1; }
    else { memcpy(buf, out.data(), out.size()); memset((char *)buf + out.size(), 0xfe, size - out.size()); }
    g_in_impl = sv;
    return rv;
}
/* Linux with PROCMAP_QUERY */
static int g_fds;
int mock_open(const char *path, int, ...)
{
    if (strcmp(path, "/proc/self/maps") != 0 || mk.path_mode == P_REL_NOMAPS) { errno = ENOENT; return -1; }
    g_fds++;
    return 1000;
}
int mock_close(int fd) { if (fd != 1000 || !g_fds) { fail("path", "close(%d): file is not open", fd); errno = EBADF; return -1; } g_fds--; return 0; }
int mock_ioctl(int fd, unsigned long, void *arg)
{
    struct Q { uint64_t size, flags, addr, start, end, vflags, page, offset, inode; uint32_t maj, min, name_size, id_size; uint64_t name, id; } *q = (Q *)arg;
    if (fd != 1000 || !g_fds) { errno = EBADF; return -1; }
    if (mk.path_mode == P_REL_OLD) { errno = ENOTTY; return -1; }
    if (q->size != sizeof *q || (q->flags & ~63ull) || (!q->name) != (!q->name_size)) { fail("path", "ioctl(PROCMAP_QUERY): invalid request"); errno = EINVAL; return -1; }
    if (mk.path_mode == P_REL_NOMATCH) { errno = ENOENT; return -1; }
    if (mk.path_mode == P_REL_ANON) { q->name_size = 0; return 0; }
    bool sv = g_in_impl; g_in_impl = false;
    int rv = -1;
    for (int l = 0; l < NLIB; l++) for (int i = 0; i < NI; i++) {
        if (!mk.live[l][i] || q->addr < base_of(l, i) || q->addr >= base_of(l, i) + 0x1000) continue;
        std::string n = path_of(l, i, mk.path_mode == P_REL_LONGMAPS ? 'L' : 'm');
        if (n.size() + 1 > q->name_size) { errno = ENAMETOOLONG; continue; }
        memcpy((void *)q->name, n.c_str(), n.size() + 1);
        q->name_size = n.size() + 1;
        rv = 0;
    }
    g_in_impl = sv;
    return rv;
}
FILE *mock_fopen(const char *path, const char *mode)
{
    bool s = g_in_impl; g_in_impl = false;
    FILE *f = NULL;
    static std::string content;
    if (strcmp(path, "/proc/self/maps") == 0 && mk.path_mode != P_REL_NOMAPS) {
        content = "00400000-0041a000 r--p 00000000 fd:0b 1835022                    /usr/bin/prog\n"
                  "7c0000000000-7c0000001000 rw-p 00000000 00:00 0 \n"
                  "7c1000000000-7c1000001000 r-xp 00000000 00:00 0                  [heap]\n";
        for (int l = 0; l < NLIB; l++) for (int i = 0; i < NI; i++) {
            if (!mk.live[l][i] || mk.path_mode == P_REL_NOMATCH) continue;
            char b[160];
            /* neighbouring ranges belong to other files */
            snprintf(b, sizeof b, "%jx-%jx r--p 00000000 103:01 99 /other/below\n", (uintmax_t)base_of(l, i) - 0x1000, (uintmax_t)base_of(l, i)); content += b;
            snprintf(b, sizeof b, "%jx-%jx r-xp 0001a000 103:0a %d                    ", (uintmax_t)base_of(l, i), (uintmax_t)base_of(l, i) + 0x1000, 4711 + l); content += b;
            content += mk.path_mode == P_REL_LONGMAPS ? path_of(l, i, 'L') : path_of(l, i, 'm');
            content += "\n";
            snprintf(b, sizeof b, "%jx-%jx r--p 00000000 103:01 99 /other/above\n", (uintmax_t)base_of(l, i) + 0x1000, (uintmax_t)base_of(l, i) + 0x2000); content += b;
        }
        content += "ffffffffff600000-ffffffffff601000 --xp 00000000 00:00 0                  [vsyscall]\n";
        f = fmemopen(&content[0], content.size(), "r");
    }
    g_in_impl = s;
    return f;
}
static void run_plain(void *fn) { ((void (*)(void))fn)(); }
static int reg_exit(void (*fn)(void *), void *arg)
{
    ev('x', -1, -1, -1, 0);
    if (mk.atexit_fails) return -1;
    if (mk.natexit == 6) { fail("release", "too many exit handlers are registered"); return -1; }
    mk.exit_fn[mk.natexit] = fn; mk.exit_arg[mk.natexit++] = arg;
    return 0;
}
int mock_atexit(void (*fn)(void)) { return reg_exit(run_plain, (void *)fn); }
int mock_cxa_atexit(void (*fn)(void *), void *arg, void *) { bool f = mk.atexit_fails; mk.atexit_fails = false; int r = reg_exit(fn, arg); mk.atexit_fails = f; return r; }
}

/* run the exit handlers as exit() does */
static void run_exit_handlers()
{
    while (mk.natexit) { mk.natexit--; auto f = mk.exit_fn[mk.natexit]; void *a = mk.exit_arg[mk.natexit]; f(a); }
}

/* ---------------------------------------------------------------- engine */
struct Machine {
    struct Op { std::string name; std::function<void()> run; };
    std::vector<Op> ops;
    virtual ~Machine() {}
    virtual void *model() = 0;           /* trivially copyable */
    virtual size_t model_size() = 0;
    virtual bool enabled(size_t) { return true; }
    virtual bool terminal() { return false; }
    virtual bool repeatable(size_t) { return false; }   /* calling it again is fine; used to find leaks */
    virtual void probe() {}              /* checks in the state just reached; the state is restored afterwards */
    virtual void canon_model(std::string &k) { k.append((char *)model(), model_size()); }
    virtual void canon(std::string &) {} /* canonical form of the implementation's memory */
};

struct Saved { std::vector<std::pair<uint32_t, uint32_t>> runs; std::string bytes; };

struct Engine {
    Machine &m;
    struct Region { char *p; size_t n; };
    std::vector<Region> reg;
    std::string base, tmp;
    size_t total = 0;
    size_t max_states = 400000, reps = 2, max_depth = 1000;
    double max_sec = 600;
    size_t saved_bytes = 0, max_bytes = (size_t)3 << 30;
    /* results */
    size_t transitions = 0, states = 0, distinct_keys = 0, replayed = 0;
    bool complete = true;
    size_t depth_reached = 0;
    struct Node { uint32_t parent; uint16_t op; uint16_t depth; };
    std::vector<Node> nodes;
    std::vector<Saved> saved;
    std::map<std::string, std::vector<std::pair<std::string, std::vector<std::string>>>> viols;
    std::map<std::string, size_t> nviol;
    std::map<std::string, size_t> opcount;
    std::vector<std::vector<std::string>> sample_paths;

    uint32_t cur_node = 0;
    int cur_op = -1;
    static Engine *&self() { static Engine *e; return e; }
    /* the code under test crashed or hangs: report the history */
    static void on_signal(int sig)
    {
        static size_t last;
        static volatile sig_atomic_t busy;
        Engine *e = self();
        if (sig == SIGALRM) {
            size_t now = e->transitions + e->replayed;
            if (now != last || !e->cur_op) { last = now; return; }
            if (!g_in_impl) return;
        }
        if (busy) _Exit(6);
        busy = 1;
        g_in_impl = false;
        std::string o = "{\"signal\": " + std::to_string(sig) + ", \"crash\": [";
        std::vector<std::string> p = e->nodes.empty() ? std::vector<std::string>() : e->path(e->cur_node, e->cur_op);
        for (size_t i = 0; i < p.size(); i++) o += (i ? ", " : "") + js(p[i]);
        o += "]}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
        _Exit(5);
    }
    void catch_signals()
    {
        self() = this;
        static char alt[65536];
        stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
        sigaltstack(&ss, NULL);
        struct sigaction sa = {};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) sigaction(s, &sa, NULL);
        struct itimerval t = { { 8, 0 }, { 8, 0 } };
        setitimer(ITIMER_REAL, &t, NULL);
    }

    Engine(Machine &mm) : m(mm)
    {
        catch_signals();
        reg.push_back({ __start_gdo_impl, (size_t)(__stop_gdo_impl - __start_gdo_impl) });
        reg.push_back({ (char *)&mk, sizeof mk });
        reg.push_back({ (char *)&g_arena, sizeof g_arena });
        reg.push_back({ (char *)m.model(), m.model_size() });
        reg.push_back({ (char *)g_obj, sizeof g_obj });
        for (auto &r : reg) total += r.n;
    }
    void copy_out(std::string &s)
    {
        s.resize(total + g_arena.used);
        char *q = &s[0];
        for (auto &r : reg) { memcpy(q, r.p, r.n); q += r.n; }
        memcpy(q, g_arena_mem, g_arena.used);
    }
    void copy_in(const std::string &s)
    {
        const char *q = s.data();
        for (auto &r : reg) { memcpy(r.p, q, r.n); q += r.n; }
        memcpy(g_arena_mem, q, s.size() - total);
    }
    Saved pack(const std::string &s)
    {
        Saved v;
        const size_t C = 64;
        for (size_t o = 0; o < s.size(); o += C) {
            size_t n = std::min(C, s.size() - o);
            bool same = o + n <= base.size() && memcmp(s.data() + o, base.data() + o, n) == 0;
            if (!same) {
                if (!v.runs.empty() && v.runs.back().first + v.runs.back().second == o) v.runs.back().second += n;
                else v.runs.push_back({ (uint32_t)o, (uint32_t)n });
                v.bytes.append(s, o, n);
            }
        }
        v.runs.push_back({ (uint32_t)s.size(), 0 });
        return v;
    }
    void unpack(const Saved &v, std::string &s)
    {
        s = base;
        s.resize(v.runs.back().first);
        size_t b = 0;
        for (auto &r : v.runs) { memcpy(&s[0] + r.first, v.bytes.data() + b, r.second); b += r.second; }
    }
    std::string key()
    {
        std::string k;
        m.canon_model(k);
        Mock c = mk;
        k.append((char *)&c, sizeof c);
        m.canon(k);
        return k;
    }
    std::vector<std::string> path(uint32_t n, int op)
    {
        std::vector<std::string> p;
        if (op >= 0) p.push_back(m.ops[op].name);
        for (; n != 0; n = nodes[n].parent) p.push_back(m.ops[nodes[n].op].name);
        return std::vector<std::string>(p.rbegin(), p.rend());
    }
    void collect(uint32_t n, int op)
    {
        for (auto &v : g_viol) {
            nviol[v.cat]++;
            auto &l = viols[v.cat];
            bool dup = false;
            for (auto &x : l) dup |= x.first == v.what;
            if (!dup && l.size() < 4) l.push_back({ v.what, path(n, op) });
        }
        g_viol.clear();
    }
    void exec(size_t op)
    {
        g_ev.clear(); g_calls.clear(); g_stderr.clear(); g_term = T_NONE;
        cur_op = op;
        m.ops[op].run();
    }
    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    void run()
    {
        double t0 = now();
        copy_out(base);
        std::unordered_map<std::string, int> keys;
        std::set<std::pair<size_t, size_t>> full;
        auto dig = [](const std::string &x) { return std::make_pair(std::hash<std::string>()(x), std::hash<std::string>()(x.substr(x.size() / 3))); };
        std::string s;
        nodes.push_back({ 0, 0, 0 });
        saved.push_back(pack(base));
        m.probe(); collect(0, -1); copy_in(base);
        keys[key()] = 1;
        full.insert(dig(base));
        std::string cur;
        for (size_t i = 0; i < nodes.size(); i++) {
            if (nodes[i].depth >= max_depth) { complete = false; continue; }
            unpack(saved[i], cur);
            cur_node = i;
            copy_in(cur);
            if (m.terminal()) continue;
            std::vector<size_t> en;
            for (size_t o = 0; o < m.ops.size(); o++) if (m.enabled(o)) en.push_back(o);
            for (size_t o : en) {
                copy_in(cur);
                uint32_t live = g_arena.live;
                exec(o);
                transitions++;
                opcount[m.ops[o].name]++;
                copy_out(s);
                if (g_arena.live > live && m.repeatable(o)) {
                    uint32_t l1 = g_arena.live;
                    std::vector<Violation> keep = g_viol;
                    exec(o);
                    uint32_t l2 = g_arena.live;
                    exec(o);
                    bool leak = l2 > l1 && g_arena.live > l2;
                    g_viol = keep;
                    copy_in(s);
                    if (leak) fail("mem", "memory is leaked with every call");
                }
                m.probe();
                collect(i, o);
                copy_in(s);
                std::string k = key();
                int &cnt = keys[k];
                if (cnt >= (int)reps) continue;
                if (reps > 1 && !full.insert(dig(s)).second) continue;
                if (nodes.size() >= max_states || saved_bytes > max_bytes || now() - t0 > max_sec) { complete = false; continue; }
                cnt++;
                nodes.push_back({ (uint32_t)i, (uint16_t)o, (uint16_t)(nodes[i].depth + 1) });
                saved.push_back(pack(s));
                saved_bytes += saved.back().bytes.size() + k.size() + 250;
                depth_reached = std::max<size_t>(depth_reached, nodes[i].depth + 1);
            }
        }
        states = nodes.size();
        distinct_keys = keys.size();
        /* replay histories from the initial state: the same call sequence must lead to the same state */
        size_t step = std::max<size_t>(1, nodes.size() / 3000);
        for (size_t i = 0; i < nodes.size(); i += step) {
            std::vector<uint16_t> p;
            for (uint32_t n = i; n != 0; n = nodes[n].parent) p.push_back(nodes[n].op);
            cur_node = i;
            copy_in(base);
            for (size_t j = p.size(); j-- > 0;) exec(p[j]);
            g_viol.clear();
            copy_out(s);
            unpack(saved[i], cur);
            if (s != cur) { printf("{\"error\": \"replay diverges\"}\n"); fflush(stdout); _Exit(4); }
            replayed++;
        }
        for (size_t k = 1; k <= 3 && nodes.size() > 1; k++) sample_paths.push_back(path(nodes.size() * k / 4, -1));
        if (nodes.size() > 1) sample_paths.push_back(path(nodes.size() - 1, -1));
        copy_in(base);
    }
    static std::string js(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
        return o + "\"";
    }
    void report()
    {
        std::string o = "{\"states\": " + std::to_string(states) + ", \"distinct\": " + std::to_string(distinct_keys) + ", \"transitions\": " + std::to_string(transitions) +
            ", \"replayed\": " + std::to_string(replayed) + ", \"depth\": " + std::to_string(depth_reached) + ", \"complete\": " + (complete ? "true" : "false") + ", \"violations\": [";
        bool first = true;
        for (auto &c : viols) for (auto &v : c.second) {
            o += std::string(first ? "" : ", ") + "{\"cat\": " + js(c.first) + ", \"what\": " + js(v.first) + ", \"path\": [";
            first = false;
            for (size_t i = 0; i < v.second.size(); i++) o += (i ? ", " : "") + js(v.second[i]);
            o += "]}";
        }
        o += "], \"counts\": {";
        first = true;
        for (auto &c : nviol) { o += std::string(first ? "" : ", ") + js(c.first) + ": " + std::to_string(c.second); first = false; }
        o += "}, \"ops\": {";
        first = true;
        for (auto &c : opcount) { o += std::string(first ? "" : ", ") + js(c.first) + ": " + std::to_string(c.second); first = false; }
        o += "}, \"paths\": [";
        for (size_t i = 0; i < sample_paths.size(); i++) { o += i ? ", [" : "["; for (size_t j = 0; j < sample_paths[i].size(); j++) o += (j ? ", " : "") + js(sample_paths[i][j]); o += "]"; }
        o += "]}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
    }
};

/* call into the code under test; returns false when it terminated the program */
template<typename F> static bool impl_call(F f)
{
    g_can_jump = true;
    if (setjmp(g_jmp) == 0) {
        g_in_impl = true;
        f();
        g_in_impl = false;
        g_can_jump = false;
        if (!g_arena.live) g_arena.used = g_arena.last = 0;
        return true;
    }
    g_in_impl = false;
    g_can_jump = false;
    return false;
}
static void engine_args(Engine &e, int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "states")) e.max_states = atol(argv[i + 1]);
        if (!strcmp(argv[i], "reps")) e.reps = atol(argv[i + 1]);
        if (!strcmp(argv[i], "depth")) e.max_depth = atol(argv[i + 1]);
        if (!strcmp(argv[i], "sec")) e.max_sec = atof(argv[i + 1]);
    }
}
