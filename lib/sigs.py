"""Signatures up to a bound, each executed through the generated code with symbols that record their arguments."""
import itertools, os
from . import build, mc

# (tag, declarator, statements defining %s, value number n)
TYPES = {
    'int': ('int %s', 'int %s = 100000 + %d;'),
    'char': ('char %s', 'char %s = (char)(%d %% 120);'),
    'ushort': ('unsigned short %s', 'unsigned short %s = (unsigned short)(40000u + %d);'),
    'float': ('float %s', 'float %s = %d + 0.25f;'),
    'double': ('double %s', 'double %s = %d + 0.125;'),
    'll': ('long long %s', 'long long %s = 0x123456789000LL + %d;'),
    'str': ('const char *%s', 'const char *%s = "abcdefghijklmnopqrstuvwxyz" + %d %% 26;'),
    'st': ('struct SS %s', 'struct SS %s = mk_st(%d);'),
    'arr': ('int %s[3]', 'int %s[3] = { %d, 2, 3 };'),
    'fp': ('int (*%s)(int)', 'int (*%s)(int) = some_fp[%d %% 4];'),
    'pst': ('struct SS *%s', 'struct SS *%s = some_st + %d %% 8;'),
    'ld': ('long double %s', 'long double %s = %d + 0.5L;'),
}
RETS = {
    'int': ('int ', 'int r = %d;', 'r == %d'),
    'void': ('void ', None, None),
    'double': ('double ', 'double r = %d + 0.5;', 'r == %d + 0.5'),
    'ptr': ('const char *', 'const char *r = some_text + %d %% 50;', 'r == some_text + %d %% 50'),
    'st': ('SSt ', 'SSt r = mk_st(%d);', 'r.b == mk_st(%d).b && r.a == mk_st(0).a'),
    'll': ('long long ', 'long long r = 0x100000000LL + %d;', 'r == 0x100000000LL + %d'),
    'char': ('char ', 'char r = (char)(%d %% 100);', 'r == (char)(%d %% 100)'),
}
TAIL = {'int': 'int %s = 7000 + %d;', 'double': 'double %s = %d + 0.75;', 'str': TYPES['str'][1], 'll': TYPES['ll'][1]}
VATYPE = {'int': 'int', 'double': 'double', 'str': 'const char *', 'll': 'long long'}

COMMON = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/mman.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct SS { char a; double b; short c; } SSt;
static struct SS some_st[8];
static const char some_text[] = "0123456789012345678901234567890123456789012345678901234567890123456789";
static int fp0(int x) { return x; } static int fp1(int x) { return x + 1; } static int fp2(int x) { return x + 2; } static int fp3(int x) { return x + 3; }
static int (*some_fp[4])(int) = { fp0, fp1, fp2, fp3 };
static struct SS mk_st(int n) { struct SS s; s.a = 'q'; s.b = n + 0.0625; s.c = (short)(n * 3); return s; }
struct rlog { char b[4096]; size_t n; };
static struct rlog LG, XP, *CUR;
static void rec(char t, const void *p, size_t n) { if (CUR->n + n + 1 > sizeof CUR->b) { fprintf(stdout, "log overflow\n"); __builtin_trap(); } CUR->b[CUR->n++] = t; memcpy(CUR->b + CUR->n, p, n); CUR->n += n; }
static void rec_int(int v) { rec('i', &v, sizeof v); }
static void rec_char(char v) { rec('c', &v, sizeof v); }
static void rec_ushort(unsigned short v) { rec('u', &v, sizeof v); }
static void rec_float(float v) { rec('f', &v, sizeof v); }
static void rec_double(double v) { rec('d', &v, sizeof v); }
static void rec_ll(long long v) { rec('l', &v, sizeof v); }
static void rec_str(const char *v) { rec('s', &v, sizeof v); }
static void rec_st(struct SS v) { rec('{', &v.a, 1); rec(',', &v.b, sizeof v.b); rec('}', &v.c, sizeof v.c); }
static void rec_arr(const int *v) { rec('a', &v, sizeof v); }
static void rec_fp(int (*v)(int)) { rec('p', &v, sizeof v); }
static void rec_pst(struct SS *v) { rec('P', &v, sizeof v); }
static void rec_ld(long double v) { rec('L', &v, 10); }
static void rec_tail(const char *t, va_list ap) { for (; *t; t++) switch (*t) {
 case 'i': rec_int(va_arg(ap, int)); break; case 'd': rec_double(va_arg(ap, double)); break;
 case 's': rec_str(va_arg(ap, const char *)); break; case 'l': rec_ll(va_arg(ap, long long)); break; } }
static void who(char c, int id) { rec(c, &id, sizeof id); }
static const char *TAILS = "";
static jmp_buf JB; static int ended, failures, counter;
void __wrap_abort(void) { ended = 1; longjmp(JB, 1); }
void __wrap_exit(int c) { ended = 2 + (c & 0xff); longjmp(JB, 1); }
static int g_missing;      /* every symbol is missing */
static int g_quiet;
static void fail(const char *name, const char *what) { if (g_quiet) return; if (failures++ < 10) printf("FAIL %s: %s\n", name, what); }
#define AGAIN(k) ((void)counter++, k)
static void begin(void) { LG.n = XP.n = 0; counter = 0; CUR = &XP; }
static void judge(const char *name, int ret_ok) { if (!ret_ok) fail(name, "wrong result"); if (LG.n != XP.n || memcmp(LG.b, XP.b, XP.n)) fail(name, LG.n && LG.b[0] == XP.b[0] ? "hook or symbol called with other arguments, in the wrong order or not exactly once" : "hook or symbol not called as expected"); }
#ifdef __cplusplus
}
#endif
'''
MOCK = r'''
#ifdef __cplusplus
extern "C" {
#endif
static int handle_dummy, n_open, n_close;
void *__wrap_dlopen(const char *n, int f) { (void)n; (void)f; n_open++; return &handle_dummy; }
int __wrap_dlclose(void *h) { (void)h; n_close++; return 0; }
char *__wrap_dlerror(void) { return (char *)(g_missing ? "symbol missing" : 0); }
#ifdef __cplusplus
}
#endif
'''


class Sig:
    __slots__ = ('id', 'name', 'ret', 'params', 'variadic')

    def __init__(self, i, ret, params, variadic):
        self.id, self.ret, self.params, self.variadic = i, ret, params, variadic
        self.name = 'fn_%d' % i

    def names(self, mode):
        return ['v%d' % i for i in range(len(self.params))]

    def decl(self, name, named=True):
        a = [TYPES[t][0] % ('p%d' % i if named else '') for i, t in enumerate(self.params)]
        if self.variadic:
            a.append('...')
        return '%s%s(%s)' % (RETS[self.ret][0], name, ', '.join(a) or 'void')


def all_sigs(maxn, types, vtypes, maxv, rets=tuple(RETS)):
    r = []
    for k in range(maxn + 1):
        for ps in itertools.product(types, repeat=k):
            for ret in (rets if k <= 1 else [rets[len(r) % len(rets)]]):
                r.append(Sig(len(r), ret, ps, False))
    for k in range(1, maxv + 1):
        for ps in itertools.product(vtypes, repeat=k):
            for ret in (rets if k == 1 else [rets[len(r) % len(rets)]]):
                r.append(Sig(len(r), ret, ps, True))
    return r


def tails(n):
    for k in range(n + 1):
        yield from itertools.product(TAIL, repeat=k)


def program(sigs, hooks, side, include, pre, tail_len, all_missing=True, cxx=False, ns='gdo'):
    """the test program; hooks: define hooks; side: arguments with side effects"""
    o = [pre, COMMON, '#ifdef __cplusplus\nextern "C" {\n#endif']
    rets = {s.ret for s in sigs}
    for s in sigs:
        for kind in 'FH' if hooks else 'F':
            nm = {'F': 'real_', 'H': 'hook_'}[kind] + s.name
            d = s.decl(nm)
            body = 'CUR = &LG; who(\'%s\', %d); ' % (kind, s.id)
            body += ' '.join('rec_%s(p%d);' % (t, i) for i, t in enumerate(s.params))
            if s.variadic:
                body += ' va_list ap; va_start(ap, p%d); rec_tail(TAILS, ap); va_end(ap);' % (len(s.params) - 1)
            r = RETS[s.ret]
            if kind == 'F' and r[1]:
                body += ' { %s return r; }' % (r[1] % s.id)
            if kind == 'H':
                d = 'void ' + d[len(r[0]):]
            o.append('%s { %s }' % (d, body))
        if hooks:
            o.append('#define GDO_HOOK_%s(...) hook_%s(__VA_ARGS__)' % (s.name, s.name))
    o.append('void *__wrap_dlsym(void *h, const char *n) { static const struct { const char *n; void *p; } t[] = { %s }; size_t i; (void)h; if (g_missing) return 0; for (i = 0; i < sizeof t / sizeof *t; i++) if (!strcmp(t[i].n, n)) return t[i].p; return 0; }'
             % ', '.join('{ "%s", (void *)real_%s }' % (s.name, s.name) for s in sigs))
    o.append('#ifdef __cplusplus\n}\n#endif')
    o.append(MOCK)
    o.append(include)
    calls = []
    n = 0
    for s in sigs:
        for tl in (tails(tail_len) if s.variadic else [()]):
            n += 1
            b = ['static void t%d(void) { begin(); TAILS = "%s";' % (n, ''.join(t[0] for t in tl))]
            args = []
            for i, t in enumerate(s.params):
                b.append(TYPES[t][1] % ('v%d' % i, s.id + i * 17 + 1))
                args.append('v%d' % i)
            for j, t in enumerate(tl):
                b.append(TAIL[t] % ('w%d' % j, j + 3 + s.id))
                args.append('w%d' % j)
            for kind in 'HF' if hooks else 'F':
                b.append("who('%s', %d);" % (kind, s.id))
                b += ['rec_%s(v%d);' % (t, i) for i, t in enumerate(s.params)] + ['rec_%s(w%d);' % (t, j) for j, t in enumerate(tl)]
            ex = ['AGAIN(%s)' % a if side else a for a in args]
            call = '%s(%s)' % (s.name, ', '.join(ex))
            r = RETS[s.ret]
            b.append('ended = 0; if (!setjmp(JB)) {')
            if r[1]:
                b.append('%sr = %s; judge("%s", %s);' % (r[0], call, s.decl(s.name), r[2].replace('%%', '%').replace('%d', str(s.id))))
            else:
                b.append('%s; judge("%s", 1);' % (call, s.decl(s.name)))
            if side:
                b.append('if (counter != %d) fail("%s", "arguments not evaluated exactly once");' % (len(args), s.decl(s.name)))
            b.append('} else if (!g_missing) fail("%s", "the program was ended");' % s.decl(s.name))
            b.append('}')
            o.append(' '.join(b))
            calls.append((n, s))
    o.append('static const struct { void (*f)(void); const char *name, *decl; } all_tests[] = { %s };' % ', '.join('{ t%d, "%s", "%s" }' % (n, s.name, s.decl(s.name)) for n, s in calls))
    return '\n'.join(o) + '\n', len(calls)


MAIN_UNLOADED = r'''
static void grab(int fd, char *buf, size_t n) { ssize_t k = pread(fd, buf, n - 1, 0); buf[k < 0 ? 0 : k] = 0; if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
static int unloaded(int want)
{
    /* nothing is loaded: every wrapper prints a message that names the symbol, and ends the program before anything is called */
    size_t i; int n = 0, fd = fileno(tmpfile()), save = dup(2);
    static char msg[65536];
    dup2(fd, 2);
    for (i = 0; i < sizeof all_tests / sizeof *all_tests; i++) {
        g_quiet = 1;    /* the judgement does not apply */
        all_tests[i].f();
        g_quiet = 0;
        fflush(stderr);
        grab(fd, msg, sizeof msg);
        n++;
        if (ended != want) fail(all_tests[i].decl, ended ? "not loaded: ended in another way" : "not loaded: the program was not ended");
        else if (LG.n) fail(all_tests[i].decl, "not loaded: something was called");
        else {
            /* the name as a whole word */
            const char *p = msg; int ok = 0; size_t l = strlen(all_tests[i].name);
            while ((p = strstr(p, all_tests[i].name))) { char c = p[l]; if (!(c >= '0' && c <= '9')) ok = 1; p++; }
            if (!ok) fail(all_tests[i].decl, "not loaded: the message does not name the symbol");
        }
        LG.n = 0;
    }
    dup2(save, 2);
    return n;
}
static int loaded(void) { size_t i; for (i = 0; i < sizeof all_tests / sizeof *all_tests; i++) all_tests[i].f(); return (int)i; }
'''
WRAPPED = '-Wl,' + ','.join('--wrap=' + x for x in ('dlopen', 'dlmopen', 'dlsym', 'dlclose', 'dlerror', 'abort', 'exit', '_exit'))
SIGMACROS = r'''
#ifdef __cplusplus
extern "C"
#endif
void *__wrap_dlmopen(long ns, const char *n, int f) { (void)ns; return __wrap_dlopen(n, f); }
#ifdef __cplusplus
extern "C"
#endif
void __wrap__exit(int c) { __wrap_exit(c); }
'''


def make_test(gen, d, fmt, sigs, cc, args=(), defs=(), hooks=True, side=False, tail_len=2, separate=False):
    """writes the program and returns a thunk that builds and runs it: (tests run, output)"""
    os.makedirs(d)
    protos = PRE_PROTOS + ''.join(s.decl(s.name, '-param=create' not in args) + ';\n' for s in sigs)
    hdr = 'gen.hpp' if fmt == 'c++' else 'gen.h'
    files = gen.header(protos, ['-format=' + fmt] + list(args), d, name=hdr, separate=separate)
    cxx = cc[0].endswith('++')
    pre = ''.join('#define %s %s\n' % tuple((x + '=').split('=')[:2]) for x in defs)
    text, n = program(sigs, hooks, side, '#include "%s"' % hdr, pre, tail_len)
    text += SIGMACROS + MAIN_UNLOADED
    if fmt == 'c':
        load = 'gdo_load_lib_name_and_symbols("x")'
    else:
        load = 'obj.load("x") && obj.load_all_symbols()'
    auto = any('AUTOLOAD' in x for x in defs)
    text += 'int main(void) { int n = 0; %s g_missing = GM; n += unloaded(WANT); g_missing = 0; if (!(%s)) { printf("FAIL loading\\n"); return 0; } n += loaded(); printf("RUN %%d failures %%d\\n", n, failures); fflush(stdout); _Exit(0); }\n' % (
        'gdo::dl obj;' if fmt == 'c++' else '', '1' if auto else load)
    text = text.replace('g_missing = GM', 'g_missing = %d' % auto).replace('unloaded(WANT)', 'unloaded(%d)' % (3 if auto else 1))
    ext = '.cpp' if cxx else '.c'
    with open(d + '/t' + ext, 'w') as fh:
        fh.write(text)

    def comp():
        srcs = [d + '/t' + ext]
        extra = []
        if separate:
            # the body needs the hooks too: only wrappers without visibility, which are in the header
            body = [f for f in files if f != hdr][0]
            with open(d + '/body' + ext, 'w') as fh:
                fh.write('typedef struct SS { char a; double b; short c; } SSt;\n' + ''.join('#define %s %s\n' % tuple((x + '=').split('=')[:2]) for x in defs if 'VISIB' not in x) + '#include "%s"\n' % body)
            srcs.append(d + '/body' + ext)
        if cxx:
            cmd = cc + ['-x', 'c++']
        else:
            cmd = list(cc)
        build.run(cmd + ['-w', '-g0', '-I' + d] + srcs + [WRAPPED, '-o', d + '/t'], timeout=600)
        import subprocess
        try:
            p = subprocess.run([d + '/t'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return n, 'FAIL the program does not end\n'
        out = p.stdout.decode('latin-1')
        if p.returncode != 0 or 'RUN ' not in out:
            out += 'FAIL the program ended with status %d: %s\n' % (p.returncode, p.stderr.decode('latin-1')[-300:])
        return n, out
    return comp


PRE_PROTOS = ''
