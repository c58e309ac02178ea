"""R10: every expression over the symbols of a real library, in every sequence up to a depth, linked against loaded."""
import os, re, subprocess
from lib import build, mc

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive exploration of all expression sequences up to a depth on the real generated code, compared after every step with the same program linked directly (the linked program is the reference model)'
NOTE = 'A grammar of expressions is compiled twice, against the linked library and against the generated header; all sequences up to the depth are executed in both and values and complete library state compared. Taking the address of a function name and same-named local identifiers are outside the statement (macros).'

TYPES = '''
typedef struct xp { int x, y; struct xp *next; } XP;
typedef int (*XFN)(int);
typedef struct xo { char a; double b; } XO;
'''
LIB = TYPES + r'''
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
int x_v, x_va, x_arr[16], x_mat[4][3], *x_ip;
unsigned char x_uc;
double x_d;
const char *x_s;
XP x_pt, x_pts[8], *x_pp;
XFN x_fp;
int (*x_fpa)(int);
const int x_ci = 42;
const char x_text[] = "text in the library";
void *x_vp;
long long x_ll;
volatile int x_vol;
static int inc(int a) { return a + 1; }
static int dbl(int a) { return a * 2; }
static int other;
int x_calls;
int x_add(int a, int b) { x_calls++; return a + b; }
int x_addr(int *p, int k) { x_calls++; *p += k; return *p; }
void x_setv(int a) { x_calls++; x_v = a; }
int *x_getp(void) { x_calls++; return &x_arr[1]; }
XP x_mk(int a) { XP p; x_calls++; p.x = a; p.y = a + 1; p.next = &x_pts[0]; return p; }
XP *x_self(XP *p) { x_calls++; return p; }
double x_half(double a) { x_calls++; return a / 2; }
int x_apply(int (*f)(int, int), int a, int b) { x_calls++; return f(a, b) * 10; }
int x_sum(int n, ...) { va_list ap; int s = 0, i; x_calls++; va_start(ap, n); for (i = 0; i < n; i++) s += va_arg(ap, int); va_end(ap); return s; }
const char *x_str(const char *s, int k) { x_calls++; return s + k; }
XFN x_getfn(int k) { x_calls++; return k ? dbl : inc; }
int x_arrsum(int a[3], int m[][3]) { x_calls++; return a[0] + a[1] * 3 + m[1][2]; }
void x_reset(void)
{
    int i;
    x_v = 3; x_va = -7; for (i = 0; i < 16; i++) x_arr[i] = 10 + i; for (i = 0; i < 12; i++) x_mat[i / 3][i % 3] = 20 + i;
    x_ip = &x_arr[6]; x_uc = 250; x_d = 2.5; x_s = x_text; x_pt.x = 5; x_pt.y = 6; x_pt.next = &x_pts[1];
    for (i = 0; i < 8; i++) { x_pts[i].x = 7 + 2 * i; x_pts[i].y = 8 + 3 * i; x_pts[i].next = i ? &x_pts[i - 1] : &x_pt; }
    x_pp = &x_pts[2]; x_fp = inc; x_fpa = dbl; x_vp = &x_v; x_ll = 1LL << 40; x_vol = 13; x_calls = 0;
}
/* position independent value of a pointer */
long x_where(const void *p)
{
    static const struct { const void *p; size_t n; } t[] = { { &x_v, sizeof x_v }, { &x_va, sizeof x_va }, { x_arr, sizeof x_arr }, { x_mat, sizeof x_mat }, { &x_ip, sizeof x_ip }, { &x_uc, 1 }, { &x_d, sizeof x_d },
        { &x_s, sizeof x_s }, { &x_pt, sizeof x_pt }, { x_pts, sizeof x_pts }, { &x_pp, sizeof x_pp }, { &x_fp, sizeof x_fp }, { &x_fpa, sizeof x_fpa }, { &x_ci, sizeof x_ci }, { x_text, sizeof x_text },
        { &x_vp, sizeof x_vp }, { &x_ll, sizeof x_ll }, { (void *)&x_vol, sizeof x_vol } };
    size_t i;
    if (!p) return -1;
    for (i = 0; i < sizeof t / sizeof *t; i++) if ((const char *)p >= (const char *)t[i].p && (const char *)p < (const char *)t[i].p + t[i].n) return 1000 * (long)(i + 1) + ((const char *)p - (const char *)t[i].p);
    return -2;
}
long x_state(char *b)
{
    long *o = (long *)b; int i, n = 0;
    long long d; memcpy(&d, &x_d, 8);
    o[n++] = x_v; o[n++] = x_va; for (i = 0; i < 16; i++) o[n++] = x_arr[i]; for (i = 0; i < 12; i++) o[n++] = x_mat[i / 3][i % 3];
    o[n++] = x_where(x_ip); o[n++] = x_uc; o[n++] = d; o[n++] = x_where(x_s); o[n++] = x_pt.x; o[n++] = x_pt.y; o[n++] = x_where(x_pt.next);
    for (i = 0; i < 8; i++) { o[n++] = x_pts[i].x; o[n++] = x_pts[i].y; o[n++] = x_where(x_pts[i].next); }
    o[n++] = x_where(x_pp); o[n++] = x_fp == inc; o[n++] = x_fpa == inc; o[n++] = x_where(x_vp); o[n++] = x_ll; o[n++] = x_vol; o[n++] = x_calls;
    return n * (long)sizeof(long);
}
'''
PROTOS = '''
int x_v; int x_va; int x_arr[16]; int x_mat[4][3]; int *x_ip; unsigned char x_uc; double x_d; const char *x_s;
XP x_pt; XP x_pts[8]; XP *x_pp; XFN x_fp; int (*x_fpa)(int); const int x_ci; const char x_text[]; void *x_vp; long long x_ll; volatile int x_vol;
int x_add(int a, int b); int x_addr(int *p, int k); void x_setv(int a); int *x_getp(void); XP x_mk(int a); XP *x_self(XP *p); double x_half(double a);
int x_apply(int (*f)(int, int), int a, int b); int x_sum(int n, ...); const char *x_str(const char *s, int k); XFN x_getfn(int k); int x_arrsum(int a[3], int m[][3]);
void x_reset(void); long x_where(const void *p); long x_state(char *b);
'''
EXTERN = '#ifdef __cplusplus\nextern "C" {\n#endif\n' + re.sub(r'(?<=[;\n]) ?(?=[A-Za-z])', ' extern ', PROTOS) + '#ifdef __cplusplus\n}\n#endif\n'
UNNAMED = re.sub(r'(?<=[(,])([^(),]*?[ *])[a-z](\[[^,)]*)?(?=[,)])', r'\1\2', PROTOS)
FUNCS = set('x_add x_addr x_setv x_getp x_mk x_self x_half x_apply x_sum x_str x_getfn x_arrsum x_reset x_where x_state'.split())

INTL = ['x_v', 'x_va', 'x_arr[1]', '*x_arr', '*(x_arr + 2)', '2[x_arr]', 'x_mat[1][2]', '*(*x_mat + 1)', 'x_pt.x', 'x_pt.next->y', '(&x_pt)->y', 'x_pts[1].x', 'x_pts->y', '(x_pts + 1)->y', 'x_pp->x', '(*x_pp).y', 'x_pp[0].x',
        '*x_ip', 'x_ip[1]', 'x_ip[-1]', '*&x_v', '(x_va)', 'x_uc', 'x_ll', 'x_vol', '*(int *)x_vp', '*x_getp()', 'x_getp()[1]', 'x_self(x_pp)->y', 'x_self(&x_pt)->next->x', '(*x_self(&x_pts[0])).x']
INTV = INTL + ['x_ci', 'x_mk(4).y', 'x_mk(2).next->x', 'x_add(2, 3)', 'x_s[2]', '*x_s', 'x_text[1]', 'x_fp(7)', '(*x_fp)(7)', 'x_fpa(9)', '(**x_fpa)(9)', '(x_add)(1, 2)', '(*x_add)(1, 2)', 'x_sum(3, 1, 2, 3)', 'x_sum(0)', 'x_getfn(1)(5)',
               '*x_str(x_s, 2)', '*x_str(x_text, 3)', '(int)sizeof x_arr', '(int)sizeof(x_mat)', '(int)sizeof x_mat[0]', '(int)sizeof x_pt', '(int)(sizeof x_arr / sizeof *x_arr)', '(int)sizeof x_v', '(int)sizeof x_pp->next']
L_OPS = ['{L} = 5', '{L} += 3', '{L}++', '++{L}', '{L}--', '--{L}', '{L} *= 2', '{L} <<= 1', '{L} ^= 0x55', 'x_v = {L}', '{L} = x_va', '{L} = {L} + 1', 'x_addr(&x_v, {L})', '{L} = x_add({L}, {L})', '({L} = 9) + 1']
V_OPS = ['{L}', '-{L}', '!{L}', '~{L}', '{L} ? 11 : 12', '{L} == 5', '2*{L}', '7 - {L}', '{L} & 12', '{L} , 8', 'x_add({L}, 2)', 'x_add(2, {L})', 'x_apply(x_add, {L}, 1)', 'x_arr[({L}) & 1]', '(long){L}', '{L} && x_v', '({L} > 4) + ({L} < 4)']
EXTRA = ['x_d = 1.5', 'x_d *= x_half(x_d)', '(int)(x_d * 8)', '(int)x_half(5)', '(int)sizeof x_d', 'x_d++', '-x_d < 0', 'x_s++', 'x_s = x_text + 7, 1', '*x_s++', 'x_s = x_text + 4, 2', 'x_s == x_text', '(int)(x_s - x_text)', 'x_ip++', 'x_ip = x_arr + 4', 'x_ip = &x_arr[5]', 'x_ip = &x_mat[1][1]', '*x_ip++ = 77',
         '*++x_ip', 'x_pp = x_pts + 1', 'x_pp++', 'x_pp = x_pp->next ? x_pp->next : &x_pts[1]', 'x_pt = x_mk(30)', 'x_pts[1] = x_pt', 'x_pt = x_pts[0]', 'x_pt.next = x_pp', 'x_pp->next = &x_pts[1]', 'x_fp = x_getfn(1)', 'x_fp = x_fpa', 'x_fpa = x_getfn(0)', 'x_fp == x_fpa',
         'x_vp = &x_d', 'x_vp = x_arr', 'x_setv(19)', '(void)x_setv(3)', 'x_apply(x_add, 1, 2)', 'x_apply(x_v > 2 ? x_add : x_add, 4, 5)', 'x_arrsum(x_arr, x_mat)', 'x_arrsum(x_mat[1], x_mat)', 'x_sum(4, x_v, x_arr[0], x_pt.x, (int)x_uc)', 'x_addr(x_arr, 4)', 'x_addr(&x_arr[3], 4)', 'x_addr(x_ip, 1)',
         'x_addr(&x_pt.y, 2)', 'x_addr(x_getp(), 2)', '&x_arr[1] == x_getp()', 'x_self(&x_pt) == &x_pt', '&x_v == &x_va', 'x_arr == &x_arr[0]', '&x_mat[1] - x_mat', 'x_v ? x_add(1, 1) : x_add(2, 2)', 'x_add(x_add(1, 2), x_add(3, x_add(4, 5)))', 'x_add((1, 2), 3)',
         'x_where(&x_v)', 'x_where(&x_arr)', 'x_where(x_mat + 1)', 'x_where(&x_pt.next)', 'x_where(x_s)', 'x_where(&x_s)', 'x_where(&x_fp)', 'x_where(&x_ci)', 'x_where(x_text)', 'x_where(x_pp)', 'x_where(&x_pp)', 'x_where((void *)&x_vol)', 'x_where(x_vp)', 'x_where(&x_uc)', 'x_where(&x_d)', 'x_where(&x_pts[1])']
STMTS = ['{ int *q = &x_v; *q = 44; r = *q; }', '{ int (*f)(int, int) = x_add; r = f(8, 9); }', '{ XP q = x_pt; q.x++; x_pts[0] = q; r = q.x; }', '{ int i; for (i = 0; i < 4; i++) x_arr[i] = x_arr[3 - i]; r = i; }', '{ r = 0; while (x_v > 0 && r < 50) { x_v--; r++; } }', '{ int (*m)[3] = x_mat; m[1][0] = 1; r = (*m)[0]; }',
         '{ switch (x_v) { case 3: r = 1; break; default: r = 2; } }', '{ if (x_va) x_setv(x_va); else x_setv(1); r = x_v; }', '{ memcpy(x_arr, x_mat, sizeof x_mat); r = 0; }', '{ memset(&x_pt, 0, sizeof x_pt); x_pt.next = &x_pts[0]; r = 0; }', '{ char q[sizeof x_mat]; r = sizeof q; }', '{ int **q = &x_ip; *q = &x_arr[3]; r = **q; }',
         '{ const char *const *q = &x_s; r = **q; }', '{ do x_add(1, 2); while (0); r = 5; }']


def expressions(full):
    vals = [op.replace('{L}', l) for l in INTV for op in V_OPS]
    sets = [op.replace('{L}', '(%s)' % l if l[0] in '*(' and ('++' in op or '--' in op) else l) for l in INTL for op in L_OPS]
    return vals, sets + EXTRA, STMTS


def program(pre, load, vals, sets, stmts, sub, depth, cxx):
    o = ['#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>', TYPES, pre]
    todo = ['r = (long)(%s);' % e if not re.match(r'x_setv|\(void\)|x_vp =|x_ip =|x_ip\+\+|x_s\+\+|x_pp =|x_pp\+\+|x_pt =|x_pts\[1\] =|x_pt\.next =|x_pp->next =|x_fp = |x_fpa = ', e) else '%s; r = 1;' % e for e in sets] + list(stmts) + ['r = (long)(%s);' % e for e in vals]
    nset = len(sets) + len(stmts)
    for k, c in enumerate(todo):
        o.append('static long e%d(void) { long r; %s return r; }' % (k, sub(c)))
    o.append('static long (*const E[])(void) = { %s };' % ', '.join('e%d' % k for k in range(len(todo))))
    o.append(r'''
enum { NSET = %d, NALL = %d };
static unsigned long long H;
static void mix(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; size_t i; for (i = 0; i < n; i++) H = (H ^ c[i]) * 0x100000001b3ULL; }
static char buf[1024];
static void step(int k, int show)
{
    long r = E[k](), n = %s, i;
    mix(&r, sizeof r); mix(buf, n);
    if (show) { printf("%%d: %%ld |", k, r); for (i = 0; i < n / (long)sizeof(long); i++) printf(" %%ld", ((long *)buf)[i]); printf("\n"); }
}
int main(int argc, char **argv)
{
    int i, j, k;
    %s
    if (argc > 2) {
        %s;
        for (i = 2; i < argc; i++) step(atoi(argv[i]), 1);
        return 0;
    }
    for (k = 0; k < NALL; k++) { H = 1; %s; step(k, 0); printf("%%d %%llx\n", k, H); }
    for (i = 0; i < NSET; i++) for (k = 0; k < NALL; k++) { H = 1; %s; E[i](); step(k, 0); printf("%%d %%d %%llx\n", i, k, H); }
    if (atoi(argv[1]) > 2) for (i = 0; i < NSET; i++) for (j = 0; j < NSET; j += 7) { H = 1; for (k = 0; k < NALL; k++) { %s; E[i](); E[j](); step(k, 0); } printf("%%d %%d %%llx\n", i, j, H); }
    printf("end\n");
    return 0;
}
''' % (nset, len(todo), sub('x_state(buf)'), load, sub('x_reset()'), sub('x_reset()'), sub('x_reset()'), sub('x_reset()')))
    return '\n'.join(o), todo


def noalias_sub(s):
    return re.sub(r'\bx_(?!ns)\w+', lambda m: ('GDO_RAWPTR_%s' if m.group(0) in FUNCS else '(*GDO_RAWPTR_%s)') % m.group(0), s)


def check(ctx):
    d = build.scratch() + '/r10'
    os.makedirs(d)
    gen = mc.Gen()
    with open(d + '/x.c', 'w') as fh:
        fh.write(LIB)
    build.run(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', d + '/libx.so', d + '/x.c'])
    vals, sets, stmts = expressions(ctx.thorough)
    depth = 2
    ok = '    if (!(%s)) { printf("cannot load\\n"); return 1; }'
    L = '"%s/libx.so"' % d
    CL = ok % ('gdo_load_lib_name_and_symbols(%s)' % L)
    XL = 'static gdo::dl obj; ' + ok % ('obj.load(%s) && obj.load_all_symbols()' % L)
    # (what, language, format, defines, generator arguments, load, separate, no aliasing)
    same = lambda s: s
    G = ['gcc', '-O0']
    cfgs = [
        ('linked C', G, None, [], [], '', False, same),
        ('linked C++', ['g++', '-std=gnu++11', '-O0'], None, [], [], '', False, same),
        ('C', G, 'c', [], [], CL, False, same),
        ('C, optimised', ['gcc', '-O2'], 'c', [], [], CL, False, same),
        ('C, clang', ['clang', '-O0'], 'c', ['GDO_STATIC'], [], CL, False, same),
        ('C, separate', G, 'c', [], [], CL, True, same),
        ('C, wrappers', ['gcc', '-O1'], 'c', ['GDO_WRAP_FUNCTIONS'], [], CL, False, same),
        ('C, auto-loading', ['gcc', '-O1'], 'c', ['GDO_ENABLE_AUTOLOAD', 'GDO_DEFAULT_LIB=' + L], [], CL, False, same),
        ('C, separate, wrappers', ['gcc', '-O1'], 'c', ['GDO_WRAP_FUNCTIONS'], [], CL, True, same),
        ('C, visible wrappers', ['gcc', '-O1', '-rdynamic'], 'c', ['GDO_WRAP_FUNCTIONS', 'GDO_WRAP_VISIBILITY='], [], CL, False, same),
        ('C, -param=create', G, 'c', [], ['-param=create'], CL, False, same),
        ('C, -param=skip', G, 'c', [], ['-param=skip'], CL, False, same),
        ('C, no aliasing', G, 'c', ['GDO_DISABLE_ALIASING'], [], CL, False, noalias_sub),
        ('C, no aliasing, separate', G, 'c', ['GDO_DISABLE_ALIASING'], [], CL, True, noalias_sub),
        ('C, prefix', G, 'c', [], ['-prefix=pQ_'], CL.replace('gdo_', 'pq__'), False, same),
        ('C compiled as C++', ['g++', '-std=gnu++11', '-O0'], 'c', [], [], CL, False, same),
        ('C++', ['g++', '-std=gnu++11', '-O0'], 'c++', [], [], XL, False, same),
        ('C++, clang 20', ['clang++', '-std=gnu++20', '-O0'], 'c++', [], [], XL, False, same),
        ('C++, separate', ['g++', '-std=gnu++17', '-O0'], 'c++', [], [], XL, True, same),
        ('C++, wrappers', ['g++', '-std=gnu++11', '-O0'], 'c++', ['GDO_WRAP_FUNCTIONS'], [], XL, False, same),
        ('C++, separate, wrappers', ['g++', '-std=gnu++11', '-O0'], 'c++', ['GDO_WRAP_FUNCTIONS'], [], XL, True, same),
        ('C++, no aliasing', ['g++', '-std=gnu++11', '-O0'], 'c++', ['GDO_DISABLE_ALIASING'], [], XL, False, noalias_sub),
        ('minimal', G, 'minimal', [], [], ok % ('!gdo_load_library_and_symbols(%s)' % L), False, same),
        ('minimal in C++', ['g++', '-std=gnu++11', '-O0'], 'minimal', [], [], ok % ('!gdo_load_library_and_symbols(%s)' % L), False, same),
        ('minimal C++', ['g++', '-std=gnu++11', '-O0'], 'minimal-c++', [], [], 'try { gdo::load_library_and_symbols(%s); } catch (...) { printf("cannot load\\n"); return 1; }' % L, False, same),
        ('minimal, no aliasing', G, 'minimal', ['GDO_DISABLE_ALIASING'], [], None, False, same),
        ('minimal C++, no aliasing', ['g++', '-std=gnu++11', '-O0'], 'minimal-c++', ['GDO_DISABLE_ALIASING'], [], None, False, same),
    ]
    if not ctx.thorough:
        pass
    work = []
    for i, (what, cc, fmt, defs, args, load, sep, sub) in enumerate(cfgs):
        e = '%s/%d' % (d, i)
        os.makedirs(e)
        cxx = cc[0].endswith('++')
        pre = ''
        files = []
        if fmt is None:
            pre = EXTERN
        else:
            hdr = 'gen.hpp' if fmt.endswith('c++') else 'gen.h'
            try:
                files = gen.header(UNNAMED if '-param=create' in args else PROTOS, ['-format=' + fmt] + args, e, name=hdr, separate=sep)
            except build.BuildError as x:
                ctx.violation('%s: %s' % (what, str(x)[:500]), {'config': what, 'error': str(x)})
                continue
            pu = 'GDO'
            for a in args:
                if a.startswith('-prefix='):
                    pu = a[8:].upper()
            dd = ''.join('#define %s %s\n' % tuple(x.split('=', 1)) if '=' in x else '#define %s\n' % x for x in defs).replace('GDO_', pu + '_')
            pre = dd + '#include "%s"\n' % hdr
        va = vals
        se = sets
        if fmt == 'c++' and 'GDO_WRAP_FUNCTIONS' in defs:
            pass
        ext = '.cpp' if cxx else '.c'
        if 'no aliasing' in what:
            names = re.findall(r'\bx_\w+', PROTOS)
            pre += ''.join('#ifdef %s\n#error "%s is a macro"\n#endif\n' % (n, n) for n in sorted(set(names)))
        if load is None:
            # plain names are usable for other purposes
            text = '#include <stdio.h>\n' + TYPES + pre + 'static int x_v = 5; static int x_add(int a) { return a; }\nint main(void) { int x_arr = 3; printf("%d\\n", x_v + x_add(x_arr)); return 0; }\n'
            todo = None
        else:
            text, todo = program(pre, load, va, se, stmts, sub, depth, cxx)
            if sub is not same:
                text = text.replace('int main(', 'namespace ns { int x_v = 5; }\nint main(', 1) if cxx else text.replace('int main(', 'struct ns { int x_v, x_add; };\nint main(', 1)
        with open(e + '/t' + ext, 'w') as fh:
            fh.write(text)
        srcs = [e + '/t' + ext]
        if sep:
            body = [f for f in files if f != hdr][0]
            with open(e + '/body' + ext, 'w') as fh:
                fh.write(TYPES + dd + '#include "%s"\n' % body)
            srcs.append(e + '/body' + ext)
        work.append((what, e, cc, srcs, fmt, todo, cxx, load))

    def run(w):
        what, e, cc, srcs, fmt, todo, cxx, load = w
        try:
            build.run(cc + (['-x', 'c++'] if cxx else []) + ['-w', '-g0', '-fpermissive' if cc[0] == 'g++' else '-w', '-I' + e] + srcs + (['-x', 'none', d + '/libx.so', '-Wl,-rpath,' + d] if fmt is None else []) + ['-o', e + '/t', '-ldl'], timeout=600)
        except build.BuildError as x:
            return None, str(x)
        with open(e + '/out', 'wb') as fh:
            p = subprocess.run([e + '/t', '3' if ctx.thorough and todo and what in ('linked C', 'linked C++', 'C', 'C++', 'C, wrappers') else '2'], stdin=subprocess.DEVNULL, stdout=fh, stderr=subprocess.PIPE, timeout=800)
        return p.returncode, p.stderr.decode('latin-1')[-300:]
    work.sort(key=lambda w: not w[0].startswith('linked'))
    res = build.pmap(run, work)
    ref = {}
    gen.srv.close()
    for w, (rc, err) in zip(work, res):
        what, e, cc, srcs, fmt, todo, cxx, load = w
        ctx.add('configurations')
        if rc is None:
            if fmt is None:
                raise RuntimeError('the reference program cannot be built: ' + err[:2000])
            ctx.violation('%s: the expressions that compile with the linked library do not compile with the generated code: %s' % (what, err[:900]), {'config': what, 'error': err[:3000]}, key='build-' + what)
            continue
        if load is None:
            if rc != 0:
                ctx.violation('%s: ended with %s' % (what, rc), {'config': what}, key=what)
            continue
        if fmt is None:
            ref[cxx] = e
            n = sum(1 for _ in open(e + '/out')) - 1
            ctx.cov['sequences_' + ('cxx' if cxx else 'c')] = n
            if rc != 0:
                raise RuntimeError('the reference program failed: %s' % err)
            continue
        bad = None
        n = 0
        if rc != 0:
            ctx.violation('%s: the program ended with status %s: %s' % (what, rc, err), {'config': what, 'status': rc, 'stderr': err}, key='end-' + what)
            continue
        with open(ref[cxx] + '/out') as a, open(e + '/out') as b:
            for x, y in zip(a, b):
                if y == 'end\n' and x != y:
                    break      # not explored deeper in this configuration
                n += 1
                if x != y and bad is None:
                    bad = [int(t) for t in x.split()[:-1]]
        ctx.add('evaluations', n)
        if bad is not None:
            seq = [todo[k] for k in bad]

            def show(exe):
                return subprocess.run([exe, 'show'] + [str(k) for k in bad], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60).stdout.decode('latin-1')
            ctx.violation('%s: the sequence `%s\' has another effect than with the linked library:\nlinked: %s\nloaded: %s' % (what, ' ; '.join(seq), show(ref[cxx] + '/t'), show(e + '/t')),
                          {'config': what, 'sequence': seq}, key='seq-' + what)
    ctx.cov['expressions'] = len(vals) + len(sets) + len(stmts)
    ctx.cov['distinct_nontrivial'] = ctx.cov.get('sequences_c', 0) + ctx.cov.get('sequences_cxx', 0)
    ctx.cov['rule'] = 'a sequence is one or two state-changing expressions followed by any expression, from the same start state; distinct by construction'
    ctx.sample(' ; '.join(STMTS[:2]))
    ctx.assumptions += ['the linked program is the reference', 'function names are used in calls and as values (their address is not taken with &)']
