"""G04: no input makes the generator crash, hang or end abnormally."""
import itertools, os
from lib import build
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of byte strings, token sequences, all truncations and one-byte edits of sample inputs, template texts, template directories, command lines and long runs, on the tool built with address, undefined-behaviour and library assertions'
NOTE = 'Byte strings up to 2 (in 12 contexts) and 3 bytes, token sequences up to 4 tokens, command lines up to 3 options out of 64; the smaller spaces run under AddressSanitizer, all of them with undefined-behaviour traps and checked containers. A run is a hang when it does not end within 60 s.'

BYTES = [bytes([c]) for c in b'\x00\t\n\r\x0b\x0c !"#$%&\'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\x7f\x80\xbf\xc3\xef\xff\x1b']
CORE = [bytes([c]) for c in b'\x00\n\r "#%\'()*,-./0:;<=@A[\\]_a{}\xff']
CTX = [b'%s', b'int foo(int a);%s', b'int foo(%s);\n', b'int %s(int a);\n', b'%s foo(int a);\nint bar(void);', b'int foo(int a) %s;\n', b'/* %s */ int foo(int a);', b'// %s\nint foo(int a);', b'#%s\nint foo(int a);\n',
       b'%%option %s\nint foo(int a);\n', b'int (*foo(int a))%s;', b'void foo(int (*cb)(int%s), char a[%s]);\n']
TOK = ['int', 'foo', 'struct', 'const', '*', '&', '(', ')', '[', ']', ',', ';', '...', '{', '}', '=', '0', '__attribute__((x))', '"s"', 'unsigned', 'typedef', 'extern "C"', '#', '%option', '\n', '/*', '*/', '//', '::', "'c'"]
ASTTOK = ['FunctionDecl 0x55d 5', '|-FunctionDecl 0x55d0c8 <line:1:1, col:9> col:5 ', '`-VarDecl 0x1 <col:1> col:12 ', '| |-ParmVarDecl 0x2 <col:1> col:9 ', 'TranslationUnitDecl 0x5\n', ' foo', " 'int (int)'", " 'int'", ' extern', ' static', '\n', "'", '<', '\x1b[0m', '\r\n', ' a', ' implicit', ' invalid', " 'int (*)(int)'", ' prev 0x1', ' used', '\ufeff',
          " 'void (void)'", " 'int[3]'", ':', ' inline']
TPL = ['%%symbol%%', '%%func_symbol%%', '%%obj_symbol%%', '%%type%%', '%%args%%', '%%param_names%%', '%%return%%', '%%sym_type%%', '%%obj_type%%', '%%func_symbol_pad%%', '%%', '%', '@', '@\n', '\n', 'x ', '%PARAM_SKIP_REMOVE_BEGIN%\n', '%PARAM_SKIP_REMOVE_END%\n', '#', '"', '\\\n', '/***', '***/', '\x00', 'gdo_GDO_', '%%unknown%%', '%SKIP_BEGIN%\n', '%SKIP_END%\n', '%ONCE%', '%HEADER_GUARD_BEGIN%\n']
SAMPLES = {
    'declarations': (['-print-symbols', '-'], b'''/* c */ // d
%option prefix=ab -P=f
#include <x.h>
extern int *var, w; const char *const f(void);
struct s *f2(unsigned a[3][4], int (*cb)(struct s *, ...), char c __attribute__((x)));
static inline int f3(int) { return "}\\"" [0]; }
typedef int t; enum e { A, B = 2 }; __declspec(dllimport) void __cdecl f4(int &r, t<int> q, ...);
extern "C" { int f5(volatile int *restrict p); }
''', b';(),*"\'\\{}[]#%/\n\x00 a0\xff'),
    'ast': (['-ast-all-symbols', '-print-symbols', '-'], b'''TranslationUnitDecl 0x55d0c8 <<invalid sloc>> <invalid sloc>
|-TypedefDecl 0x55d0c9 <<invalid sloc>> <invalid sloc> implicit __int128_t '__int128'
| `-BuiltinType 0x55d0ca '__int128'
|-FunctionDecl 0x55d0cb </tmp/a.c:1:1, col:30> col:5 used foo 'int (int, const char *, ...)'
| |-ParmVarDecl 0x55d0cc <col:9, col:13> col:13 a 'int'
| `-ParmVarDecl 0x55d0cd <col:16, col:28> col:28 cb 'int (*)(void)':'int (*)(void)'
|-VarDecl 0x55d0ce <line:2:1, col:12> col:12 obj 'char *[3]' extern
`-FunctionDecl 0x55d0cf prev 0x55d0cb <line:3:1, col:20> col:6 bar 'struct s *(void) __attribute__((cdecl))'
'''.replace(b'TranslationUnitDecl', b'\xef\xbb\xbf\x1b[0;1;32mTranslationUnitDecl\x1b[0m'), b"'<>:|`()\n\r\x1b\x00 ,*a0[\xff"),
    'options': (['-'], b'''%option format=c++ prefix=my_x -library=api:1:foo
%option include=nq:<a.h> -Dfoo=1 line -no-date \\
 param=create -Sfoo
%option   template="x y"
int foo(int);
''', b' =-:%\n"\\<>\x00a1\xff,'),
}


def judge_run(r):
    if r.timed_out:
        return 'the generator does not end'
    if r.code is None:
        return 'the generator is killed by signal %d' % r.signal
    if b'Sanitizer' in r.err or b'runtime error:' in r.err:
        return 'memory or undefined-behaviour error'
    if r.code and not r.err.strip():
        return 'exit code %d without a message' % r.code
    return None


def check(ctx):
    chk = build.build_tool('chk')
    asan = build.build_tool('asan')
    T = ctx.thorough

    def judge(info, rs):
        for r in rs:
            p = judge_run(r)
            if p:
                key = p.split()[0] + str(info)[:30]
                return '+', ('%s: %s: %r' % (str(info)[:200], p, r.err[-400:]), key)
        return '+ok' if rs[0].code == 0 else '+refused', None

    # 1. byte strings
    def items1():
        for c in range(len(CTX)):
            for n in (0, 1, 2):
                for t in itertools.product(range(len(BYTES)), repeat=n):
                    yield c, t
        for t in itertools.product(range(len(CORE)), repeat=3):
            yield -1, t
            if T:
                for c in (-2, -3, -4, -6, -10):
                    yield c, t
        if T:
            for t in itertools.product(range(len(CORE)), repeat=4):
                yield -1, t

    def text1(info):
        c, t = info
        s = b''.join((BYTES if c >= 0 else CORE)[i] for i in t)
        f = CTX[c if c >= 0 else -1 - c]
        return f.replace(b'%%', b'\1').replace(b'%s', s).replace(b'\1', b'%')
    explore(ctx, chk, items1, lambda i: Req(['-print-symbols', '-'], text1(i)), judge, batch=400, name='byte strings')

    def items1a():
        for c in range(len(CTX)):
            for t in itertools.product(range(len(BYTES)), repeat=1):
                yield c, t
        for c in (0, 2, 9) if not T else range(len(CTX)):
            for t in itertools.product(range(len(BYTES)), repeat=2):
                yield c, t
    explore(ctx, asan, items1a, lambda i: Req(['-print-symbols', '-'], text1(i)), judge, batch=100, name='byte strings, address sanitizer')

    # 2. token sequences
    def items2():
        n = len(TOK)
        for k in (1, 2, 3):
            for t in itertools.product(range(n), repeat=k):
                yield 0, t
        small = [TOK.index(x) for x in ('int', 'foo', '*', '(', ')', '[', ']', ',', ';', '...', '{', '}', '0', 'struct')]
        for t in itertools.product(small, repeat=4):
            yield 0, t
        for k in (1, 2, 3):
            for t in itertools.product(range(n) if k < 3 or T else small, repeat=k):
                yield 1, t
                yield 2, t
        if T:
            for t in itertools.product(small, repeat=5):
                yield 0, t

    def text2(info):
        c, t = info
        s = ' '.join(TOK[i] for i in t)
        return (('%s', 'int foo(%s);', 'int foo(int a) ; %s ; char *bar(void);')[c] % s).encode()
    explore(ctx, chk, items2, lambda i: Req(['-print-symbols', '-'], text2(i)), judge, batch=400, name='token sequences')
    explore(ctx, asan, lambda: itertools.chain(((0, t) for k in (1, 2) for t in itertools.product(range(len(TOK)), repeat=k)), ((1, t) for k in (1, 2) for t in itertools.product(range(len(TOK)), repeat=k))),
            lambda i: Req(['-print-symbols', '-'], text2(i)), judge, batch=100, name='token sequences, address sanitizer')

    # 3. sequences of pieces of a Clang AST dump
    def items3(deep):
        for k in (1, 2, 3) if deep else (1, 2):
            for t in itertools.product(range(len(ASTTOK)), repeat=k):
                yield 0, t
                yield 1, t
                if k < 3 or T:
                    yield 2, t
        if T and deep:
            for t in itertools.product(range(len(ASTTOK)), repeat=4):
                yield 1, t

    def req3(info):
        c, t = info
        s = ''.join(ASTTOK[i] for i in t)
        pre = ('', 'TranslationUnitDecl 0x5\n', "TranslationUnitDecl 0x5\n|-FunctionDecl 0x55d0c8 <line:1:1, col:9> col:5 foo 'int (int, int)'\n")[c]
        return Req(['-ast-all-symbols', '-print-symbols', '-'], (pre + s).encode())
    explore(ctx, chk, lambda: items3(True), req3, judge, batch=400, name='AST pieces')
    explore(ctx, asan, lambda: items3(False), req3, judge, batch=100, name='AST pieces, address sanitizer')

    # 4. truncations and one-byte edits
    def items4(deep):
        for k in sorted(SAMPLES):
            args, text, repl = SAMPLES[k]
            for o in range(len(text) + 1):
                yield k, 't', o, 0
                yield k, 'd', o, 0
                if deep:
                    yield k, '2', o, 0
                    yield k, 's', o, 0
                    for c in range(len(repl)):
                        yield k, 'r', o, c
                        yield k, 'i', o, c

    def req4(info):
        k, op, o, c = info
        args, x, repl = SAMPLES[k]
        b = repl[c:c + 1]
        y = {'t': x[:o], 'd': x[:o] + x[o + 1:], '2': x[:o] + x[o:o + 1] + x[o:], 's': x[o:], 'r': x[:o] + b + x[o + 1:], 'i': x[:o] + b + x[o:]}[op]
        return Req(args, y)
    explore(ctx, chk, lambda: items4(True), req4, judge, batch=200, name='edits')
    explore(ctx, asan, lambda: items4(T), req4, judge, batch=50, name='edits, address sanitizer')

    # 5. templates
    def items5(deep):
        for k in (0, 1, 2, 3) if deep else (1, 2):
            for t in itertools.product(range(len(TPL)), repeat=k):
                if k == 3 and not T and sum(i > 15 for i in t) > 1:
                    continue
                yield t
        if deep:
            for t in itertools.product((0, 2, 4, 10, 11, 12, 13, 14, 15) if not T else (0, 2, 4, 5, 7, 10, 11, 12, 13, 14, 15, 16, 17), repeat=4 if not T else 5):
                yield t

    def req5(t):
        return Req(['-no-date', '-template=t.h', '-'], b'int foo(int a);\nvoid g(void);\nextern int v;\n', files=[(0, 't.h', ''.join(TPL[i] for i in t).encode())])
    explore(ctx, chk, lambda: items5(True), req5, judge, batch=100, name='templates')
    explore(ctx, asan, lambda: items5(False), req5, judge, batch=50, name='templates, address sanitizer')

    # 6. template directories
    names = sorted(n for n in os.listdir(build.REPO + '/src/templates') if n != 'README.md')
    tpl = {n: open('%s/src/templates/%s' % (build.REPO, n), 'rb').read() for n in names}

    def items6():
        for fmt in ('c', 'c++', 'minimal', 'minimal-c++', 'plugin'):
            for n in [None] + names:
                for what in ('empty', 'absent', 'directory', 'nul', 'long', 'half', 'no newline', 'unreadable', 'crlf', 'binary'):
                    for sep in (0, 1):
                        yield fmt, n, what, sep

    def req6(info):
        fmt, n, what, sep = info
        files = [(1, 'T', b'')]
        for m in names:
            c, kind = tpl[m], 0
            if m == n:
                if what == 'absent':
                    continue
                kind = {'directory': 1, 'unreadable': 5}.get(what, 0)
                c = {'empty': b'', 'directory': b'', 'nul': b'\0' * 100, 'long': b'x' * 300000, 'half': c[:len(c) // 2 - 3], 'no newline': c.rstrip(), 'crlf': c.replace(b'\n', b'\r\n'), 'binary': bytes(range(256)) * 20, 'unreadable': c}[what]
            files.append((kind, 'T/' + m, c))
        return Req(['-no-date', '-templates-path=T', '-format=' + fmt, '-out=o.h'] + (['-separate'] if sep else []) + ['-'], b'int foo(int a);\nextern int v;\n', files=files)
    explore(ctx, chk, items6, req6, judge, batch=10, name='template directories')

    # 7. command lines
    ARGS = ['-', '--', '', 'in.txt', 'missing', 'dir', '-out=o.h', '-out=', '-out', '-out=dir', '-out=/nonexistent/x', '-format=c', '-format=c++', '-format=minimal', '-format=plugin', '-format=', '-format=x', '-format', '-prefix=a', '-prefix=', '-prefix=1 \xff', '-library=x',
            '-library=', '-library=api:', '-library=api:1:x', '-include=', '-include=nq:', '-include=a.h', '-DA=1', '-D', '-D=', '-Pf', '-P', '-Sfoo', '-S', '-param=create', '-param=skip', '-param=read', '-param=', '-param=x', '-separate', '-separate=x', '-force', '-line', '-no-date', '-no-pragma-once', '-ignore-options',
            '-ast-all-symbols', '-print-symbols', '-template=t.h', '-template=', '-template=missing', '-template=dir', '-templates-path=dir', '-templates-path=', '-templates-path=missing', '-dump-templates=', '-dump-templates=dir/new', '-dump-templates=in.txt', '-help', '-full-help', '-version', '-x', '-' + 'y' * 5000, '--help', '/help', '/?', '-HELP', '-out=' + 'n' * 5000]

    def items7(deep):
        n = len(ARGS)
        for k in (0, 1, 2):
            for t in itertools.product(range(n), repeat=k):
                yield t
        if deep:
            small = [i for i in range(n) if i in (0, 3, 6, 8, 13, 16, 20, 24, 28, 31, 33, 35, 36, 40, 42, 43, 47, 48, 49, 53, 56, 59)]
            for t in itertools.product(small if not T else range(0, n, 2), repeat=3):
                if T or any(ARGS[i] in ('-print-symbols', '-template=t.h', '-format=minimal') for i in t):
                    yield t

    def req7(t):
        return Req([ARGS[i] for i in t], b'int foo(int a);\n', files=[(0, 'in.txt', b'int foo(int a);\nint bar(void);\n%option library=zz\n'), (1, 'dir', b''), (0, 't.h', b'%%symbol%%\n')])
    explore(ctx, chk, lambda: items7(True), req7, judge, batch=20, name='command lines')
    explore(ctx, asan, lambda: items7(False) if T else ((i, j) for i in range(len(ARGS)) for j in (0, 3, 39) if not ARGS[i].startswith('-prefix')), req7, judge, batch=1, name='command lines, address sanitizer')

    # 8. long runs
    UNIT = ['(', ')', '[', ']', '{', '}', '*', ',', ';', ' ', '\n', '\t', 'a', 'a ', 'int ', '/', '//\n', '/**/', '/*', '"', "'", '\\', '\\\n', '#\n', '#', '%', '%option\n', '%option x=y\n', '...', '&', '<', '>', '=', '0', '\r', '\r\n', '\0', '\xff', '::', 'int a;', 'int f(int);\n', 'int a,', '(int)', 'int(', '((a)', '[1]', '__attribute__((x))', 'extern "C" {', 'struct s {', 'x,y ', "'a'", '"a"', '= {0},',
            '|-', '| ', '`-', '\x1b[0m', "|-FunctionDecl 0x5 <l> col:5 f 'int (int)'\n", "|-VarDecl 0x5 <l> col:5 v 'int' extern\n", '| |-ParmVarDecl 0x2 <col:1> col:9 a \'int\'\n', 'TranslationUnitDecl 0x5\n']
    LCTX = ['%s', 'int foo(%s);', 'int %s', 'int foo(int a) %s;', '%%option D=%s\nint a;', '/* %s */ int foo(int a);', '#define x %s\nint foo(int a);', "TranslationUnitDecl 0x5\n%s", "TranslationUnitDecl 0x5\n|-FunctionDecl 0x5 <l> col:5 foo 'int (%s)'\n", "TranslationUnitDecl 0x5\n|-FunctionDecl 0x5 <l> col:5 foo 'int (int)'\n%s"]

    def items8():
        for c in range(len(LCTX)):
            for u in range(len(UNIT)):
                for n in (300, 20000) if not T else (300, 20000, 400000):
                    yield c, u, n

    def req8(info):
        c, u, n = info
        s = LCTX[c].replace('%%', '%').replace('%s', UNIT[u] * (n // len(UNIT[u]) if n > 1000 else n))
        return Req(['-ast-all-symbols', '-print-symbols', '-'], s.encode('utf-8', 'replace'), timeout_ms=20000)
    explore(ctx, chk, items8, req8, judge, batch=2, name='long runs')
    explore(ctx, asan, lambda: ((c, u, 300) for c in range(len(LCTX)) for u in range(len(UNIT))), req8, judge, batch=20, name='long runs, address sanitizer')
    ctx.cov['rule'] = 'a distinct request: input bytes, files and command line'
