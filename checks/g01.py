"""G01: every declaration of the grammar gives exactly one entry with its exact name and type."""
import itertools, os, re, subprocess, tempfile
from lib import build, decls
from lib.ctext import *
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of declaration lists up to a bound, each executed on the real generator and judged by a grammar-built oracle and by the compiler'
NOTE = 'Every declaration of a bounded grammar, alone and in lists, is run through the real generator; names, tokens and (compiled) types are compared. Trusts gcc for type identity.'


def shown(res):
    """('ok', sorted declarations) or ('error', message)"""
    if res.code is None:
        return 'abnormal', res.describe()
    if res.code != 0:
        return 'error', res.err.decode('latin-1')
    s = parse_symbols(res.out)
    if s is None:
        return 'bad', 'output is not a symbol list: %r' % res.out[:300]
    u = unfold(s)
    if u is None:
        return 'bad', 'typedefs of the symbol list do not belong to its objects: %r' % res.out[:400]
    if s.count != len(u):
        return 'bad', 'symbol list says %d matches but has %d' % (s.count, len(u))
    return 'ok', sorted(u)


# ------------------------------------------------------------- types by compiler
TYPE_TEMPLATE = '''
#line 1 "checks"
%%type%% (*P_%%func_symbol%%)(%%args%%);
%%obj_type%% *P_%%obj_symbol%%;
GDO_CHECK(%%symbol%%, __typeof__(P_%%symbol%%), __typeof__((%%sym_type%%)0))
'''


def typecheck(ctx, sv, ds, args, what, tmpl):
    """ds: declarations with distinct names.  Uses the tool's output in a C file that asserts every type."""
    src = decls.text(sum((d.src + [';\n'] for d in ds), []))
    r = sv.one(Req(args + ['-template=t.txt', '-'], src.encode(), files=[(0, 't.txt', tmpl.encode())], timeout_ms=60000))
    if r.code != 0:
        ctx.violation('%s: a list of %d supported declarations is refused: %s' % (what, len(ds), r.err[:300]), {'what': what, 'input': src[:4000]})
        return 0
    # -template gives no typedefs: take those the symbol list shows
    l = parse_symbols(sv.one(Req(args + ['-print-symbols', '-'], src.encode(), timeout_ms=60000)).out)
    d = tempfile.mkdtemp(dir=build.scratch())
    f = d + '/t.c'
    with open(f, 'wb') as fh:
        fh.write(b'#define N 7\n' + decls.PRELUDE.encode())
        for x in ds:
            fh.write(('extern %s;\n' % decls.text(x.src)).encode())
        fh.write(b'#define GDO_CHECK(n, a, b) _Static_assert(__builtin_types_compatible_p(__typeof__(&n), a) && '
                 b'__builtin_types_compatible_p(a, b), "TYPE of " #n);\n')
        for t in (l.typedefs if l else []):
            fh.write(('typedef %s;\n' % ' '.join(t)).encode())
        fh.write(r.out)
        fh.write(b'\n')
    p = subprocess.run(['gcc', '-std=gnu17', '-w', '-fsyntax-only', '-fmax-errors=20', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    n = len(re.findall(rb'^GDO_CHECK\(', r.out, re.M))
    if p.returncode != 0:
        out = p.stdout.decode(errors='replace')
        m = re.search(r'TYPE of (\w+)', out)
        bad = [decls.text(x.src) for x in ds if m and x.name == m.group(1)]
        ctx.violation('%s: the generated type differs from the declared one: %s\n%s' % (what, bad[:1], out[:600]),
                      {'what': what, 'declaration': bad[:1] or src[:3000], 'compiler': out[:3000], 'generated': r.out[-3000:].decode('latin-1')})
    elif n != len(ds):
        ctx.violation('%s: %d declarations gave %d entries' % (what, len(ds), n), {'what': what, 'input': src[:4000]})
    return n


def named(ds):
    """the same declarations under distinct names"""
    out = []
    for i, d in enumerate(ds):
        n = 'sym%d' % i
        out.append(decls.Decl(d.kind, n, [n if t == 'sym' else t for t in d.src], [n if t == 'sym' else t for t in d.exp], d.cls))
    return out


FORMATS = {
    'c': ('gdo_hndl.GDO_PTR_', 'c', ''), 'c++': ('gdo::GDO_PTR_', 'c++', ''), 'minimal': ('gdo_hndl.GDO_PTR_', 'c', ''),
    'minimal-c++': ('gdo::GDO_PTR_', 'c++', ''), 'plugin': ('((gdo_handle_t*)0)->ptr.', 'c', ''),
}


def typecheck_formats(ctx, path, ds):
    """the symbol pointers of the built-in formats have the declared types"""
    sv = Server(path)
    src = decls.text(sum((d.src + [';\n'] for d in ds), []))
    cpp_ok = [d for d in ds if 'N' not in d.src]

    def one(fm):
        fmt, mode, text, use, libs = fm
        d = tempfile.mkdtemp(dir=build.scratch())
        acc, lang, _ = FORMATS[fmt]
        f = d + ('/t.c' if lang == 'c' else '/t.cpp')
        with open(f, 'wb') as fh:
            fh.write(b'#define N 7\n#define GDO_DISABLE_ALIASING\n' + decls.PRELUDE.encode())
            if lang != 'c':
                fh.write(b'#include <type_traits>\nextern "C" {\n')
            for x in use:
                fh.write(('extern %s;\n' % decls.text(x.src)).encode())
            if lang != 'c':
                fh.write(b'}\n')
            fh.write(b'#include "g.h"\n')
            for x in use:
                if lang == 'c':
                    fh.write(('_Static_assert(__builtin_types_compatible_p(__typeof__(&%s), __typeof__(%s%s)), "TYPE of %s");\n'
                              % (x.name, acc, x.name, x.name)).encode())
                else:
                    fh.write(('static_assert(std::is_same<decltype(&%s), decltype(%s%s)>::value, "TYPE of %s");\n'
                              % (x.name, acc, x.name, x.name)).encode())
        with open(d + '/g.h', 'wb') as fh:
            fh.write(text)
        cmd = ['gcc', '-std=gnu17'] if lang == 'c' else ['g++', '-std=c++17']
        p = subprocess.run(cmd + ['-w', '-fsyntax-only', '-fmax-errors=10', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            out = p.stdout.decode(errors='replace')
            m = re.search(r'TYPE of (\w+)', out)
            bad = [decls.text(x.src) for x in use if m and x.name == m.group(1)]
            ctx.violation('format %s, -param=%s: %s\n%s' % (fmt, mode, bad, out[:600]), {'format': fmt, 'param': mode, 'declaration': bad, 'compiler': out[:3000]})
        return len(use)
    jobs = []
    for fmt in FORMATS:
        for mode in ('read', 'skip'):
            use = ds if FORMATS[fmt][1] == 'c' else cpp_ok
            s = decls.text(sum((d.src + [';\n'] for d in use), []))
            r = sv.one(Req(['-format=' + fmt, '-param=' + mode, '-no-date', '-'], s.encode(), timeout_ms=60000))
            if r.code != 0:
                ctx.violation('format %s refuses supported declarations: %s' % (fmt, r.err[:300]), {'format': fmt, 'input': s[:3000]})
                continue
            jobs.append((fmt, mode, r.out, use, None))
    n = sum(build.pmap(one, jobs))
    ctx.add('types_checked_by_compiler', n)
    ctx.log('format type checks', n)
    sv.close()


def check(ctx):
    path = build.build_tool('plain')
    full = ctx.thorough
    expected = {}

    # 1. singles: every declaration alone, written with and without spaces
    def items1():
        for d in decls.singles('sym', maxp=2, full=full):
            yield d
        for d in decls.redundant('sym', full=full):
            yield d

    def make1(d):
        return [Req(['-print-symbols', '-'], (decls.text(d.src) + ';\n').encode()),
                Req(['-print-symbols', '-'], ('extern ' + decls.tight(d.src) + ';').encode())]

    def judge1(d, rs):
        for r in rs:
            k, v = shown(r)
            if k != 'ok':
                return '+' + d.cls, 'supported declaration `%s\' is not accepted: %s %s' % (decls.text(d.src), k, v)
            if v != [d.exp]:
                return '+' + d.cls, '`%s\' must become exactly `%s\' but became %s' % (decls.text(d.src), decls.text(d.exp), [' '.join(x) for x in v])
        return '+' + d.cls, None
    explore(ctx, path, items1, make1, judge1, name='single declarations')

    # 2. all lists of representatives up to a length
    reps = [decls.representatives('s%d' % i) for i in range(5)]
    nrep = len(reps[0])
    maxlen = 4 if full else 3

    def items2():
        for k in range(1, maxlen + 1):
            yield from itertools.product(range(nrep), repeat=k)

    def dl(idx):
        return [reps[pos][i] for pos, i in enumerate(idx)]

    def make2(idx):
        ds = dl(idx)
        return [Req(['-print-symbols', '-'], b'\n'.join((decls.text(d.src) + ';').encode() for d in ds)),
                Req(['-print-symbols', '-'], ''.join(decls.tight(d.src) + ';' for d in ds).encode())]

    def judge2(idx, rs):
        ds = dl(idx)
        exp = sorted(d.exp for d in ds)
        for r in rs:
            k, v = shown(r)
            if k != 'ok' or v != exp:
                return '+list%d' % len(ds), 'list `%s\' became %s %s' % ('; '.join(decls.text(d.src) for d in ds), k, [' '.join(x) for x in v] if k == 'ok' else v)
        return '+list%d' % len(ds), None
    explore(ctx, path, items2, make2, judge2, name='lists of declarations')

    # 3. a name declared twice is an error, at every pair of positions and kinds, in lists of up to 3/4
    def items3():
        for k in range(2, maxlen + 1):
            for idx in itertools.product(range(0, nrep, 1 if k < 3 else 2), repeat=k):
                for i, j in itertools.combinations(range(k), 2):
                    yield idx, i, j

    def make3(x):
        idx, i, j = x
        ds = dl(idx)
        t = []
        for pos, d in enumerate(ds):
            t.append(' '.join('s%d' % i if pos == j and tok == d.name else tok for tok in d.src) + ';')
        return Req(['-print-symbols', '-'], '\n'.join(t).encode())

    def judge3(x, rs):
        k, v = shown(rs[0])
        if k != 'error' or rs[0].code != 1:
            return '+dup', 'a symbol declared twice is not an error: %s %s' % (k, v)
        return '+dup', None
    explore(ctx, path, items3, make3, judge3, name='names declared twice')

    # 4. list lengths
    def items4():
        for n in list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]:
            for rep in range(nrep):
                yield n, rep

    def ds4(x):
        n, rep = x
        return [decls.representatives('s%d' % i)[(i * 7 + rep) % nrep if i % 3 else rep] for i in range(n)]

    def make4(x):
        return Req(['-print-symbols', '-'], '\n'.join(decls.text(d.src) + ';' for d in ds4(x)).encode())

    def judge4(x, rs):
        k, v = shown(rs[0])
        if k != 'ok' or v != sorted(d.exp for d in ds4(x)):
            return '+long', 'list of %d declarations: %s %s' % (x[0], k, str(v)[:500])
        return '+long', None
    explore(ctx, path, items4, make4, judge4, name='list lengths', batch=8)

    # 5. identifier spellings
    ids = ['a', '_', '__', 'a1', 'A', 'Z9_', 'const_', 'constx', 'xconst', 'externx', '_extern', 'extern_', 'struct_', 'structx', 'typedefx', 'unionx', 'enum_x',
           'void_', 'voidx', 'voidp', 'returnx', 'int_', 'intx', 'gdo', 'gdo_x', 'GDO_X', 'gdo_hndl', 'xgdo_', 'option', 'L', 'a' * 40, 'x' * 250, '_' * 30,
           'bool', 'symbol', 'type', 'args', 't', 'x__t', 'gdo_x__t', 'a__', 'e1', 'E', '_T', 'FunctionDecl', 'VarDecl', 'pragma', 'define', 'include']
    shapes = 5

    def items5():
        for a in ids:
            for b in ids:
                for k in range(shapes):
                    yield a, b, k

    def d5(x):
        a, b, k = x
        if k == 0:
            return decls.func(a, ['int'], [], 'f', ['int', b])
        if k == 1:
            return decls.func(a, [b], ['*'], 'f', ['const', b, '*', 'x'])
        if k == 2:
            return decls.obj(a, [b], [])
        if k == 3:
            return decls.arr(a, ['const', b], ['*'], ['2'])
        return decls.fptr(a, [b], [], ['int', '(', '*', b, ')', '(', a, ')'])

    def make5(x):
        return Req(['-print-symbols', '-'], (decls.text(d5(x).src) + ';').encode())

    def judge5(x, rs):
        k, v = shown(rs[0])
        a, b, s = x
        if k != 'ok' or v != [d5(x).exp]:
            return '+ident', '`%s\': %s %s' % (decls.text(d5(x).src), k, v)
        return '+ident', None
    explore(ctx, path, items5, make5, judge5, name='identifiers')

    # 6. types decided by the compiler
    sv = Server(path)
    ds = named(list(decls.singles('sym', maxp=2, full=False)))
    n = 0
    for i in range(0, len(ds), 3000):
        n += typecheck(ctx, sv, ds[i:i + 3000], [], 'custom template', TYPE_TEMPLATE)
    sv.close()
    ctx.add('types_checked_by_compiler', n)
    ctx.log('types by compiler', n)
    some = [d for d in ds if d.cls != 'function' or '...' not in d.src[-2:-1] or True][::13]
    typecheck_formats(ctx, path, some)
    ctx.cov['rule'] = ('declarations are made from the grammar in lib/decls.py together with the declaration that must be shown; '
                       'a case is non-trivial when the tool read at least one declaration (duplicates: when it had to refuse)')
    ctx.assumptions += ['supported declarations are those of the grammar in lib/decls.py', 'gcc decides type equality']
