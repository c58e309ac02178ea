"""G08: -param=read|create|skip keep the types and give usable, consistent names."""
import itertools, os, re, subprocess
from lib import build, decls
from lib.ctext import toks, IDENT
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of parameter lists x name modes on the real generator against the declaration grammar, and compilation of the accepted results'
NOTE = 'All lists of up to 2 parameters over all shapes (3 over a subset; thorough: 3 over all), variadic or not, named, unnamed and mixed, in all modes, as text and as function lists.'

TPL = '\x01F %%func_symbol%% \x02 %%type%%\x02 %%args%% \x02 %%param_names%% \x03\n'
TPL2 = '\x01F %%func_symbol%% \x02 %%type%%\x02 %%args%% \x02  \x03\n'
P = decls.PARAMS + [(['const', 'char', '*', 'restrict'], []), (['void', '(', '*', 'const'], [')', '(', 'int', ')']), (['int'], ['[', 'N', ']', '[', ']']),
                    (['volatile', 'T', '*'], []), (['long', 'double'], []), (['unsigned'], []), (['void', '*'], [])]
KW = {'char', 'const', 'double', 'enum', 'float', 'int', 'long', 'restrict', 'short', 'signed', 'struct', 'union', 'unsigned', 'void', 'volatile'}
QP = 19
assert P[QP][0][-1] == 'const'
# types whose last word is a keyword: a name is visibly missing (valid C, alone and in lists)
NPROD = len(P)
P += [(x.split(), []) for x in ('unsigned char', 'unsigned int', 'long long', 'unsigned short', 'long signed', 'short unsigned', 'char const', 'char volatile', 'const float', 'const double',
                                'const _Bool', 'const long', 'unsigned long long int', 'const char *const', 'char *const volatile')]
P = [([t for w in a for t in re.findall(r'\w+|[^\w]', w)], z) for a, z in P]
KW.add('_Bool')
# shapes where a missing name cannot be seen: the last identifier of the type could be the name
AMBIG = [i for i, (a, z) in enumerate(P) if len(a) > 1 and IDENT.match(a[-1]) and a[-1] not in KW]
NAMES = ('p', 'a2', 'ptr_')
RES = re.compile(r'\x01F (.*?) \x02 (.*?)\x02 (.*?) \x02 (.*?) \x03', re.S)


def plist(shapes, names, va):
    return decls.plist(shapes, names, va)


def want_args(shapes, names, va):
    return plist(shapes, names, va)


def check(ctx):
    path = build.build_tool('plain')
    MODES = ('read', 'create', 'skip')

    def lists():
        n = NPROD
        yield (), False
        for c in range(NPROD, len(P)):
            yield (c,), False
            yield (c,), True
            for o in (0, 1, 4, 7):
                yield (c, o), False
                yield (o, c), False
            yield (0, c, 7), False
        for k in (1, 2):
            for c in itertools.product(range(n), repeat=k):
                yield c, False
                yield c, True
        small = range(n) if ctx.thorough else (0, 1, 4, 6, 7, 9, 16, 17, 19, 20)
        for c in itertools.product(small, repeat=3):
            yield c, False
            yield c, True
        if ctx.thorough:
            for c in itertools.product((0, 1, 4, 7, 9, 19), repeat=5):
                yield c, False

    RET = [['int'], ['void'], ['const', 'char', '*'], ['const', 'struct', 's', '*']]

    def items():
        for idx, va in lists():
            k = len(idx)
            masks = [0, (1 << k) - 1] if k else [0]
            if k in (2, 3):
                masks += [1, 2]
            for m in sorted(set(masks)):
                yield idx, va, m

    def pieces(info):
        idx, va, m = info
        sh = [P[i] for i in idx]
        nm = [NAMES[i % 3] + ('' if i < 3 else str(i)) if m >> i & 1 else None for i in range(len(idx))]
        return sh, nm

    def ret(info):
        return RET[(sum(info[0]) + len(info[0]) + info[1]) % 4]

    def make(info):
        sh, nm = pieces(info)
        r = ret(info)
        body = plist(sh, nm, info[1])
        src = r + (['foo_a1', '('] + body + [')', ';'])
        # a second function shows that nothing is carried over
        other = 'int zz(%s);' % ''
        t = (' '.join(src) + '\n' + other + '\n').encode()
        t2 = (other + decls.tight(src)).encode()
        rs = []
        for mode in MODES:
            tp = TPL2 if mode == 'skip' else TPL
            rs.append(Req(['-param=' + mode, '-template=t', '-'], t, files=[(0, 't', tp)]))
            rs.append(Req(['-', '-param', mode, '-template', 't'], t2, files=[(0, 't', tp)]))
        return rs

    def judge(info, rs):
        idx, va, m = info
        sh, nm = pieces(info)
        r = ret(info)
        k = len(idx)
        full = (1 << k) - 1
        decl = ' '.join(r + ['foo_a1', '('] + plist(sh, nm, va) + [')'])
        for q, res in enumerate(rs):
            mode = MODES[q // 2]
            w = '-param=%s, %s' % (mode, decl)
            if res.code is None or (res.code and (not res.err.strip() or res.out)):
                return 'x', '%s: %s, output %r' % (w, res.describe(), res.out[:100])
            if mode == 'read' and m != full:
                # names missing
                seen = any(not (m >> i & 1) and idx[i] not in AMBIG for i in range(k))
                if seen and res.code == 0:
                    return 'x', '%s: names are missing but accepted: %r' % (w, res.out[:200])
                if seen:
                    continue
                if res.code:
                    continue        # cannot be told apart: refusing is fine
            if mode == 'create' and m:
                # documented: no names in the input
                continue
            if res.code and mode == 'read' and QP in idx:
                continue        # named const function pointers are not supported and refused
            if res.code:
                return 'x', '%s: refused: %s' % (w, res.err.decode('latin-1')[:200])
            found = {a: (toks(b), toks(c), toks(d)) for a, b, c, d in RES.findall(res.out.decode('latin-1'))}
            if set(found) != {'foo_a1', 'zz'} or found['zz'][1] not in ([], ['void']) or found['zz'][2]:
                return 'x', '%s: unexpected output %r' % (w, res.out[:300])
            ty, args, names = found['foo_a1']
            if ty != r:
                return 'x', '%s: return type is %s' % (w, ty)
            if mode == 'skip':
                exp = plist(sh, nm, va)
            else:
                if names and (len(names) % 2 == 0 or any(t != ',' for t in names[1::2])):
                    return 'x', '%s: parameter names are %s' % (w, names)
                ns = names[::2]
                if mode == 'read' and m == full:
                    if ns != nm:
                        return 'x', '%s: forwarded names are %s instead of %s' % (w, ns, nm)
                    exp = plist(sh, nm, va)
                elif mode == 'read':
                    continue
                else:
                    if len(ns) != k or len(set(ns)) != k or any(not IDENT.match(x) or x in KW for x in ns):
                        return 'x', '%s: created names are %s' % (w, ns)
                    used = {t for a, z in sh for t in a + z}
                    if used & set(ns):
                        return 'x', '%s: created names %s hide parts of the types' % (w, ns)
                    exp = plist(sh, ns, va)
            if args != exp and not (not exp and args == ['void']):
                return 'x', '%s: parameters are `%s\' instead of `%s\'' % (w, ' '.join(args), ' '.join(exp))
        kind = 'all named' if m == full and k else 'unnamed' if m == 0 else 'mixed'
        return '+%d parameters %s' % (k, kind), None
    explore(ctx, path, items, make, judge, name='parameter lists')

    # parameter lists which cannot fit any mode: an empty parameter, a stray pointer
    def items3():
        some = range(NPROD) if ctx.thorough else (0, 1, 4, 6, 7, 8, 16, 19)
        ls = [()] + [(a,) for a in some] + [(a, b) for a in some for b in some]
        for c in ls:
            for pos in range(len(c) + 1):
                for bad in ([], ['*'], ['*', '*'], ['*', 'int'], ['*', 'const', 'p']):
                    if not c and not bad:
                        continue
                    for va in (False, True):
                        yield c, pos, bad, va
        for c in ls:
            if c:
                yield c, 0, None, True      # a comma alone behind the list

    def make3(x):
        c, pos, bad, va = x
        rs = []
        for mode in MODES:
            ps = [plist([P[i]], [NAMES[k] if mode == 'read' or (mode == 'skip' and k) else None], False) for k, i in enumerate(c)]
            if bad is None:
                ps.append([])
            else:
                ps.insert(pos, bad)
                if va:
                    ps.append(['...'])
            body = sum(([','] * bool(k) + q for k, q in enumerate(ps)), [])
            t = ' '.join(['int', 'foo_a1', '('] + body + [')', ';'])
            rs.append(Req(['-param=' + mode, '-print-symbols', '-'], (t + 'int zz(void);\n').encode()))
            rs.append(Req(['-param=' + mode, '-'], ('int zz(void);' + decls.tight(t.split())).encode()))
        return rs

    def judge3(x, rs):
        c, pos, bad, va = x
        for q, r in enumerate(rs):
            if r.code != 1 or not r.err.strip() or r.out.strip():
                return 'x', '-param=%s: parameter list with %s at position %d of shapes %s%s is not refused: %s, output %r' % (
                    MODES[q // 2], 'an empty parameter' if not bad else '`%s\'' % ' '.join(bad), len(c) if bad is None else pos, c, ' and ...' if va else '', r.describe(), r.out[-200:])
        return '+refused', None
    explore(ctx, path, items3, make3, judge3, name='parameter lists which do not fit')

    # several functions in one input: names of one function never depend on another
    sets = [((), 'int foo%d(void)'), ((0,), None), ((1, 4), None), ((7,), None), ((9, 6, 0), None), ((17, 1), None), ((0, 0, 0, 0), None), ((6,), None)]

    def items2():
        for k in (2, 3):
            for c in itertools.product(range(len(sets)), repeat=k):
                yield c

    def make2(c):
        rs = []
        for mode in MODES:
            t = ''
            for j, i in enumerate(c):
                idx = sets[i][0]
                nm = [None if mode == 'create' else 'n%d_%d' % (j, x) for x in range(len(idx))]
                t += 'int foo%d(%s);\n' % (j, ' '.join(plist([P[x] for x in idx], nm, bool(idx) and j == 1)))
                if j == 0:
                    t += 'int *obj;\n'
            rs.append(Req(['-param=' + mode, '-template=t', '-'], t.encode(), files=[(0, 't', TPL)]))
            one = []
        return rs

    def judge2(c, rs):
        for mode, res in zip(MODES, rs):
            w = '-param=%s with functions %s' % (mode, c)
            if res.code:
                return 'x', '%s: %s' % (w, res.err[:200])
            f = RES.findall(res.out.decode('latin-1'))
            if [x[0] for x in f] != ['foo%d' % j for j in range(len(c))]:
                return 'x', '%s: functions %s' % (w, [x[0] for x in f])
            for j, (i, (_, _, a, n)) in enumerate(zip(c, f)):
                idx = sets[i][0]
                nm = toks(n)[::2]
                if mode == 'skip':
                    nm = ['n%d_%d' % (j, x) for x in range(len(idx))]
                elif mode == 'read' and nm != ['n%d_%d' % (j, x) for x in range(len(idx))]:
                    return 'x', '%s: names of function %d are %s' % (w, j, nm)
                elif len(set(nm)) != len(idx):
                    return 'x', '%s: names of function %d are %s' % (w, j, nm)
                if toks(a) != (plist([P[x] for x in idx], nm, bool(idx) and j == 1) or toks(a)):
                    return 'x', '%s: parameters of function %d are `%s\'' % (w, j, a)
        return '+', None
    explore(ctx, path, items2, make2, judge2, name='lists of functions')

    # Clang AST: names are always created
    AT = [('int', None), ('const char *', None), ('void (*)(int, char *)', 'void (*%s)(int, char *)'), ('int (*)[3]', 'int (*%s)[3]'), ('char *const *', None), ('struct s', None)]

    def items3():
        for k in range(0, 5 if ctx.thorough else 4):
            for c in itertools.product(range(len(AT)), repeat=k):
                for va in ((False, True) if k else (False,)):
                    yield c, va

    def make3(info):
        c, va = info
        t = 'TranslationUnitDecl 0x55ba91b22118 <<invalid sloc>> <invalid sloc>\n'
        sig = ', '.join([AT[i][0] for i in c] + (['...'] if va else [])) or 'void'
        ps = ''.join("| %s-ParmVarDecl 0x55ba91b8239%d <col:9, col:13> col:13 %s'%s'\n" % ('`' if j + 1 == len(c) else '|', j, ['', 'a2 ', 'used b '][j % 3], AT[i][0]) for j, i in enumerate(c))
        t += "|-FunctionDecl 0x55ba91b824f8 <a.h:1:1, col:29> col:5 foo 'long (%s)'\n%s" % (sig, ps)
        t += "`-FunctionDecl 0x55ba91b82740 <line:3:1, col:14> col:6 zz 'void (void)'\n"
        return [Req(['-param=' + m, '-ast-all-symbols', '-template=t', '-'], t.encode(), files=[(0, 't', TPL)]) for m in MODES]

    def judge3(info, rs):
        c, va = info
        for m, r in zip(MODES, rs):
            w = 'AST, -param=%s, parameters %s%s' % (m, [AT[i][0] for i in c], ' ...' if va else '')
            if r.code:
                return 'x', '%s: %s' % (w, r.err[:200])
            f = {a: (toks(b), toks(x), toks(d)) for a, b, x, d in RES.findall(r.out.decode('latin-1'))}
            if 'foo' not in f or 'zz' not in f or f['zz'][1:] != (['void'], []):
                return 'x', '%s: output %r' % (w, r.out[:300])
            ty, a, n = f['foo']
            nm = n[::2]
            if len(nm) != len(c) or len(set(nm)) != len(nm):
                return 'x', '%s: names %s' % (w, nm)
            exp = []
            for i, x in zip(c, nm):
                exp += ([','] if exp else []) + toks(AT[i][1] % x if AT[i][1] else AT[i][0] + ' ' + x)
            if va:
                exp += [',', '...']
            if a != (exp or ['void']) or ty != ['long']:
                return 'x', '%s: parameters `%s\' instead of `%s\'' % (w, ' '.join(a), ' '.join(exp))
        return '+%d parameters' % len(c), None
    explore(ctx, path, items3, make3, judge3, name='Clang AST')

    # the accepted results compile, and the types are those of the declaration
    d = build.scratch() + '/g08'
    os.makedirs(d, exist_ok=True)
    from lib.server import Server
    sv = Server(path)
    CP = [i for i in range(len(P)) if 'T' not in P[i][0] or True]
    jobs = []
    for mode in MODES:
        for lang in ('c', 'c++'):
            ds = []
            for n, c in enumerate(itertools.chain([()], itertools.product(CP, repeat=1), itertools.product(CP, repeat=2))):
                if mode == 'read' and QP in c:
                    continue
                if lang == 'c++' and any('restrict' in P[i][0] or P[i][1][:2] == ['[', 'N'] for i in c):
                    continue
                if any(P[i][1][-2:] == ['[', ']'] and len(P[i][1]) > 2 for i in c):
                    continue
                for va in ((False, True) if c and n % 3 == 0 else (False,)):
                    nm = [None] * 2 if mode == 'create' else ['p', 'q']
                    if mode == 'skip' and n % 2:
                        nm = ['p', None]
                    ds.append(('f%d%s' % (n, 'v' if va else ''), plist([P[i] for i in c], nm, va), plist([P[i] for i in c], [None] * 2, va)))
            jobs.append((mode, lang, ds))
    ctx.cov['types_checked_by_compiler'] = 0

    def one(j):
        mode, lang, ds = jobs[j]
        t = ''.join('long %s(%s);\n' % (n, ' '.join(a) or 'void') for n, a, _ in ds)
        return mode, lang, ds, t
    reqs = []
    for j in range(len(jobs)):
        mode, lang, ds, t = one(j)
        reqs.append(Req(['-param=' + mode, '-format=' + lang, '-no-date', '-'], t.encode(), timeout_ms=60000))
    res = sv.batch(reqs)
    sv.close()
    todo = []
    for j, r in enumerate(res):
        mode, lang, ds, t = one(j)
        if r.code != 0:
            ctx.violation('-param=%s -format=%s with all shapes: %s' % (mode, lang, r.err[:300]), {'input': t[:2000]})
            continue
        ext = 'c' if lang == 'c' else 'cpp'
        base = '%s/%s-%s' % (d, mode, ext)
        pre = decls.PRELUDE.replace('struct s;', 'struct s { int x; };').replace('struct tt TT', 'struct tt {int y;} TT') + '#define N 4\n'
        pre = pre if lang == 'c' else '#define _Bool bool\n' + pre
        with open(base + '.' + ext, 'w') as fh:
            fh.write(pre + '#define GDO_STATIC\n#define GDO_DISABLE_ALIASING\n' + r.out.decode())
            for n, a, u in ds:
                u = ' '.join(u) or 'void'
                if lang == 'c':
                    fh.write('typedef long w_%s(%s); _Static_assert(_Generic(GDO_RAWPTR_%s, w_%s *: 1, default: 0), "%s");\n' % (n, u, n, n, n))
                else:
                    fh.write('typedef long w_%s(%s); template<class A, class B> struct sm_%s { enum { v = 0 }; }; template<class A> struct sm_%s<A, A> { enum { v = 1 }; }; static_assert(sm_%s<decltype(GDO_RAWPTR_%s), w_%s *>::v, "%s");\n' % (n, u, n, n, n, n, n, n))
        todo.append((mode, lang, base + '.' + ext, ds))

    def comp(x):
        mode, lang, f, ds = x
        p = subprocess.run(['gcc', '-w', '-fsyntax-only', '-DGDO_WRAP_FUNCTIONS' if mode != 'skip' else '-DNOTHING', '-std=gnu11', f] if lang == 'c' else ['g++', '-w', '-fsyntax-only', '-std=c++11', '-DNOTHING', f], capture_output=True, text=True)
        return x, p
    for (mode, lang, f, ds), p in build.pmap(comp, todo):
        ctx.cov['types_checked_by_compiler'] += len(ds)
        ctx.add('evaluations', len(ds))
        if p.returncode:
            bad = [l for l in p.stderr.splitlines() if 'error' in l][:3]
            m = re.search(r'"(f\d+v?)"', p.stderr)
            dd = [' '.join(a) for n, a, u in ds if m and n == m.group(1)]
            ctx.violation('-param=%s -format=%s: the generated function type differs or does not compile: %s %s' % (mode, lang, dd, bad), {'errors': bad, 'declaration': dd})
    ctx.cov['rule'] = 'a case is one parameter list with one choice of named parameters, in three modes and two layouts'
    ctx.assumptions += ['-param=create: input without parameter names, types that are not themselves called like a created name',
                        'a missing name is only required to be refused where the type cannot be read as type and name (e.g. `const T\' can)']
