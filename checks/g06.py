"""G06: -P and -S select exactly the requested symbols, from prototypes and from Clang AST dumps."""
import itertools, re
from lib import build
from lib.ctext import parse_symbols
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of symbol sets x sequences of filter options x input kinds on the real generator against a set model'
NOTE = 'All declared subsets and orders of a colliding name alphabet, all sequences of up to 2 (thorough: 3) -P/-S options over it, prototype text and Clang AST.'

NAMES = ['qa', 'qaa', 'qab', 'Qa', 'q_a', 'qb', 'qaab']
FILT = ['qa', 'qaa', 'q', 'qab', 'Qa', 'q_', 'zz', 'qaabc', 'b']
DECL = [('int %s(int x, char *y)', "FunctionDecl 0x55ba91b824f8 <a.h:1:1, col:29> col:5 %s 'int (int, char *)'", ["x 'int'", "y 'char *'"]),
        ('int %s', "VarDecl 0x55ba91b82610 <line:2:1, col:12> col:12 %s 'int' extern", []),
        ('void %s(void)', "FunctionDecl 0x55ba91b82740 <line:3:1, col:14> col:6 %s 'void (void)'", []),
        ('char *%s[3]', "VarDecl 0x55ba91b82611 <line:4:1, col:12> col:12 %s 'char *[3]' extern", []),
        ('void (*%s)(int)', "VarDecl 0x55ba91b82612 <line:5:1, col:12> col:12 %s 'void (*)(int)' extern", []),
        ('int %s(int x)', "FunctionDecl 0x55ba91b824f9 <a.h:1:1, col:29> col:5 %s 'int (int)'", ["x 'int'"])]


def text(names, rot):
    return ''.join(DECL[(NAMES.index(n) + rot) % len(DECL)][0] % n + ';\n' for n in names)


def ast(names, rot, noise):
    out = ['TranslationUnitDecl 0x55ba91b22118 <<invalid sloc>> <invalid sloc>']
    for i, n in enumerate(names):
        d = DECL[(NAMES.index(n) + rot) % len(DECL)]
        last = i + 1 == len(names)
        if noise:
            out += ["|-TypedefDecl 0x55ba91b22d68 <<invalid sloc>> <invalid sloc> implicit zz 'char *'", "| `-PointerType 0x55ba91b22d20 'char *'"]
        out.append('%s-%s' % ('`' if last else '|', d[1] % n))
        for k, p in enumerate(d[2]):
            out.append('%s %s-ParmVarDecl 0x55ba91b8239%d <col:9, col:13> col:13 %s' % (' ' if last else '|', '`' if k + 1 == len(d[2]) else '|', k, p))
        if noise and n == 'qa':     # declared again
            out.append('|-%s' % (d[1] % n))
            for k, p in enumerate(d[2]):
                out.append('| %s-ParmVarDecl 0x55ba91b8249%d <col:9, col:13> col:13 %s' % ('`' if k + 1 == len(d[2]) else '|', k, p))
    return '\n'.join(out) + '\n'


OPT = [('P', f) for f in FILT] + [('S', f) for f in FILT]


def model(names, seq):
    """(selected, missing)"""
    P = [v for k, v in seq if k == 'P']
    S = [v for k, v in seq if k == 'S']
    if not seq:
        return set(names), set()
    return {n for n in names if n in S or any(n.startswith(p) for p in P)}, {s for s in S if s not in names}


def subsets(full):
    for k in range(1, len(NAMES) + 1):
        for c in itertools.combinations(NAMES, k):
            yield c
            if k > 1:
                yield c[::-1]
            if full and 1 < k < 5:
                yield c[1:] + c[:1]


def check(ctx):
    path = build.build_tool('plain')
    words = re.compile(r'\w+')
    alpha = set(NAMES) | set(FILT) - {'b', 'q'}

    def items():
        for rot in range(6 if ctx.thorough else 2):
            for names in subsets(ctx.thorough):
                big = len(names) in (1, 2, 6, 7)
                depth = 3 if ctx.thorough and (rot == 0 or len(names) == 7) else 2
                for n in range(depth + 1):
                    if n == 3 and not big:
                        continue
                    if n == 2 and rot and len(names) < 7 and not ctx.thorough:
                        continue
                    for seq in itertools.product(OPT, repeat=n):
                        yield rot, names, seq
        if not ctx.thorough:
            for seq in itertools.product(OPT, repeat=3):
                yield 0, tuple(NAMES), seq

    def make(info):
        rot, names, seq = info
        a = []
        for k, v in seq:
            a += ['-' + k + v] if NAMES.index(names[0]) % 2 else ['-' + k, v]
        t = text(names, rot).encode()
        rs = [Req(['-print-symbols'] + a + ['-'], t), Req(['-'] + a + ['-print-symbols', '-ast-all-symbols'], t)]
        noise = (rot + len(names) + len(seq)) % 2
        d = ast(names, rot, noise).encode()
        rs += [Req(['-print-symbols'] + a + ['-'], d), Req(['-ast-all-symbols', '-print-symbols'] + a + ['-'], d)]
        if len(seq) < 2:
            rs.append(Req(['-template=t', '-no-date'] + a + ['-'], t, files=[(0, 't', 'SYM %%symbol%%\n')]))
        return rs

    def got(r):
        s = parse_symbols(r.out)
        if s is None:
            return None
        found = []
        for p in s.protos:
            w = [x for x in p if x in NAMES]
            if len(w) != 1:
                return None
            found += w
        if s.count != len(found):
            return None
        return sorted(found)

    def judge(info, rs):
        rot, names, seq = info
        sel, miss = model(names, seq)
        err = bool(miss) or not sel
        opts = ' '.join('-%s%s' % x for x in seq)
        tag = '%d filters, %s' % (len(seq), 'missing' if miss else 'nothing' if not sel else 'some' if len(sel) < len(names) else 'all')
        for i, r in enumerate(rs):
            kind = ['text', 'text with -ast-all-symbols', 'AST', 'AST with -ast-all-symbols', 'template'][i]
            where = '%s input with symbols %s, %s' % (kind, ','.join(names), opts or 'no filters')
            e = err
            want = sorted(sel)
            if i == 3:
                e, want = False, sorted(names)
            if i == 2 and not seq:
                if r.code in (0, None) or not r.err:
                    return tag, '%s: must be an error but %s' % (where, r.describe())
                continue
            if e:
                if r.code in (0, None):
                    return tag, '%s: must be an error but %s, output %r' % (where, r.describe(), r.out[-200:])
                if r.out:
                    return tag, '%s: error but there is output' % where
                if not r.err.strip():
                    return tag, '%s: no error message' % where
                if miss:
                    said = {w for w in words.findall(r.err.decode('latin-1')) if w in alpha}
                    if said - miss or (miss - {'b', 'q'}) - said:
                        return tag, '%s: missing are %s but the message is %r' % (where, sorted(miss), r.err)
                continue
            if r.code != 0:
                return tag, '%s: %s %r' % (where, r.describe(), r.err[:200])
            g = sorted(re.findall(r'^SYM (\w+)$', r.out.decode('latin-1'), re.M)) if i == 4 else got(r)
            if g != want:
                return tag, '%s: selected %s instead of %s' % (where, g, want)
        return '+' + tag, None
    explore(ctx, path, items, make, judge, name='filters')
    ctx.cov['rule'] = 'a case is one symbol set with one sequence of filter options, run as prototype text and as AST with and without -ast-all-symbols; distinct by its inputs'
