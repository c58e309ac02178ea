"""The declaration grammar: every declaration is made together with the declaration the tool must show for it."""
import itertools

PRELUDE = '''typedef short T; typedef struct tt TT; typedef int *PT; typedef int FN(int); struct s; union u; enum e { E0 };
'''

BASES = [['int'], ['unsigned', 'long'], ['const', 'char'], ['T'], ['T', 'const'], ['const', 'struct', 's'], ['unsigned', 'long', 'long', 'int'],
         ['signed', 'char'], ['volatile', 'TT'], ['PT'], ['void']]
PTRS = [[], ['*'], ['*', '*'], ['*', 'const'], ['*', 'const', '*'], ['*', '*', '*']]


def base_ptr():
    for b in BASES:
        for p in PTRS:
            yield b, p


def objectable(b, p):
    """complete object type (void and incomplete types need a pointer)"""
    return bool(p) or b not in (['void'], ['const', 'struct', 's'], ['volatile', 'TT'])


# parameter shapes: (before the name, after the name)
PARAMS = [
    (['int'], []),
    (['const', 'char', '*'], []),
    (['struct', 's', '*'], []),
    (['T'], []),
    (['int'], ['[', '3', ']']),
    (['char'], ['[', ']']),
    (['int'], ['[', ']', '[', '2', ']']),
    (['void', '(', '*'], [')', '(', 'void', ')']),
    (['int', '*', '(', '*'], [')', '(', 'int', ',', 'char', '*', ')']),
    (['int', '(', '*'], [')', '(', 'void', '(', '*', ')', '(', 'int', ')', ',', 'T', ')']),
    (['const', 'T', '*', 'const', '*'], []),
    (['unsigned', 'long', 'long'], []),
    (['enum', 'e'], []),
    (['union', 'u', '*', '*'], []),
    (['PT', 'const'], []),
    (['double'], []),
    (['char', '*', 'const', '*'], ['[', '2', ']']),
    (['int', '(', '*'], [')', '(', 'const', 'char', '*', 'fmt', ',', '...', ')']),
]

# a shorter list for products
PARAMS_S = [PARAMS[i] for i in (0, 1, 4, 7, 8, 9, 10)]


def plist(shapes, names, variadic):
    """parameter list tokens"""
    out = []
    for (a, z), n in zip(shapes, names):
        if out:
            out.append(',')
        out += a + ([n] if n else []) + z
    if variadic:
        if out:
            out.append(',')
        out.append('...')
    return out


class Decl:
    """kind: 'f' or 'o'; src: tokens as written; exp: tokens the tool must show"""
    __slots__ = ('kind', 'name', 'src', 'exp', 'cls', 'c')

    def __init__(self, kind, name, src, exp, cls, c=True):
        self.kind = kind
        self.name = name
        self.src = src
        self.exp = exp
        self.cls = cls
        self.c = c   # valid C (for the type check by compiler)


NAMES = {'f': lambda n: [n], '(f)': lambda n: ['(', n, ')'], '((f))': lambda n: ['(', '(', n, ')', ')']}


def func(name, b, p, wrap, params, voidlist=True, outer=False):
    """outer: the whole declarator in redundant parentheses: int (*f(..)); needs a pointer"""
    pl = params if params else (['void'] if voidlist else [])
    exp = b + p + [name, '('] + pl + [')']
    if outer:
        src = b + ['('] + p + NAMES[wrap](name) + ['('] + pl + [')', ')']
    else:
        src = b + p + NAMES[wrap](name) + ['('] + pl + [')']
    return Decl('f', name, src, exp, 'function')


def obj(name, b, p):
    s = b + p + [name]
    return Decl('o', name, s, s, 'object')


def arr(name, b, p, dims):
    s = b + p + [name]
    for d in dims:
        s = s + ['['] + ([d] if d else []) + [']']
    return Decl('o', name, s, s, 'array')


def fptr(name, b, p, params):
    s = b + p + ['(', '*', name, ')', '('] + (params or ['void']) + [')']
    return Decl('o', name, s, s, 'function pointer')


def text(toks):
    return ' '.join(toks)


def tight(toks):
    """as few spaces as possible"""
    out = ''
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] == '_') and (t[0].isalnum() or t[0] == '_'):
            out += ' '
        out += t
    return out


def singles(name='sym', names=('p', 'q1', 'r_'), maxp=2, full=False):
    """all single declarations within the bounds"""
    for b, p in base_ptr():
        for w in NAMES:
            for outer in ([False, True] if p == ['*'] and w == 'f' and len(b) == 1 else [False]):
                yield func(name, b, p, w, [], True, outer)
                yield func(name, b, p, w, [], False, outer)
                yield func(name, b, p, w, plist([PARAMS[0]], names, False), True, outer)
                yield func(name, b, p, w, plist([PARAMS[8], PARAMS[1]], names, True), True, outer)
        if objectable(b, p):
            yield obj(name, b, p)
            for dims in (['3'], [''], ['3', '4'], ['', '2'], ['2', '3', '4'], ['N']):
                yield arr(name, b, p, dims)
        for pl in ([], [PARAMS[0]], [PARAMS[1], PARAMS[7]], [PARAMS[9]]):
            for named in (False, True):
                for va in (False, True):
                    if va and not pl:
                        continue
                    yield fptr(name, b, p, plist(pl, names if named else [None] * 3, va))
    shapes = PARAMS
    for k in range(1, maxp + 1):
        for sh in itertools.product(shapes, repeat=k):
            for va in (False, True):
                yield func(name, ['int'], [], 'f', plist(sh, names, va))
                yield func(name, ['void'], ['*'], '(f)', plist(sh, names, va))
                yield fptr(name, ['void'], ['*'], plist(sh, names, va))
                yield fptr(name, ['T'], [], plist(sh, [None] * len(sh), va))
    sh3 = PARAMS if full else PARAMS_S
    for sh in itertools.product(sh3, repeat=3):
        for va in (False, True):
            yield func(name, ['int'], [], 'f', plist(sh, names, va))
    if full:
        for sh in itertools.product(PARAMS_S, repeat=4):
            yield func(name, ['int'], [], 'f', plist(sh, ('p', 'q1', 'r_', 'ssss'), False))
        for b, p in base_ptr():
            for sh in itertools.product(PARAMS, repeat=2):
                yield func(name, b, p, 'f', plist(sh, names, False))
                yield func(name, b, p, '((f))', plist(sh, names, True), True, False)
                yield fptr(name, b, p, plist(sh, [None, None], False))


def redundant(name='sym', full=False):
    """redundant parentheses around names and declarators, any depth, several of them in one declaration;
    yields declarations whose exp has none"""
    def wrap(k, toks):
        return ['('] * k + toks + [')'] * k

    def cb(k, w, n, base='int', pl=('int',)):      # function pointer parameter: k around (*n), w around the declarator
        pl = list(pl)
        return [base] + wrap(w and w + 1, wrap(k, ['(', '*', n, ')']) + ['('] + pl + [')']), [base, '(', '*', n, ')', '('] + pl + [')']
    inner = cb(1, 0, 'e')
    inner2 = cb(0, 1, 'h', 'T', ['void'])

    def params(n):
        yield ['int', n], ['int', n]
        for k, w in ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1)):
            yield cb(k, w, n)
        for s, e in (inner, inner2):
            yield cb(0, 0, n, 'char', s)[0], cb(0, 0, n, 'char', e)[1]
            yield cb(1, 0, n, 'char', s)[0], cb(1, 0, n, 'char', e)[1]
            yield cb(0, 1, n, 'char', s)[0], cb(0, 1, n, 'char', e)[1]
    lists = [([], [])] + [p for p in params('p')]
    lists += [(a[0] + [','] + b[0], a[1] + [','] + b[1]) for a in params('p') for b in params('q1')]
    if full:
        lists += [(a[0] + [','] + b[0] + [','] + c[0], a[1] + [','] + b[1] + [','] + c[1])
                  for a in params('p') for b in params('q1') for c in params('r_')]
    heads = [('f', k, 0) for k in range(5)] + [('f', k, w) for k in (1, 2) for w in (1, 2, 3)]
    heads += [('p', k, 0) for k in range(4)] + [('p', k, w) for k in (0, 1) for w in (1, 2)]
    for ps, pe in lists:
        ps, pe = ps or ['void'], pe or ['void']
        for kind, k, w in heads:
            b = ['const', 'char', '*'] if (k + w) % 2 else ['int']
            if kind == 'f':
                src = b + wrap(w and w + 1 if w < 3 else w, wrap(k, [name]) + ['('] + ps + [')'])
                exp = b + [name, '('] + pe + [')']
                yield Decl('f', name, src, exp, 'redundant parentheses')
            else:
                src = b + wrap(w and w + 1, wrap(k, ['(', '*', name, ')']) + ['('] + ps + [')'])
                exp = b + ['(', '*', name, ')', '('] + pe + [')']
                yield Decl('o', name, src, exp, 'redundant parentheses')


def representatives(name):
    """one declaration per shape class, used in lists"""
    n = name
    return [
        func(n, ['int'], [], 'f', plist([PARAMS[0]], ('a',), False)),
        func(n, ['void'], [], 'f', []),
        func(n, ['const', 'char'], ['*'], '(f)', plist([PARAMS[8], PARAMS[4]], ('cb', 'y'), True)),
        func(n, ['T'], ['*', '*'], 'f', plist([PARAMS[1], PARAMS[9]], ('s', 'g'), False), True, True),
        func(n, ['unsigned', 'long'], [], '((f))', plist([PARAMS[6]], ('m',), False)),
        obj(n, ['int'], []),
        obj(n, ['const', 'char'], ['*', 'const']),
        arr(n, ['T'], [], ['3']),
        arr(n, ['int'], ['*'], ['2', '3']),
        fptr(n, ['void'], [], []),
        fptr(n, ['int'], ['*'], plist([PARAMS[1], PARAMS[7]], ('a', 'b'), True)),
    ]
