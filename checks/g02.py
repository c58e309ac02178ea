"""G02: text that is documented as ignored never changes the result."""
import itertools, re
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of insertions of ignorable text at every token gap, each executed on the real generator (differential)'
NOTE = 'All single insertions at all gaps and ordered pairs of a fixed set of ignorable texts, and all short contents of comments, preprocessor lines and blocks over a small alphabet; output must equal the base output.'

# token lists of the base inputs
BASES = [
    'int foo ( int a , const char * b ) ;',
    'int foo ( void ) ; char * bar ; int baz [ 3 ] ;',
    'void ( * cb ) ( int , ... ) ; T * const f ( T x , struct s * y ) ;',
    'unsigned int u ; void * g ( int ( * h ) ( union u , enum e * ) , char x [ ] [ 4 ] , ... ) ; T t ;',
]
BASES = [b.split() for b in BASES]

# ignorable anywhere between two tokens (they separate tokens themselves)
ANY = [' ', '\n', '\t', '\r\n', '\f', '\v', '  \n\n\t ', '/**/', '/***/', '/*/*/', '/* ; int bogus; */', '/*\n*/', '/*"*/', "/*'*/", '/*//*/', '/* \\\n */', '/*\\*/',
       '/* # */', '/*{*/', '/*}*/', '/* %option prefix=x */', '/**\n * int no;\n **/', '/* struct s { */', '/*\r\n\r\n*/', '/*\xff\xfe\x01*/',
       '//\n', '// int bogus;\n', '// "\n', "// '\n", '// /*\n', '// */\n', '// \\\n int bogus; \n', '//\\\n\\\n;\n', '// {\n', '// # \n', '///\n', '//\r\n', '//*\n', '/**///\n', '//\\ \n;\n']
# preprocessor lines, on their own line
PRE = ['#define X int y;\n', '#\n', ' # pragma once\n', '#define X \\\n int y;\n', '#if 0 // int z;\n', '#/**/define Z /*\n*/ int q;\n', '#define S "/*"\n', "#define C '\"'\n",
       '#include <x.h>\n', '#define Q "\\"/*"\n', '#define W "//" /* { */\n', '/* c */ #define V {\n', '/*\n*/#undef a;\n', '#define E //\\\n int z;\n', '#define D /* \\\n */ ;\n',
       '#define X \\\r\n int y;\r\n', '#define X \\ \n int y;\n', '#line 7 "x.c"\n', '#define U \xe4;\n', '#define A "\\\\"\n', '#define B \'\\\'\' /*\n\n*/ (\n', '#define\\\n\\\n\\\nX {\n', '\t#error x\n']
PRE = ['\n' + p for p in PRE]
# between two declarations
BLOCK = [';', ' ; ;', 'extern ', 'struct s;', 'struct s { int a; char *b[3]; };', 'union u { struct { int a; } b; };', 'enum e { A, B = -1, C = \'x\' };',
         'typedef struct { int x : 3; } T;', 'typedef int (*cb)(void);', 'typedef int T[3];', 'typedef union { struct { enum { A } a; } b; } *T;', 'struct { int a; } x;',
         'struct s *p(int x);', 'typedef enum e { A = \';\', B = \'}\' } E;', 'struct s { // }\n int a; /* } */ };', 'struct s {\n#define X }\n int a; };', 'typedef char S[sizeof("};{")];',
         'enum { A = 1 << 2, B = A | ~0, C = A ? 1 : 2 };', 'struct{}', ]
BLOCK[-1] = 'struct{};'
OPTL = ['\n%option no-date\n', '\n%option\n', '\n%option no-date \\\n no-date\n', '\n%option  no-date\r\n']


def items_for(base):
    """(position, item); position p = before token p, len(base) = at the end"""
    for p in range(len(base) + 1):
        for i in ANY:
            yield p, i
        if True:
            for i in PRE:
                yield p, i
        if p == 0 or base[p - 1] == ';':
            for i in BLOCK:
                if i == 'extern ' and p == len(base):
                    continue
                yield p, i
            for i in OPTL:
                yield p, i


def join(base, ins, sep=' '):
    out = []
    for p in range(len(base) + 1):
        got = ins.get(p)
        if got:
            out.append(got)
        elif 0 < p < len(base):
            out.append(sep)
        if p < len(base):
            out.append(base[p])
    return ''.join(out)


ARGS = ['-print-symbols', '-']


def tight_lines(t):
    """no empty lines: preprocessor and %option lines begin where a comment, another such line, or nothing ends"""
    while '\n\n' in t:
        t = t.replace('\n\n', '\n')
    return t[1:] if t.startswith('\n') else t


def tight_reqs(t):
    u = tight_lines(t.replace('\r\n', '\n'))
    c = u.replace('\n', '\r\n')
    return [Req(ARGS, enc(x)) for x in (u, c, '\xef\xbb\xbf' + u, '\xef\xbb\xbf' + c)] if u != t else []


def enc(t):
    return t.encode('latin-1')


def check(ctx):
    path = build.build_tool('plain')
    sv = Server(path)
    ref = []
    for b in BASES:
        r = sv.run(ARGS, enc(' '.join(b)))
        if r.code != 0 or not r.out:
            ctx.violation('base input is refused', {'input': ' '.join(b), 'stderr': r.err})
        ref.append(r.out)
    sv.close()

    def judge_for(tag):
        def judge(info, rs):
            exp = ref[info[0]]
            for r in rs:
                if r.code != 0:
                    return tag, 'ignored text makes the input be refused: %s %s' % (r.describe(), r.err[:200])
                if r.out != exp:
                    return tag, 'ignored text changes the result: expected %r, got %r' % (exp, r.out[:500])
            return tag, None
        return judge

    # 1. every single insertion; LF, CRLF, with byte order mark
    def one():
        for bi, b in enumerate(BASES):
            for p, i in items_for(b):
                yield bi, p, i

    def make1(x):
        bi, p, i = x
        t = join(BASES[bi], {p: i})
        crlf = t.replace('\r\n', '\n').replace('\n', '\r\n')
        bom = '\xef\xbb\xbf'
        return [Req(ARGS, enc(t)), Req(ARGS, enc(crlf)), Req(ARGS, enc(bom + t)), Req(ARGS, enc(bom + crlf)), Req(ARGS, enc(t + '\n')), Req(ARGS, enc(' ' + t))] + tight_reqs(t)
    explore(ctx, path, one, make1, judge_for('+single'), name='single insertions (10 encodings)')

    # 2. every ordered pair at the same place
    def two():
        for bi, b in enumerate(BASES[:2] if not ctx.thorough else BASES):
            for p in range(len(b) + 1):
                l = [i for q, i in items_for(b) if q == p]
                if not ctx.thorough and p not in (0, 2, len(b)) and b[p - 1] != ';':
                    continue
                for a, c in itertools.product(l, l):
                    if a == 'extern ' and c not in ANY + PRE:
                        continue    # extern must be followed by a declaration
                    yield bi, p, a, c

    def make2(x):
        bi, p, a, c = x
        t = join(BASES[bi], {p: a + c})
        return [Req(ARGS, enc(t))] + (tight_reqs(t)[:1 if p else 3:2] if a.endswith('\n') or p == 0 else [])
    explore(ctx, path, two, make2, judge_for('+pair'), name='ordered pairs at the same place')

    # 3. every pair at two different places
    def three():
        for bi, b in enumerate(BASES):
            l = list(items_for(b))
            if not ctx.thorough:
                # a smaller item set: one per lexer start condition / block kind
                keep = {'\n', '/**/', '/* ; int bogus; */', '/*"*/', '// /*\n', '// \\\n int bogus; \n', '\n#define X \\\n int y;\n', '\n#define S "/*"\n', '\n#/**/define Z /*\n*/ int q;\n',
                        ';', 'struct s { int a; char *b[3]; };', 'enum e { A, B = -1, C = \'x\' };', 'typedef int (*cb)(void);', '\n%option no-date\n'}
                if bi in (0, 3):
                    continue
                l = [x for x in l if x[1] in keep]
            for (p, a), (q, c) in itertools.combinations(l, 2):
                if p != q:
                    yield bi, p, a, q, c

    def make3(x):
        bi, p, a, q, c = x
        return Req(ARGS, enc(join(BASES[bi], {p: a, q: c})))
    explore(ctx, path, three, make3, judge_for('+pair2'), name='pairs at different places')

    # 4. all comment / preprocessor line / block contents up to a length
    alpha = ['*', '/', '"', "'", '\\', '\n', ';', '{', '#', 'x', '%']
    n4 = 5 if ctx.thorough else 4

    def contents():
        for k in range(n4 + 1):
            for b in itertools.product(alpha, repeat=k):
                s = ''.join(b)
                for kind in range(3):
                    t = wrap(kind, s)
                    if t:
                        yield kind, s

    def wrap(kind, s):
        if kind == 0:
            t = '/*' + s + '*/'
            # closed exactly at its end; a splice inside the closing delimiter also closes it
            if re.sub(r'\\\n', '', t).find('*/', 2) != len(re.sub(r'\\\n', '', t)) - 2:
                return None
            return t
        if kind == 1:
            j = s.replace('\\\n', '')
            if '\n' in j or s.endswith('\\'):
                return None
            return '//' + s + '\n'
        r = ppline(s)
        return ('\n#' + s + '\n') if r else None

    def ppline(s):
        """does the line `#s` end exactly at the line break after s (and is it well-formed)?"""
        t = s.replace('\\\n', '') + '\n'
        if s.endswith('\\'):
            return False
        i = 0
        while i < len(t):
            if t.startswith('/*', i):
                j = t.find('*/', i + 2)
                if j < 0:
                    return False
                i = j + 2
            elif t.startswith('//', i):
                return t.find('\n', i) == len(t) - 1
            elif t[i] in '"\'':
                q = t[i]
                j = i + 1
                while j < len(t) and t[j] != q:
                    if t[j] == '\n':
                        return False
                    j += 2 if t[j] == '\\' else 1
                if j >= len(t) - 1:
                    return False
                i = j + 1
            elif t[i] == '\n':
                return i == len(t) - 1
            else:
                i += 1
        return False

    pre = 'int a'
    base4 = [('int foo ( ', 'int a , const char * b ) ;'), ('int foo(int a, const char *b) ; ', ' ')]

    def make4(x):
        kind, s = x
        t = wrap(kind, s)
        return [Req(ARGS, enc(a + t + b)) for a, b in base4] + [Req(ARGS, enc(t + 'int foo(int a, const char *b);' + t))]

    def judge4(x, rs):
        for r in rs:
            if r.code != 0 or r.out != ref[0]:
                return '+content', 'content of ignored text changes the result: %s %r %r' % (r.describe(), r.err[:150], r.out[:300])
        return '+content', None
    explore(ctx, path, contents, make4, judge4, name='contents of comments and preprocessor lines')

    # 5. all contents of ignored blocks
    balpha = ['int', 'x', ';', '{', '}', '(', ')', ',', '*', '[3]', '-1', ':', '=', '"s;}"', "'{'", '/*}*/', '//}\n', '\n#define }\n', 'struct', '...', '...', '"\\"}"', '<', '1.5', '&', 'extern', 'typedef']
    balpha = sorted(set(balpha))
    n5 = 4 if ctx.thorough else 3

    def blocks():
        for k in range(n5 + 1):
            for b in itertools.product(balpha, repeat=k):
                d = 0
                ok = True
                semi = False
                for t in b:
                    if t == '{':
                        d += 1
                    elif t == '}':
                        d -= 1
                        if d < 0:
                            ok = False
                            break
                    elif t == ';' and d == 0:
                        semi = True
                if ok and d == 0:
                    for kind in range(4 if not semi else 3):
                        yield kind, ' '.join(b)

    KW = ['struct s { %s };', 'typedef union { %s } T;', 'enum { %s } ;', 'typedef %s;']

    def make5(x):
        kind, s = x
        t = KW[kind] % s
        return [Req(ARGS, enc('int foo(int a, const char *b);' + t)), Req(ARGS, enc(t + ' int foo(int a, const char *b);'))]

    def judge5(x, rs):
        for r in rs:
            if r.code != 0 or r.out != ref[0]:
                return '+block', 'content of an ignored block changes the result: %s %r %r' % (r.describe(), r.err[:150], r.out[:300])
        return '+block', None
    explore(ctx, path, blocks, make5, judge5, name='contents of ignored blocks')

    # 6. ends of input: the last ignorable text without line end
    def ends():
        for bi, b in enumerate(BASES):
            for t in ['', '\n', '\r\n', '//', '// x', '// x\\', '/**/', '#define X', '\n#define X', '\n#define X \\\n y', '\n%option no-date', '  ', '\n\n\n', '\f', 'struct s;',
                      '\n//', '\n#', '\n# // x', '\n#define X /* y */']:
                for u in ['', '/**/', '\n', '// a\n', ';']:
                    yield bi, u, t

    def make6(x):
        bi, u, t = x
        if t.startswith('#') and not u.endswith('\n'):
            u += '\n'
        if u == '' and t.startswith('%'):
            u = '\n'
        base = ' '.join(BASES[bi])
        return [Req(ARGS, enc(base + u + t)), Req(ARGS, enc('\xef\xbb\xbf' + base + u + t))]
    explore(ctx, path, ends, make6, judge_for('+end'), name='ends of input')
    ctx.cov['rule'] = 'a case is a base input with ignorable text inserted; all are non-trivial (the base declares 1 to 3 symbols and the output must equal that of the base)'
    ctx.assumptions += ['backslash-newline splices are enumerated inside comments, preprocessor lines and %option lines (in plain code the generator refuses a backslash)',
                        'preprocessor lines with unbalanced quotes (undefined in C) are not enumerated']
