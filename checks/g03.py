"""G03: a token sequence is either refused, or every token of every declaration is reproduced in order."""
import glob, itertools, json, os, re, subprocess, tempfile
from lib import build, cgram, decls
from lib.ctext import *
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all token sequences up to a depth and all one/two-edit neighbours of valid declarations, each executed on the real generator'
NOTE = 'Accepted inputs must conserve tokens in order and keep their C type (gcc decides); all others must be refused with exit code 1 and a message.'
ALPHA = ['int', 'foo', '*', '(', ')', '[', ']', '3', ',', ';', '...', 'const', 'void', 'struct', 'extern']
CORE = ['int', 'foo', '*', '(', ')', '[', ']', '3', ',', ';', '...']
BLOCKS = ('struct', 'union', 'enum', 'typedef')


KEYWORDS = ('int', 'void', 'const', 'struct', 'char', 'unsigned', 'long')


def declared(tokens):
    """the declarations of the input: `extern` dropped, ignored blocks dropped"""
    ds, rest = split_decls(tokens)
    if rest:
        ds.append(rest)
    out = []
    for d in ds:
        # an ignored block begins at a struct/union/enum/typedef which is the first token besides `extern`
        d = [t for t in d if t != 'extern']
        if d and d[0] not in BLOCKS:
            out.append(d)
    return out


def drop_names(d):
    out = []
    depth = 0
    for i, t in enumerate(d):
        if depth >= 2 and d[i - 2:i] == ['(', '*'] and d[i + 1:i + 2] == [')'] and re.match(r'\w+\Z', t) and t not in KEYWORDS:
            continue
        depth += (t == '(') - (t == ')')
        out.append(t)
    return out


def noparen(d):
    return [t for t in d if t not in '()']


def judge_tokens(tokens, mode, r, accepted=None):
    """(tag, problem)"""
    if r.code is None:
        return '+abnormal', 'ends abnormally: ' + r.describe()
    if r.code != 0:
        if r.code != 1 or not r.err.strip():
            return 'refused', 'refused with %s and message %r' % (r.describe(), r.err[:100])
        if r.out.strip():
            return 'refused', 'refused but wrote to standard output: %r' % r.out[:200]
        return 'refused', None
    want = declared(tokens)
    s = parse_symbols(r.out)
    u = unfold(s) if s else None
    if u is None:
        return '+bad', 'accepted, but the output is no symbol list: %r' % r.out[:300]
    if s.count != len(u) or len(u) == 0:
        return '+bad', 'accepted with %d symbols shown, %d counted' % (len(u), s.count)
    for d in want:
        if not cgram.declaration_ok(d):
            return '+accepted', 'malformed declaration accepted: `%s\' is shown as %s' % (' '.join(d), [' '.join(x) for x in u])
    got = u
    if mode == 'create':
        # parameter names a1, a2, ... were added
        got = [[t for t in d if not re.match(r'a\d+\Z', t)] for d in u]
        # a function pointer parameter's own name is replaced
        want = [drop_names(d) for d in want]
    a = sorted(noparen(d) for d in want)
    b = sorted(noparen(d) for d in got)
    if a != b:
        return '+accepted', 'accepted, but tokens are not conserved: declared %s, shown %s' % ([' '.join(x) for x in want], [' '.join(x) for x in u])
    # parentheses may only disappear in pairs
    lost = [sum(d.count(p) for d in want) - sum(d.count(p) for d in got) for p in '()']
    if lost[0] != lost[1] or lost[0] < 0:
        return '+accepted', 'accepted, but parentheses were added or unbalanced: declared %s, shown %s' % ([' '.join(x) for x in want], [' '.join(x) for x in u])
    if accepted is not None and len(want) == 1:
        accepted.write(json.dumps([mode, want[0], u[0]]) + '\n')
    return '+accepted', None


class Acc:
    """per-process file of accepted declarations"""

    def __init__(self, d):
        self.d = d
        self.fh = {}

    def write(self, s):
        p = os.getpid()
        if p not in self.fh:
            self.fh[p] = open('%s/acc-%d' % (self.d, p), 'a', buffering=1)
        self.fh[p].write(s)


def symname(out_decl):
    """the symbol of a shown declaration: `( * NAME )` or the identifier in front of ( or [ or the last one"""
    for i, t in enumerate(out_decl):
        if t == '(' and i + 1 < len(out_decl) and out_decl[i + 1] == '*':
            return out_decl[i + 2] if i + 2 < len(out_decl) else None
        if t in '([':
            return out_decl[i - 1] if i else None
    return out_decl[-1]


def nested(t):
    st = []
    for x in t:
        if x in '([':
            st.append(x)
        elif x in ')]':
            if not st or st.pop() + x not in ('()', '[]'):
                return False
    return not st


TYPENAMES = ('T', 'TT', 'PT', 'FN', 's', 'u', 'e', 'N', 'short', 'signed', 'double', 'volatile', 'enum', 'union') + KEYWORDS


def has_names(t):
    """parameters with names (-param=create is documented for parameters without names)"""
    depth = 0
    for i, x in enumerate(t):
        depth += (x in '([') - (x in ')]')
        if depth == 1 and IDENT.match(x) and x not in TYPENAMES:
            return True
    return False


def tagged(t):
    """struct x -> struct st_x (declared at file scope)"""
    return [b[:0] + (a[:2] + '_' + b if a in ('struct', 'union', 'enum') and IDENT.match(b) and b not in KEYWORDS else b) for a, b in zip([''] + t, t)]


def compiler_types(ctx, accd):
    """declarations that are valid C must keep their type"""
    seen = {}
    for f in glob.glob(accd + '/acc-*'):
        with open(f) as fh:
            for l in fh:
                seen[l] = 1
    cases = [json.loads(l) for l in sorted(seen)]
    d = tempfile.mkdtemp(dir=build.scratch())
    lines = []
    for mode, src, out in cases:
        n = symname(out)
        if not n or not IDENT.match(n) or n in ('int', 'void', 'const', 'struct', 'char', 'unsigned', 'long'):
            continue
        src = [t for t in src if t not in ('static',)]
        out = [t for t in out if t not in ('static',)]
        if mode == 'create' and has_names(src[src.index(n) + 1:] if n in src else src):
            continue
        if not nested(src) or n not in src or all(t in ('const', '*', '(', 'volatile', 'extern') for t in src[:src.index(n)]):
            continue
        i, j = src.index(n), out.index(n)
        lines.append((mode, tagged(src[:i] + ['SYM1'] + src[i + 1:]), tagged(out[:j] + ['SYM2'] + out[j + 1:]), n))
    CH = 1500
    chunks = [list(range(i, min(i + CH, len(lines)))) for i in range(0, len(lines), CH)]

    def run(idx, with_out):
        f = '%s/t%d.c' % (d, idx[0])
        with open(f, 'w') as fh:
            fh.write('#define N 7\ntypedef short T; typedef struct tt TT; typedef int *PT; struct s; union u; enum e { E0 };\n')
            for t, x in sorted({(t, x[3:]) for i in idx for src in lines[i][1:3] for t, x in zip(src, src[1:]) if x[:3] == t[:2] + '_'}):
                fh.write('%s %s_%s%s;\n' % (t, t[:2], x, ' { E_%s }' % x if t == 'enum' else ''))
            for k, i in enumerate(idx):
                mode, src, out, n = lines[i]
                fh.write('#line %d "case"\n' % (i + 1))
                fh.write('void t%d(void) { typedef %s; typedef __typeof__(SYM1) X; ' % (k, ' '.join(src)))
                if with_out:
                    fh.write('{ typedef %s; _Static_assert(__builtin_types_compatible_p(X, SYM2), "TYPE"); }' % ' '.join(out))
                fh.write(' }\n')
        p = subprocess.run(['gcc', '-std=gnu2x', '-w', '-fsyntax-only', '-fmax-errors=0', '-fdiagnostics-plain-output', '-fno-diagnostics-show-caret', f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace')

    def chunk(idx):
        for _ in range(200):
            if not idx:
                return 0, '', 0
            rc, out = run(idx, False)
            if rc == 0:
                break
            bad = {int(x) - 1 for x in re.findall(r'^case:(\d+):\d+: error', out, re.M)}
            if not bad:
                raise RuntimeError('compiler: ' + out[:500])
            idx = [i for i in idx if i not in bad]
        else:
            raise RuntimeError('cannot separate valid declarations: ' + out[:500])
        rc, out = run(idx, True)
        return rc, out, len(idx)
    valid = 0
    for rc, out, n in build.pmap(chunk, chunks):
        valid += n
        if rc:
            for i in sorted({int(x) - 1 for x in re.findall(r'^case:(\d+):\d+: error', out, re.M)})[:20]:
                mode, src, o, n = lines[i]
                m = re.search(r'^case:%d:\d+: error: (.*)' % (i + 1), out, re.M)
                ctx.violation('accepted declaration `%s\' (-param=%s) is valid C but is shown as `%s\': %s' % (' '.join(src), mode, ' '.join(o), m.group(1) if m else ''),
                              {'declaration': ' '.join(src), 'param': mode, 'shown': ' '.join(o)})
    ctx.add('accepted_valid_c_types_compared', valid)
    ctx.add('accepted_distinct', len(cases))
    ctx.log('types of accepted declarations: %d distinct, %d valid C' % (len(cases), valid))


def check(ctx):
    path = build.build_tool('plain')
    accd = tempfile.mkdtemp(dir=build.scratch())
    acc = Acc(accd)
    T = ctx.thorough

    def args(mode):
        return ['-print-symbols', '-param=' + mode, '-']

    def mk(x):
        mode, t = x
        return Req(args(mode), ' '.join(t).encode())

    def jd(x, rs):
        return judge_tokens(list(x[1]), x[0], rs[0], acc)

    # 1. all sequences
    def seqs():
        n = 5 if T else 4
        for k in range(0, n + 1):
            for t in itertools.product(ALPHA, repeat=k):
                yield 'read', t
        for t in itertools.product(CORE, repeat=6 if T else 5):
            yield 'read', ('int',) + t
        for t in itertools.product(['int', 'foo', '*', '(', ')', ',', '['] if not T else CORE[:9], repeat=5):
            for mode in ('skip', 'create'):
                yield mode, ('int', 'foo', '(') + t
    explore(ctx, path, seqs, mk, jd, name='all token sequences', batch=256)

    # 2. everything within one (thorough: two) token edits of valid declarations
    vals = [('read', d.src) for d in decls.representatives('foo')]
    vals += [('read', decls.func('foo', ['int'], [], 'f', decls.plist([p], ('x',), False)).src) for p in decls.PARAMS]
    vals += [('skip', decls.func('foo', ['int'], [], 'f', decls.plist([p, q], (None, None), v)).src) for p in decls.PARAMS_S[:7 if T else 5] for q in decls.PARAMS_S[1:7 if T else 5] for v in (False, True)]
    vals += [('create', decls.func('foo', ['int'], [], 'f', decls.plist([p, q], (None, None), v)).src) for p in decls.PARAMS_S[:7 if T else 5] for q in decls.PARAMS_S[1:7 if T else 5] for v in (False, True)]
    vals += [('read', a.src + [';'] + b.src) for a in decls.representatives('foo')[:11:2] for b in decls.representatives('bar')[1:11:3]]
    EDIT = ALPHA + ['bar', 'x', '0', 'typedef']

    SMALL = ['int', '*', '(', ')', '[', ',', '...', 'const']

    def edits(t, EDIT=EDIT, ranges=True):
        for i in range(len(t)):
            yield t[:i] + t[i + 1:]
            for a in EDIT:
                if a != t[i]:
                    yield t[:i] + [a] + t[i + 1:]
            if i + 1 < len(t) and t[i] != t[i + 1]:
                yield t[:i] + [t[i + 1], t[i]] + t[i + 2:]
        for i in range(len(t) + 1):
            for a in EDIT:
                yield t[:i] + [a] + t[i:]
        for i in range(len(t) if ranges else 0):
            for j in range(i + 2, len(t) + 1):
                yield t[:i] + t[j:]            # a range missing
                if j - i <= 6:
                    yield t[:j] + t[i:j] + t[j:]   # a range doubled

    def near():
        for m, t in vals:
            for e in edits(list(t)):
                yield m, e
        # two edits
        for m, t in (vals[:29] if T else vals[:2] + vals[9:10]):
            if len(t) > (12 if T else 9):
                continue
            for e in edits(list(t)):
                for e2 in edits(e, EDIT if T else SMALL, False):
                    yield m, e2
    explore(ctx, path, near, mk, jd, name='edits of valid declarations', batch=256)

    # 3. characters which are no C declaration text are refused wherever they stand
    def chars():
        for m, t in vals[:6]:
            for i in range(len(t) + 1):
                for c in list(range(1, 256)):
                    if chr(c).isspace() or chr(c) in ';_' or chr(c).isalnum() and c < 128 or c == 0xef:
                        continue
                    if chr(c) in '*,()[]':
                        continue
                    yield list(t), i, c

    def mk3(x):
        t, i, c = x
        return Req(args('read'), ' '.join(t[:i]).encode() + b' ' + bytes([c]) + b' ' + ' '.join(t[i:]).encode() + b' ;\n')

    def jd3(x, rs):
        t, i, c = x
        if chr(c) == '#' and i == 0 or chr(c) == '%' and False:
            # a preprocessor line: nothing is declared
            if rs[0].code != 1:
                return '+char', 'no symbols, but %s' % rs[0].describe()
            return '+char', None
        if rs[0].code != 1 or not rs[0].err.strip() or rs[0].out.strip():
            return '+char', 'character 0x%02x is not refused: %s, output %r' % (c, rs[0].describe(), rs[0].out[:200])
        return '+char', None
    explore(ctx, path, chars, mk3, jd3, name='foreign characters')

    compiler_types(ctx, accd)
    ctx.cov['rule'] = ('all token sequences up to the bound, and all edits of valid declarations; a case is non-trivial when the generator accepted it '
                       '(tokens compared in order, types of valid C compared by gcc) or the edited text had to be refused')
    ctx.assumptions += ['redundant parentheses are those whose removal keeps the type (decided by gcc for valid C)', 'declarations beginning with struct, union, enum or typedef are ignored as documented']
