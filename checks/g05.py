"""G05: every spelling of an option, on the command line or in the input, is equivalent."""
import itertools, os, re
from lib import build
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of option pairs, spellings, orders and positions, each executed on the real generator and compared with the canonical spelling (differential)'
NOTE = 'All pairs of different options in all spellings, orders and positions; every arrangement of %option lines up to a bound; every misspelling of an option name by one character. The canonical spelling -name=value is the reference.'

PROTO = 'int foo(int a, const char *b);\nvoid foobar(void);\nint bar;\nchar *bats[3];\n'
UNNAMED = 'int foo(int, const char *);\nvoid foobar(void);\nint bar;\nchar *bats[3];\n'
TPL = 'A %%func_symbol%%(%%args%%) gdo_x\n#define GDO_Y %%obj_symbol%%\n'

# (name, value); single letters take their value without separator
VALS = [('D', 'FOO'), ('D', 'A=1 2'), ('D', 'X='), ('format', 'c++'), ('format', 'minimal'), ('format', 'Plugin'), ('format', 'minimal-cxx'), ('include', 'x.h'), ('include', '<y.h>'), ('include', 'nq:Z'), ('include', 'a b.h'),
        ('library', 'foo'), ('library', 'ext:foo'), ('library', 'api:2:foo'), ('library', 'nq:FOO'), ('library', 'a=b'), ('prefix', 'My'), ('param', 'skip'), ('param', 'read'), ('param', 'Create'), ('out', 'o.h'), ('out', '-'), ('out', 'd/o'),
        ('P', 'foo'), ('P', 'b'), ('S', 'bar'), ('S', 'foo'), ('template', 't.txt'), ('templates-path', 'tp')]
FLAGS = ['line', 'no-date', 'no-pragma-once', 'force', 'separate', 'print-symbols', 'ast-all-symbols', 'ignore-options']
OPTLINE = {'D', 'format', 'include', 'library', 'line', 'no-date', 'no-pragma-once', 'param', 'prefix'}
OPTS = VALS + [(f, None) for f in FLAGS]


def spellings(o):
    n, v = o
    if v is None:
        return [['-' + n], ['--' + n]]
    if len(n) == 1:
        return [['-' + n + v], ['-' + n, v]]
    return [['-' + n + '=' + v], ['-' + n, v], ['--' + n + '=' + v], ['--' + n, v]]


_tpl = None


def files():
    global _tpl
    if _tpl is None:
        d = build.REPO + '/src/templates/'
        _tpl = [(1, 'tp', '')] + [(0, 'tp/' + f, open(d + f, 'rb').read()) for f in sorted(os.listdir(d)) if f != 'README.md']
    return _tpl


DATE = re.compile(rb'^.*\b(20\d\d-\d\d-\d\d|\d\d:\d\d(:\d\d)?)\b.*\n', re.M)


def need(opts):
    fs = []
    if any(o[0] == 'template' for o in opts):
        fs.append((0, 't.txt', TPL))
    if any(o[0] == 'templates-path' for o in opts):
        fs += files()
    if any(o == ('out', 'd/o') for o in opts):
        fs.append((1, 'd', ''))
    return fs


def proto(opts):
    return UNNAMED if ('param', 'Create') in opts else PROTO


def obs(r, mask=False):
    e = sorted((k, n, c) for k, n, c in r.entries if not n.startswith('tp'))
    if mask:
        return r.code, DATE.sub(b'', r.out), tuple((k, n, DATE.sub(b'', c)) for k, n, c in e)
    return r.code, r.out, tuple(e)


def what(r):
    return 'exit code %s, %d bytes, files %s, %s' % (r.code, len(r.out), [n for k, n, c in r.entries if not n.startswith('tp')], r.err[:150])


def check(ctx):
    path = build.build_tool('plain')

    def req(args, opts, text=None, **kw):
        return Req(args, (proto(opts) if text is None else text).encode(), files=need(opts), snap=True, **kw)

    # replacing prefixes is slow; the short format keeps it affordable
    def base_args(opts):
        return ['-format=minimal'] if any(o[0] == 'prefix' for o in opts) and not any(o[0] == 'format' for o in opts) else []

    def costly(opts):
        return any(o[0] == 'prefix' for o in opts) and any(o[0] == 'format' and not o[1].startswith('minimal') for o in opts)

    def canon(opts):
        a = base_args(opts)
        for o in opts:
            a += spellings(o)[0]
        if ('no-date', None) not in opts:
            a.append('-no-date')
        return a + ['-']

    # 1. pairs of different options: all spellings, orders, positions of the input file
    def items1():
        for x in OPTS:
            yield (x,)
        for x, y in itertools.combinations(OPTS, 2):
            if x[0] != y[0]:
                yield (x, y)
        if ctx.thorough:
            small = [('D', 'FOO'), ('format', 'c++'), ('include', 'x.h'), ('library', 'api:2:foo'), ('prefix', 'My'), ('param', 'skip'), ('out', 'o.h'), ('P', 'foo'), ('S', 'bar'), ('template', 't.txt')] + [(f, None) for f in FLAGS]
            for t in itertools.combinations(small, 3):
                yield t

    def make1(opts):
        rs = [req(canon(opts), opts)]
        nd = base_args(opts) + ([] if ('no-date', None) in opts else ['-no-date'])
        for perm in itertools.permutations(range(len(opts))):
            for sp in itertools.product(*[range(len(spellings(o))) for o in opts]):
                if len(opts) > 2 and any(sp) and sum(1 for s in sp if s) > 1:
                    continue
                if costly(opts) and not ctx.thorough and (sum(1 for s in sp if s) > 1 or perm[0]):
                    continue
                parts = [spellings(opts[k])[sp[k]] for k in perm]
                for pos in range(len(parts) + 1):
                    a = sum(parts[:pos], []) + ['-'] + sum(parts[pos:], []) + nd
                    rs.append(req(a, opts))
        return rs

    def judge1(opts, rs):
        c = obs(rs[0], True)
        tag = '%d options, exit %s' % (len(opts), c[0])
        if c[0] is None:
            return tag, 'abnormal end: %s' % rs[0].describe()
        for r in rs[1:]:
            if obs(r, True) != c:
                return tag, 'options %s: another spelling or position gives another result: %s instead of %s' % (opts, what(r), what(rs[0]))
        if c[0] != 0 and not rs[0].err:
            return tag, 'options %s: error without a message' % (opts,)
        return ('+' if c[0] == 0 else '') + tag, None
    explore(ctx, path, items1, make1, judge1, batch=8, name='spellings, orders and positions of options')

    # 2. an option has an effect: distinct options do not give the same output (guards against options that are parsed and dropped)
    base = req(['-no-date', '-'], ())

    def items2():
        yield 0

    def make2(_):
        return [base] + [req(canon((o,)), (o,)) for o in OPTS] + [req(['-'], ())]

    def judge2(_, rs):
        b = obs(rs[0], True)
        neutral = {('D', ''), ('param', 'read'), ('param', 'Create'), ('out', '-'), ('force', None), ('separate', None), ('ast-all-symbols', None), ('ignore-options', None), ('templates-path', 'tp'), ('no-date', None)}
        for o, r in zip(OPTS, rs[1:]):
            if o not in neutral and obs(r, True) == b:
                return '+', 'option %s has no effect' % (o,)
            if r.code != 0:
                return '+', 'option %s: %s' % (o, what(r))
        if obs(rs[-1]) == obs(rs[0]):
            return '+', 'option -no-date has no effect'
        return '+', None
    explore(ctx, path, items2, make2, judge2, name='options have an effect')

    # 3. %option lines
    ok = [o for o in OPTS if o[0] in OPTLINE and not (o[1] and ' ' in o[1])]

    def tok(o):
        return o[0] if o[1] is None else o[0] + '=' + o[1]
    decls = PROTO.split('\n')[:-1]

    def layouts(ts):
        """ways to write option words in lines"""
        n = len(ts)
        yield '%option ' + ' '.join(ts) + '\n'
        yield '%option\t' + '\t '.join(ts) + ' \t\n'
        yield '%option ' + '   '.join(ts) + '\r\n'
        yield '%option \\\n' + ' \\\n'.join(ts) + '\n'
        yield '%option ' + ' \\\n   '.join(ts) + '\n'
        yield '%option ' + '\\\r\n '.join(x + ' ' for x in ts) + '\r\n'
        yield '%option \\\n\\\n ' + ' \\\n\\\n '.join(ts) + ' \\\n\n'
        if n > 1:
            yield ''.join('%%option %s\n' % t for t in ts)
            yield ''.join('%%option\v%s\n\n' % t for t in ts)

    def items3():
        for k in (1, 2, 3):
            for os_ in itertools.permutations(ok, k):
                if len({o[0] for o in os_}) < k:
                    continue
                if k == 3 and not ctx.thorough and not in_small(os_):
                    continue
                if not ctx.thorough and k > 1 and (costly(os_) or 'prefix' in [o[0] for o in os_[1:]]):
                    continue
                yield os_

    small3 = [('D', 'FOO'), ('format', 'c++'), ('include', 'nq:Z'), ('library', 'api:2:foo'), ('param', 'skip'), ('line', None), ('no-date', None)]

    def in_small(os_):
        return all(o in small3 for o in os_)

    def make3(os_):
        p = proto(os_)
        ba = base_args(os_)
        rs = [Req(canon(os_), p.encode(), snap=True), Req(ba + ['-no-date', '-'], p.encode(), snap=True)]
        nd = ba + ([] if ('no-date', None) in os_ else ['-no-date'])
        ts = [tok(o) for o in os_]
        ls = list(layouts(ts))
        texts = [l + p for l in ls] + [p + l for l in ls[:4]] + [p + ls[0][:-1]] + ['\ufeff' + ls[0] + p, '// x\n/* y */\n' + ls[0] + p, p.replace('\n', '\n' + ls[0], 1), p.replace('(int', '(\n' + ls[0] + 'int', 1),
                 'struct s {\n' + ls[0] + ' int x; };\n' + p, '#define x \\\n y\n' + ls[3] + p]
        if len(ts) > 1:
            texts.append('%option ' + ts[0] + '\n' + p + '%option ' + ' '.join(ts[1:]) + '\n')
        for t in texts:
            rs.append(Req(nd + ['-'], t.encode(), snap=True))
            rs.append(Req(ba + ['-ignore-options', '-no-date', '-'], t.encode(), snap=True))
        # half on the command line
        for k in range(1, len(os_)):
            a = ba + sum((spellings(o)[0] for o in os_[:k]), [])
            if not ('no-date', None) in os_:
                a.append('-no-date')
            rs.append(Req(a + ['-'], ('%option ' + ' '.join(ts[k:]) + '\n' + p).encode(), snap=True))
            rs.append(None)
        return [r for r in rs if r is not None]

    def judge3(os_, rs):
        m = True
        c = obs(rs[0], m)
        b = obs(rs[1], m)
        tag = '%d option words, exit %s' % (len(os_), c[0])
        nh = len(os_) - 1
        mid = rs[2:len(rs) - nh] if nh else rs[2:]
        for k in range(0, len(mid), 2):
            if obs(mid[k], m) != c:
                return tag, '%%option %s: not the effect of the command line options: %s instead of %s' % (' '.join(map(tok, os_)), what(mid[k]), what(rs[0]))
            if obs(mid[k + 1], m) != b:
                return tag, '-ignore-options with %%option %s: %s instead of %s' % (' '.join(map(tok, os_)), what(mid[k + 1]), what(rs[1]))
            if ('no-date', None) in os_ and (mid[k].out != rs[0].out):
                return tag, '%option no-date has another effect than -no-date'
        for r in rs[len(rs) - nh:] if nh else []:
            if obs(r, m) != c:
                return tag, 'options %s, some on the command line and some in %%option lines: %s instead of %s' % (os_, what(r), what(rs[0]))
        return '+' + tag, None
    explore(ctx, path, items3, make3, judge3, batch=4, name='%option lines')

    # 4. errors
    names = sorted({o[0] for o in OPTS if len(o[0]) > 1} | {'help', 'full-help', 'version', 'dump-templates'})
    known = set(names) | {'?', 'D', 'P', 'S'}

    def mutants(n):
        r = {n + 'x', n + '-', n[:-1], n[1:], n.upper(), n.capitalize(), n + '_', n.replace('-', '_'), n.replace('-', ''), n + ' ', ' ' + n, n[:-1] + '?', n + ':x'}
        for i in range(len(n) - 1):
            r.add(n[:i] + n[i + 1:])
            r.add(n[:i] + n[i + 1] + n[i] + n[i + 2:])
        return sorted(x for x in r if x and x not in known and x[0] not in 'DPS')
    valued = sorted({o[0] for o in VALS} | {'dump-templates'})
    bad = []
    for n in names:
        for m in mutants(n):
            for d in ('-', '--'):
                for v in ('', '=c'):
                    if m + v in known or m[1:] == '' or m[0] == '-':
                        continue
                    bad.append(([d + m + v, '-no-date', '-'], PROTO))
                    bad.append((['-', d + m + v], PROTO))
            if not re.search(r'\s', m) and n in OPTLINE:
                for v in ('', '=c'):
                    bad.append((['-no-date', '-'], '%%option %s%s\n%s' % (m, v, PROTO)))
                    bad.append((['-no-date', '-'], '%%option no-date %s%s line\n%s' % (m, v, PROTO)))
    for n in valued:
        pre = ['-', '--'] if len(n) > 1 else ['-']
        for d in pre:
            bad.append((['-no-date', '-', d + n], PROTO))              # missing value
            if len(n) > 1:
                bad.append(([d + n + '=', '-no-date', '-'], PROTO))
                bad.append((['-', d + n + '='], PROTO))
                bad.append(([d + n, '', '-no-date', '-'], PROTO))
                bad.append((['-no-date', '-', d + n, ''], PROTO))
            else:
                bad.append(([d + n, '', '-no-date', '-'], PROTO))
    for f in FLAGS + ['help', 'full-help', 'version']:
        for v in ('=', '=1', '=yes'):
            bad.append((['-' + f + v, '-'], PROTO))
            bad.append((['--' + f + v, '-'], PROTO))
    for n in sorted(OPTLINE - set(FLAGS)):
        for l in (n, n + '=', n + '= ', 'no-date ' + n, n + ' =x', n + ' line', '-' + n + '=c', n + ':c', n.upper() + '=c' if n != 'D' else 'd=x'):
            bad.append((['-no-date', '-'], '%%option %s\n%s' % (l, PROTO)))
            bad.append((['-no-date', '-'], '%s%%option %s' % (PROTO, l)))
    for f in sorted(OPTLINE & set(FLAGS)):
        for l in (f + '=', f + '=1', '-' + f, f + 'x', f.upper()):
            bad.append((['-no-date', '-'], '%%option %s\n%s' % (l, PROTO)))
    for l in ('out=x', 'P=foo', 'S=foo', 'separate', 'force', 'template=t', 'templates-path=tp', 'print-symbols', 'ast-all-symbols', 'ignore-options', 'help', 'version', 'dump-templates=x', '=', '\\', ';', 'x', '%option', '-', '--'):
        bad.append((['-no-date', '-'], '%%option %s\n%s' % (l, PROTO)))
    for v in ('x', 'C++x', 'c+', 'minimal_c', '+', 'plugins', 'cxx ', ' c', 'c,c++', 'minimal-'):
        bad.append((['-format=' + v, '-'], PROTO))
        bad.append((['-format', v, '-'], PROTO))
        if ' ' not in v:
            bad.append((['-'], '%%option format=%s\n%s' % (v, PROTO)))
    for v in ('x', 'skipp', 'ski', 'read create', 'none', 'create ', '0'):
        bad.append((['-param=' + v, '-'], PROTO))
        bad.append((['--param', v, '-'], PROTO))
        if ' ' not in v:
            bad.append((['-'], '%%option param=%s\n%s' % (v, PROTO)))
    bad += [([], PROTO), ([''], PROTO), (['-no-date'], PROTO), (['-format', 'c'], PROTO), (['-no-date', ''], PROTO), (['missing.txt'], PROTO), (['-template=missing', '-'], PROTO), (['-templates-path=missing', '-'], PROTO), (['-templates-path=.', '-'], PROTO)]

    def items4():
        for i in range(len(bad)):
            yield i

    def make4(i):
        return Req(bad[i][0], bad[i][1].encode(), snap=True)

    def judge4(i, rs):
        r = rs[0]
        if r.code is None or r.code == 0 or not r.err.strip():
            return '+', 'arguments %s, input %r must be refused with a message but: %s' % (bad[i][0], bad[i][1][:60], what(r) if r.code is not None else r.describe())
        if r.out or r.entries:
            return '+', 'arguments %s, input %r are refused but produce output' % (bad[i][0], bad[i][1][:60])
        return '+', None
    explore(ctx, path, items4, make4, judge4, name='wrong options')
    ctx.cov['rule'] = 'a case is one set of options (with all its spellings) or one wrong option; non-trivial when the canonical form succeeds, or when an error is required'
    ctx.assumptions += ['lines with the current date are masked except where -no-date is compared', 'options given twice are not compared across orders']
