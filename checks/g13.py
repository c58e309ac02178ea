"""G13: dumping the templates is the identity, and external templates behave like built-in ones."""
import itertools, os, re, tempfile
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of template texts and option sets; the embedded and the run-time loaded templates are executed on the real generator (built with those texts) and compared byte by byte'
NOTE = 'All line texts up to length 3 (thorough: 4) over an alphabet of the characters the two template readers treat specially, 11 kinds of file ends, very long lines; every format with every combination of the options which touch templates.'

FORMATS = ('C', 'C++', 'plugin', 'minimal', 'minimal-C++')
PROTO = b"%option library=nq:LIB_foo\n%option include=foo.h\nint foo(int a, const char *b);\nvoid bar(void);\nint baz(int x, ...);\nint *obj;\nchar *arr[3];\n"
SIMPLE = b'int foo(int a);\nchar *bar;\n'

# what the two readers may treat specially: escapes of string literals, trigraphs, keywords, concatenation, end of line
ALPHABET = [b'a', b'7', b'%', b'@', b'\\', b'"', b'?', b'/', b'\t', b' ', b'\xc3\xa9', b'%%func_symbol%%', b'#', b'n']
MORE = [b'\r', b'\x01', b'\xff', b'\x7f', b"'", b'%%type%%', b'%%args%%', b'x', b'{', b'}', b'%s', b'\x1b', b'\x0b', b'*/', b'/*', b'//', b'u8', b'R"(', b'$', b'`', b'0', b'f']
ENDINGS = [b'', b'end', b'end\n', b'end\n\n', b'end@\n', b'end@\n\n', b'@\n', b'@\n@\n', b'%%func_symbol%%', b'%%func_symbol%%@\nlast', b'\n']


def names():
    return re.findall(r'^TEMPLATE\(\s*([^,\s]+)\s*,', open(build.REPO + '/src/list.h').read(), re.M)


def uses(fmt):
    return {'C': ('license.h', 'filename_macros.h', 'common.h', 'common.c', 'c.h', 'c.c'),
            'C++': ('license.h', 'filename_macros.h', 'common.h', 'common.c', 'cxx.hpp', 'cxx.cpp'),
            'plugin': ('license.h', 'filename_macros.h', 'common.h', 'common.c', 'plugin.h', 'plugin.c'),
            'minimal': ('license.h', 'filename_macros.h', 'minimal.h'),
            'minimal-C++': ('license.h', 'filename_macros.h', 'minimal_cxxeh.hpp')}[fmt]


def outputs(r):
    return (r.code, r.out, sorted((k, n, c) for k, n, c in r.entries if n.startswith('out.')))


def unline(x):
    return x.replace(b'"<built-in>/', b'"')


def first_diff(a, b):
    al, bl = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(itertools.zip_longest(al, bl)):
        if x != y:
            return 'line %d: %r instead of %r' % (i + 1, y if y is None else y[:200], x if x is None else x[:200])
    return ''


def compare(b, e):
    """problem or None; b: built-in result, e: external result"""
    if b.code is None or e.code is None or (b.code == 0) != (e.code == 0):
        return 'built-in: %s, external: %s %r' % (b.describe(), e.describe(), e.err[:300])
    if unline(b.out) != e.out:
        return 'the output differs from that of the built-in templates: ' + first_diff(unline(b.out), e.out)
    fb = {n: c for k, n, c in b.entries if n.startswith('out.')}
    fe = {n: c for k, n, c in e.entries if n.startswith('out.')}
    if set(fb) != set(fe):
        return 'output files %s instead of %s' % (sorted(fe), sorted(fb))
    for n in fb:
        if unline(fb[n]) != fe[n]:
            return 'the output file %s differs: %s' % (n, first_diff(unline(fb[n]), fe[n]))
    return None


def check(ctx):
    nm = names()
    path = build.build_tool('plain', fresh=True)
    src = build.REPO + '/src/templates/'
    orig = {n: open(src + n, 'rb').read() for n in nm}

    # 1. the dump of the real templates
    sv = Server(path)
    dumps = {}
    for arg in ('-dump-templates=dt', '-dump-templates=dt/', '-dump-templates=./a/b'):
        r = sv.run([arg], files=[(0, 'x', 'x')], snap=True)
        got = {n: c for k, n, c in r.entries if k == 0 and n != 'x'}
        d = {os.path.basename(n): c for n, c in got.items()}
        if r.code != 0 or set(d) != set(nm):
            ctx.violation('%s: %s, files %s' % (arg, r.describe(), sorted(d)), {'args': [arg], 'stderr': r.err.decode(errors='replace')})
        for n in nm:
            if n in d and d[n].replace(b'\r\n', b'\n') != orig[n].replace(b'\r\n', b'\n'):
                ctx.violation('%s: the dumped %s is not the template the program was built from: %s' % (arg, n, first_diff(orig[n], d[n])), {'args': [arg]})
        dumps = d
    sv.close()
    if set(dumps) != set(nm):
        return

    # 2. every format and option set with the dumped templates
    tp = [(1, 'tp', '')] + [(0, 'tp/' + n, dumps[n]) for n in nm]
    opts = [[], ['-line']]
    OPT = [['-separate', '-out=out'], ['-param=create'], ['-param=skip'], ['-prefix=abc'], ['-no-pragma-once'], ['-ignore-options'], ['-Sfoo'], ['-Pba', '-Snothing'],
           ['-library=foo', '-D A', '-include=b.h'], ['-date']]

    def items():
        lim = 3 if ctx.thorough else 2
        for f in FORMATS:
            for k in range(lim + 1):
                for c in itertools.combinations(range(len(OPT)), k):
                    if 3 in c and not ctx.thorough and len(c) > 1 and c[0] != 0:
                        continue
                    for line in (0, 1):
                        yield f, c, line

    def make(info):
        f, c, line = info
        a = ['-format=' + f] + (['-line'] if line else [])
        date = False
        for i in c:
            if OPT[i] == ['-date']:
                date = True
            else:
                a += OPT[i]
        if not date:
            a.append('-no-date')
        rq = [Req(a + ['-'], PROTO, files=[(0, 'unused', '')], snap=True)]
        for t in ('tp', 'tp/', './tp//')[:2 + (len(c) == 0)]:
            rq.append(Req(a + ['-templates-path=' + t, '-'], PROTO, files=tp, snap=True))
        return rq

    def nodate(r):
        r.out = re.sub(rb'on \d{4}-\d\d-\d\d[^\n]*|\d{4}-\d\d-\d\dT[^\n]*|\b\d\d:\d\d:\d\d\b', b'DATE', r.out)
        return r

    def judge(info, rs):
        f, c, line = info
        for e in rs[1:]:
            if any(OPT[i] == ['-date'] for i in c):
                nodate(rs[0]), nodate(e)
            p = compare(rs[0], e)
            if p:
                return '+', '-format=%s %s %s with the dumped templates: %s' % (f, [OPT[i] for i in c], '-line' if line else '', p)
        return ('+same' if rs[0].code == 0 else 'refused'), None
    explore(ctx, path, items, make, judge, batch=8, name='dumped templates')

    # 3. each external file is used, exactly for its formats
    def items3():
        for f in FORMATS:
            for n in nm:
                for sep in (0, 1):
                    yield f, n, sep

    def make3(info):
        f, n, sep = info
        fs = [(1, 'tp', '')] + [(0, 'tp/' + m, dumps[m] + (b'/* verif_marker */\n' if m == n else b'')) for m in nm]
        a = ['-format=' + f, '-no-date', '-templates-path=tp'] + (['-separate', '-out=out'] if sep else [])
        return [Req(a + ['-'], PROTO, files=fs, snap=True), Req(a + ['-'], PROTO, files=[x for x in fs if x[1] != 'tp/' + n], snap=True)]

    def judge3(info, rs):
        f, n, sep = info
        r = rs[0]
        cnt = r.out.count(b'verif_marker') + sum(c.count(b'verif_marker') for k, m, c in r.entries if m.startswith('out'))
        # the license and the file name macros are part of every output, or of none
        need = n in uses(f)
        w = '-format=%s%s, a line appended to the external %s' % (f, ' -separate' if sep else '', n)
        if r.code != 0:
            return '+', w + ': ' + r.describe()
        if need and cnt < 1:
            return '+', w + ' is not in the output'
        if not need and cnt:
            return '+', w + ' is in the output'
        if need and (rs[1].code == 0 or rs[1].code is None or not rs[1].err.strip()):
            return '+', '-format=%s: external %s missing: %s' % (f, n, rs[1].describe())
        return '+used' if need else '+unused', None
    explore(ctx, path, items3, make3, judge3, batch=4, name='use of each file')

    # 4. arbitrary template texts
    alpha = ALPHABET + MORE
    texts = [b''.join(t) for k in range(1, 4 if not ctx.thorough else 5) for t in itertools.product(ALPHABET, repeat=k)]
    texts += [b''.join(t) for t in itertools.product(alpha, repeat=2)]
    if ctx.thorough:
        texts += [b''.join(t) for t in itertools.product(alpha, repeat=3)]
    texts += [c * n for c in (b'a', b'"', b'\\', b'\xff', b'\t', b'%', b'?', b'@') for n in (79, 80, 255, 256, 1023, 1024, 4095, 4096, 4097, 9000)]
    texts += [bytes([i]) + bytes([j]) for i in range(1, 256) for j in b'07a%@"' if i != 10]
    # a text followed by CR would be a CRLF line end
    texts = sorted({t.rstrip(b'\r') for t in texts})
    # the files of a format with -separate: sources go to different output files
    groups = 4
    dirs = []
    per = 12
    chunks = [texts[i::per * groups] for i in range(per * groups)]

    def file_text(k, end):
        b = bytearray()
        for i, t in enumerate(chunks[k]):
            b += t + b'\n'
            if i % 3 == 0:
                b += b'=\n'
        # one more line after a last @
        return bytes(b) + b'=\n' + end

    def build_variant(g):
        d = tempfile.mkdtemp(prefix='tt-', dir=build.scratch())
        fs = {}
        for i, n in enumerate(nm):
            fs[n] = file_text((g * per + i) % len(chunks), ENDINGS[(g * 3 + i * (g + 1)) % len(ENDINGS)])
            with open(d + '/' + n, 'wb') as fh:
                fh.write(fs[n])
        return build.variant_tool(d, 'v%d' % g), fs
    small = [dict((n, ENDINGS[(i + j) % len(ENDINGS)]) for j, n in enumerate(nm)) for i in range(len(ENDINGS))]

    def build_small(i):
        d = tempfile.mkdtemp(prefix='ts-', dir=build.scratch())
        for n in nm:
            with open(d + '/' + n, 'wb') as fh:
                fh.write(small[i][n])
        return build.variant_tool(d, 's%d' % i), small[i]
    jobs = [lambda g=g: build_variant(g) for g in range(groups)] + [lambda i=i: build_small(i) for i in range(len(small))]
    tools = build.pmap(lambda f: f(), jobs)
    pairs = 0

    def one(t):
        tool, fs = t
        sv = Server(tool)
        res = []
        n = 0
        fl = [(1, 'tp', '')] + [(0, 'tp/' + m, c) for m, c in fs.items()]
        r = sv.run(['-dump-templates=dt'], files=[(0, 'x', '')], snap=True)
        got = {os.path.basename(m): c for k, m, c in r.entries if m.startswith('dt/')}
        for m, c in fs.items():
            n += 1
            want = {c, c + b'\n'} if not c.endswith(b'\n') or c.endswith(b'@\n') else {c}
            g = got.get(m)
            if c.endswith(b'@\n') or c.endswith(b'@'):
                continue
            if g is None or g not in want:
                res.append('template %s was built in from %r..., but is dumped differently: %s' % (m, c[-40:], first_diff(c, g or b'')))
        for f in FORMATS:
            for a in ([], ['-line'], ['-separate', '-out=out'], ['-separate', '-out=out', '-line']):
                b = sv.run(['-no-date', '-format=' + f] + a + ['-'], SIMPLE, files=[(0, 'x', '')], snap=True)
                e = sv.run(['-no-date', '-format=' + f, '-templates-path=tp'] + a + ['-'], SIMPLE, files=fl, snap=True)
                n += 1
                if b.code != 0:
                    res.append('-format=%s: %s %r' % (f, b.describe(), b.err[:200]))
                p = compare(b, e)
                if p:
                    res.append('-format=%s %s: templates ending in %r: %s' % (f, ' '.join(a), {m: fs[m][-30:] for m in uses(f)}, p))
        sv.close()
        return n, res
    for (n, res), t in zip(build.pmap(one, tools), tools):
        pairs += n
        for p in res[:6]:
            ctx.violation(p, {'templates': {m: c[-200:].decode('utf-8', 'backslashreplace') for m, c in t[1].items()}})
    ctx.add('evaluations', pairs)
    ctx.add('distinct_nontrivial', len(texts))
    ctx.cov['template_texts'] = len(texts)
    ctx.cov['tools_built'] = len(tools)
    ctx.cov['rule'] = 'a case is one (format, option set), one (format, appended or missing template file), or one template line text embedded in a tool built with it'
    ctx.assumptions += ['template texts have no NUL bytes and LF line ends', 'a file that ends without a newline, may be dumped with one; one that ends inside a concatenated line has no defined dump']
