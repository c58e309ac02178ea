"""G14: following the #line directives leads from every output line to its origin."""
import itertools, os, re, tempfile
from lib import build
from lib.explore import explore
from lib.server import Req, Server
from checks.g13 import names, uses, FORMATS

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of template layouts and option sets on the real generator; every template line carries its own position, and a #line interpreter checks the attribution of every output line'
NOTE = 'All sequences of up to 3 (thorough: 4) blocks out of 12 kinds (plain, keyword, multi-line, conditional, empty lines) as custom and as external template, for several symbol sets and parameter modes; all lines of the real templates, built in and external, for every format and option set.'

MARK = re.compile(rb'~([^~:]*):(\d+)~')
LINE = re.compile(rb'#line (\d+)(?: "((?:[^"\\]|\\.)*)")?$')
SYMS = [b'int foo(int a, const char *b);\nvoid bar(void);\nint *obj;\n', b'int foo(int a);\n', b'char *obj;\nint o2[3];\n',
        b'void fa(void);\nvoid fb(int n);\nint fc(const char *x, ...);\nint oa;\nint ob;\n']
# block kinds: physical lines, # is replaced with the position
BLOCKS = {
    'plain': ['x #'],
    'func': ['%%type%% %%func_symbol%%(%%args%%); #'],
    'object': ['%%obj_type%% %%obj_symbol%%; #'],
    'symbol': ['%%symbol%%; #'],
    'empty': [''],
    'plain2': ['y #@', 'y #'],
    'func2': ['%%func_symbol%% #@', '{ #'],
    'object3': ['{ #@', '%%obj_symbol%% #@', '} #'],
    'symbol2e': ['%%symbol%% #@', ''],
    'use': ['%PARAM_SKIP_USE_BEGIN%', 'u # %%func_symbol%%', '%PARAM_SKIP_END%'],
    'remove': ['%PARAM_SKIP_REMOVE_BEGIN%', 'r #', '%%func_symbol%% #@', '#', '%PARAM_SKIP_END%'],
    'other': ['%%func_symbol_unknown%% # %% @ #'],
}
KINDS = list(BLOCKS)


def layout(kinds, name, tail='\n'):
    out = []
    for k in kinds:
        for l in BLOCKS[k]:
            out.append(l.replace('#', '~%s:%d~' % (name, len(out) + 1)))
    return ('\n'.join(out) + tail).encode()


def attribution(out, own, generated, builtin=False):
    """problem or None: follow the directives"""
    cur = [own, 1]
    lines = out.split(b'\n')
    if lines and lines[-1] == b'':
        lines.pop()
    n = 0
    for i, l in enumerate(lines):
        m = LINE.match(l.rstrip(b'\r'))
        if m:
            cur[1] = int(m.group(1))
            if m.group(2) is not None:
                cur[0] = re.sub(rb'\\(.)', rb'\1', m.group(2)).decode('utf-8', 'surrogateescape')
            continue
        if l.startswith(b'#line') or l.startswith(b'# line'):
            return 'malformed directive %r' % l, n
        ms = MARK.findall(l)
        if ms:
            n += 1
        for f, no in ms:
            want = (('<built-in>/' if builtin and f not in (b'license.h',) else '') + f.decode(), int(no))
            if f == b'license.h':
                want = (own, i + 1)
            if tuple(cur) != want:
                return 'output line %d (%r) comes from line %d of %s, but is attributed to line %d of %s' % (i + 1, l[:120], want[1], want[0], cur[1], cur[0]), n
        if not ms and l.strip():
            if generated:
                n += 1
                if tuple(cur) != (own, i + 1):
                    return 'the generated line %d (%r) is attributed to line %d of %s' % (i + 1, l[:120], cur[1], cur[0]), n
            elif l.strip():
                return 'unexpected line %r' % l[:120], n
        cur[1] += 1
    return None, n


def unline(out):
    return b''.join(l for l in out.splitlines(True) if not LINE.match(l.rstrip(b'\r\n')))


def mark_all(name, text):
    out = []
    for i, l in enumerate(text.split('\n')):
        if not l:
            out.append(l)
        elif l.startswith('%PARAM_SKIP') and l.endswith('%'):
            out.append(l)
        elif l.endswith('@'):
            out.append(l[:-1] + ' ~%s:%d~@' % (name, i + 1))
        else:
            out.append(l + ' ~%s:%d~' % (name, i + 1))
    return '\n'.join(out)


def check(ctx):
    path = build.build_tool('plain')
    nm = names()
    real = {n: open(build.REPO + '/src/templates/' + n, encoding='utf-8').read() for n in nm}
    depth = 4 if ctx.thorough else 3

    # 1. custom templates
    def items():
        for n in range(1, depth + 1):
            for ks in itertools.product(range(len(KINDS)), repeat=n):
                for s in range(len(SYMS)):
                    for p in range(3) if any(KINDS[k] in ('use', 'remove', 'func') for k in ks) else (0,):
                        if n > 2 and not ctx.thorough and s in (1, 2) and p:
                            continue
                        yield ks, s, p, 0 if n > 2 else None
        for ks in itertools.product(range(len(KINDS)), repeat=2):
            for dst in (1, 2):
                yield ks, 0, 0, dst

    PAR = [[], ['-param=skip'], ['-param=create']]
    noname = re.compile(rb'\b(a|b|x|n)\b(?=[,)])')

    def make(info):
        ks, s, p, dst = info
        t = layout([KINDS[k] for k in ks], 't.txt')
        if dst is None and ks[-1] % 2 and len(ks) == 2:
            t = t[:-1]
        syms = SYMS[s]
        if p == 2:
            syms = noname.sub(b'', syms)
        a = ['-template=t.txt'] + PAR[p] + (['-out=out.h'] if dst == 1 else []) + ['-']
        if dst == 2:
            a[0] = '-template=-'
            a[-1] = 'in'
            return [Req(['-line'] + a, t, files=[(0, 'in', syms)], snap=True), Req(a, t, files=[(0, 'in', syms)], snap=True)]
        return [Req(['-line'] + a, syms, files=[(0, 't.txt', t)], snap=True), Req(a, syms, files=[(0, 't.txt', t)], snap=True)]

    def judge(info, rs):
        ks, s, p, dst = info
        w = 'custom template %s, symbols %r %s: ' % ('+'.join(KINDS[k] for k in ks), SYMS[s].decode(), PAR[p])
        if rs[0].code != rs[1].code or rs[1].code not in (0, 1):
            return '+', w + 'with -line: %s, without: %s' % (rs[0].describe(), rs[1].describe())
        if rs[0].code:
            return 'refused', None
        o = [r.out for r in rs]
        if dst == 1:
            o = [b''.join(c for k, n, c in r.entries if n == 'out.h') for r in rs]
        if dst == 2:
            o[0] = o[0].replace(b'"<STDIN>"', b'"t.txt"')
        if unline(o[0]) != o[1]:
            return '+', w + 'without the directives, the output is %r instead of %r' % (unline(o[0])[:400], o[1][:400])
        pr, n = attribution(o[0], 'out.h', False)
        if pr:
            return '+', w + pr + '; output %r' % o[0][:500]
        return ('+lines' if n else 'nothing'), None
    explore(ctx, path, items, make, judge, batch=64, name='custom templates')

    # 2. layouts as external templates
    blank = {n: 'o ~%s:1~\n' % n for n in nm}

    def items2():
        d = depth - 1
        for f in FORMATS:
            for n in range(1, d + 1):
                for ks in itertools.product(range(len(KINDS)), repeat=n):
                    for s in (0, 3):
                        for o in range(3):
                            if o and s and not ctx.thorough:
                                continue
                            yield f, ks, s, o

    OPT2 = [['-out=sub/out.x'], ['-separate', '-out=out.x', '-no-pragma-once', '-include=a.h', '-D', 'Q=1'], ['-param=skip', '-prefix=abc', '-library=foo']]

    def make2(info):
        f, ks, s, o = info
        u = [n for n in uses(f) if n != 'license.h']
        fs = [(1, 'tp', ''), (1, 'sub', '')]
        for n in nm:
            # rotate the layout, so that the files differ
            k = list(ks)
            if n in u:
                r = u.index(n) % len(k)
                k = k[r:] + k[:r]
            # the file name macros and the license are copied without substitution
            fs.append((0, 'tp/' + n, layout([KINDS[x] for x in k], n) if n in u and n != 'filename_macros.h' else blank[n]))
        a = ['-format=' + f, '-no-date', '-templates-path=tp'] + OPT2[o] + ['-']
        return [Req(['-line'] + a, SYMS[s], files=fs, snap=True), Req(a, SYMS[s], files=fs, snap=True)]

    def texts(r, o):
        if r.out:
            return {'abc.h*': r.out}
        return {n: c for k, n, c in r.entries if os.path.basename(n).startswith('out')}

    def compare_all(w, rs, builtin=False):
        if rs[0].code != rs[1].code or rs[1].code not in (0, 1):
            return '+', w + 'with -line: %s, without: %s' % (rs[0].describe(), rs[1].describe())
        if rs[0].code:
            return '+', w + rs[0].describe() + rs[0].err.decode(errors='replace')[:200]
        a, b = texts(rs[0], 0), texts(rs[1], 0)
        tot = 0
        for n in a:
            if n not in b or unline(a[n]) != b[n]:
                return '+', w + 'without the directives, the output differs'
            own = os.path.basename(n)
            if own == 'abc.h*':
                own = re.search(r'-prefix=(\w+)', w).group(1) if '-prefix' in w else 'gdo'
                own += '.hpp' if 'C++' in w.split()[0] else '.h'
            p, k = attribution(a[n], own, True, builtin)
            tot += k
            if p:
                return '+', w + n + ': ' + p
        return '+lines', None

    def judge2(info, rs):
        f, ks, s, o = info
        return compare_all('-format=%s %s, templates %s, symbols %r: ' % (f, ' '.join(OPT2[o]), '+'.join(KINDS[k] for k in ks), SYMS[s].decode()), rs)
    explore(ctx, path, items2, make2, judge2, batch=32, name='external templates')

    # 3. the real templates, every line marked
    marked = {n: mark_all(n, t) for n, t in real.items()}
    d = tempfile.mkdtemp(prefix='mt-', dir=build.scratch())
    for n in nm:
        with open(d + '/' + n, 'w', encoding='utf-8') as fh:
            fh.write(marked[n])
    vt = build.variant_tool(d, 'marked')
    tp = [(1, 'tp', '')] + [(0, 'tp/' + n, marked[n]) for n in nm]
    OPT3 = [['-separate'], ['-param=skip'], ['-prefix=abc'], ['-no-pragma-once'], ['-include=a.h', '-include=nq:B'], ['-D', 'A', '-D', 'B=1'], ['-library=foo'], ['-ignore-options']]

    def items3():
        for f in FORMATS:
            for b in (0, 1):
                for dst in ([], ['-out=out.h'], ['-out=out']):
                    for k in range(3 if not ctx.thorough else 5):
                        for c in itertools.combinations(range(len(OPT3)), k):
                            if 2 in c and k == 2 and not ctx.thorough and dst:
                                continue
                            for s in (0, 3) if not k or ctx.thorough else (0,):
                                yield f, b, dst, c, s

    def make3(info):
        f, b, dst, c, s = info
        a = ['-format=' + f, '-no-date'] + dst
        if not b:
            a.append('-templates-path=tp')
        for i in c:
            a += OPT3[i]
        fs = [(0, 'x', '')] if b else tp
        return [Req(['-line'] + a + ['-'], SYMS[s], files=fs, snap=True), Req(a + ['-'], SYMS[s], files=fs, snap=True)]

    def judge3(info, rs):
        f, b, dst, c, s = info
        return compare_all('-format=%s %s %s, %s templates: ' % (f, ' '.join(dst), ' '.join(' '.join(OPT3[i]) for i in c), 'built-in' if b else 'external'), rs, bool(b))
    explore(ctx, vt, items3, make3, judge3, batch=8, name='real templates')
    ctx.cov['rule'] = 'a case is one (template layout, symbol set, option set); non-trivial when output lines with a known origin were attributed'
    ctx.assumptions += ['the license part has no line directives and belongs to the output file', 'empty lines carry no origin']
