"""G17: defines, includes, library names and include guards appear as documented."""
import itertools, os, re, shutil, subprocess, tempfile
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'bounded-exhaustive enumeration of option values (token sequences) and of option orders, on the command line and in the input; the real preprocessor evaluates the generated files'
NOTE = 'Library, include and define values of up to 3-4 tokens; all orders of up to 3 (thorough: 4) options out of 8; all file name shapes for the include guard; every format, single and separate.'

PROTO = b'int foo(int a);\nvoid bar(void);\nint *obj;\n'
STR = re.compile(r'\s*(?:L|u8|u|U)?"((?:[^"\\\n]|\\.)*)"')
_dir = None


def wdir():
    """one scratch directory per worker process"""
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix='g17-', dir=build.scratch()))
    return _dir[1]


def strings(text):
    """the concatenation of the string literals, or None when the text is something else"""
    o, out = 0, []
    text = text.strip()
    while o < len(text):
        m = STR.match(text, o)
        if not m:
            return None
        out.append(m.group(1))
        o = m.end()
        while o < len(text) and text[o].isspace():
            o += 1
    return ''.join(out) if out else None


def squeeze(t):
    return re.sub(r'\s+', '', t)


def cpp(src, lang='c', opts=(), cwd=None):
    p = subprocess.run(['gcc', '-E', '-P', '-w', '-x', lang] + list(opts) + ['-'], input=src, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode('utf-8', 'surrogateescape'), p.stderr.decode(errors='replace')


def expected_library(s):
    """what the documentation says: ('error',) or ('text', expansion)"""
    l = s.lower()
    quoted = len(s) >= 2 and s.startswith('"') and s.endswith('"')

    def q(x):
        return x if len(x) >= 2 and x[0] == '"' and x[-1] == '"' else '"' + x + '"'
    if l.startswith('nq:') and len(s) > 3:
        return 'text', s[3:]
    if l.startswith('ext:') and len(s) > 4:
        return 'text', q(s[4:]) + ' ".so"'
    if l.startswith('api:') and len(s) > 4:
        r = s[4:]
        if ':' not in r:
            return 'error', None
        n, name = r.split(':', 1)
        if not n or not name:
            return 'error', None
        return 'api', (n, name)
    return 'text', q(s)


def check(ctx):
    path = build.build_tool('plain')
    build.scratch()

    # 1. library names
    TOK = ['nq:', 'ext:', 'api:', 'NQ:', 'Ext:', '1', '2.0', ':', 'foo', '"', '.so', 'L', 'a', 'n', 'e', '-', '%d', '\\n', 'lib/']

    def items():
        for n in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
            for t in itertools.product(range(len(TOK)) if n < 3 or ctx.thorough else (0, 1, 2, 5, 7, 8, 9, 11, 14, 15, 16, 17), repeat=n):
                for opt in (0, 1) if n < 3 else (0,):
                    yield t, opt
        for i in range(32, 127):
            for f in ('%c', '%cx', 'x%c', 'x%cy', 'nq:%c', 'api:%c:x', 'api:1:%c', 'ext:%c'):
                yield (f, i), 0

    def value(t):
        return t[0] % t[1] if isinstance(t[0], str) else ''.join(TOK[i] for i in t)

    def make(info):
        t, opt = info
        s = value(t)
        if opt:
            return Req(['-no-date', '-'], ('%%option library=%s\n' % s).encode() + PROTO)
        return Req(['-no-date', '-library=' + s, '-'], PROTO)

    def judge(info, rs):
        t, opt = info
        s, r = value(t), rs[0]
        if s.endswith('\\'):
            return 'malformed', None
        w = '-library=%s%s: ' % (s, ' (%option)' if opt else '')
        if opt and re.search(r'\s', s):
            return 'spaces', None
        kind, exp = expected_library(s)
        if kind == 'error':
            if r.code in (0, None) or not r.err.strip():
                return '+', w + 'API number or name is missing, but: ' + r.describe()
            return '+refused', None
        if r.code != 0:
            return '+', w + r.describe() + ' %r' % r.err[:200]
        if kind == 'api':
            n, name = exp
            if not re.fullmatch(r'[\w.]+', n) or not re.fullmatch(r'[\w./-]+', name):
                # not a name that a macro can make into a string: must not pass silently
                if b'GDO_DEFAULT_LIB' not in r.out:
                    return '+', w + 'no library name in the output'
                return 'malformed', None
            want = '"lib%s.so.%s"' % (name, n)
        else:
            want = exp
        rc, out, err = cpp(r.out + b'\n#ifdef GDO_DEFAULT_LIB\n@@{GDO_DEFAULT_LIB}@@\n#endif\n#ifdef GDO_DEFAULT_LIBA\n@@A{GDO_DEFAULT_LIBA}@@\n#endif\n#ifdef GDO_DEFAULT_LIBW\n@@W{GDO_DEFAULT_LIBW}@@\n#endif\n', opts=['-DGDO_DISABLE_ALIASING'])
        m = re.search(r'@@\{(.*?)\}?@@', out, re.S)
        if not m:
            if rc or strings(want) is None:
                return 'does not compile', None
            return '+', w + 'no default library in the generated code'
        got = m.group(1)
        a, b = strings(want), strings(got)
        if want.count('"') % 2:
            same = b is None  # a broken literal does not compile
        elif a is None or b is None:
            same = squeeze(got) == squeeze(want)
        else:
            same = a == b
        if not same:
            return '+', w + 'the default library is %r instead of %r' % (got, want)
        # the narrow and the wide variant
        va = re.search(r'@@A\{(.*?)\}?@@', out, re.S)
        vw = re.search(r'@@W\{(.*?)\}?@@', out, re.S)
        if not va or not vw:
            return '+', w + 'GDO_DEFAULT_LIBA or GDO_DEFAULT_LIBW is missing'
        if squeeze(va.group(1)) != squeeze(got):
            return '+', w + 'GDO_DEFAULT_LIBA is %r, GDO_DEFAULT_LIB is %r' % (va.group(1), got)
        gw = vw.group(1)
        if kind == 'text' and s.lower().startswith('nq:') and len(s) > 3:
            if squeeze(gw) != squeeze(want):
                return '+', w + 'GDO_DEFAULT_LIBW is %r instead of %r' % (gw, want)
            return '+library', None
        core = s[4:] if s.lower().startswith('ext:') and len(s) > 4 else s
        if kind == 'text' and len(core) >= 3 and core.startswith('L"') and core.endswith('"'):
            a = strings(core + (' ".so"' if core is not s else ''))       # quoted with L already
        elif want.count('"') % 2:
            return '+library', None
        b = strings(gw)
        if a is None:
            if b is not None:
                return '+', w + 'GDO_DEFAULT_LIBW is %r, GDO_DEFAULT_LIBA is %r' % (gw, got)
        elif a != b or not re.match(r'\s*L"', gw):
            return '+', w + 'GDO_DEFAULT_LIBW is %r, not the wide string of %r' % (gw, a)
        return '+library', None
    explore(ctx, path, items, make, judge, batch=16, name='library names')

    # 2. includes
    ITOK = ['nq:', 'NQ:', '<', '>', '"', 'foo.h', 'a/b.hpp', 'x', ' ', '\\', '%%', '//', '.']

    def items2():
        for n in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
            for t in itertools.product(range(len(ITOK)), repeat=n):
                for opt in (0, 1):
                    if n > 2 and opt and not ctx.thorough:
                        continue
                    yield t, opt

    def make2(info):
        t, opt = info
        s = ''.join(ITOK[i] for i in t)
        a = ['-no-date', '-format=' + ('minimal', 'C', 'C++', 'plugin', 'minimal-C++')[sum(t) % 5]]
        if opt:
            return Req(a + ['-'], ('%%option include=%s include=last.h\n' % s).encode() + PROTO)
        return Req(a + ['-include=first.h', '-include=' + s, '-include=last.h', '-'], PROTO)

    def judge2(info, rs):
        t, opt = info
        s, r = ''.join(ITOK[i] for i in t), rs[0]
        w = '-include=%s%s: ' % (s, ' (%option)' if opt else '')
        if opt and ' ' in s:
            return 'spaces', None
        if r.code != 0:
            return '+', w + r.describe() + ' %r' % r.err[:200]
        if s.lower().startswith('nq:') and len(s) > 3:
            exp = s[3:]
        elif len(s) >= 2 and (s[0] + s[-1] in ('<>', '""')):
            exp = s
        else:
            exp = '"' + s + '"'
        lines = [l for l in r.out.decode('utf-8', 'surrogateescape').split('\n')]
        inc = [re.sub(r'^\s*#\s*include\s?', '', l) for l in lines if re.match(r'\s*#\s*include', l)]
        want = ([] if opt else ['"first.h"']) + [exp, '"last.h"']
        try:
            i = inc.index(want[0])
        except ValueError:
            return '+', w + 'no line "#include %s"' % want[0]
        if [x.rstrip() for x in inc[i:i + len(want)]] != [x.rstrip() for x in want]:
            return '+', w + 'the include lines are %r instead of %r' % (inc[i:i + len(want)], want)
        if inc.count('"last.h"') != (2 if exp == '"last.h"' else 1):
            return '+', w + 'included more than once'
        return '+include', None
    explore(ctx, path, items2, make2, judge2, batch=64, name='includes')

    # 3. definitions: several macros per run
    VTOK = ['1', 'A', ' ', '"', '(', ')', '+', '=', ',', '\\', '-', '//', '#', '0x1F', "'c'", '.']
    per = 40
    vals = [''.join(t) for n in (0, 1, 2, 3) for t in itertools.product(VTOK, repeat=n)]
    if ctx.thorough:
        vals += [''.join(t) for t in itertools.product(VTOK, repeat=4)]
    vals = [v for v in dict.fromkeys(vals) if not v.rstrip().endswith('\\')]
    FORMS = ['M%d=%s', ' M%d =%s', 'M%d(x,y)=%s']

    def items3():
        for form in range(len(FORMS)):
            for i in range(0, len(vals), per):
                yield form, i, 0
                if form == 0:
                    yield form, i, 1
        for i in range(per):
            yield 'bare', i, i % 2

    def make3(info):
        form, i, opt = info
        f = ('minimal', 'C', 'C++', 'plugin', 'minimal-C++')[(i // per) % 5]
        if form == 'bare':
            defs = ['B%d' % k for k in range(i)] + ['LAST=']
        else:
            defs = [FORMS[form] % (k, v) for k, v in enumerate(vals[i:i + per])]
        if opt:
            defs = [d for d in defs if not re.search(r'\s', d)]
            return Req(['-no-date', '-format=' + f, '-'], ''.join('%%option D=%s\n' % d for d in defs).encode() + PROTO)
        return Req(['-no-date', '-format=' + f] + [x for k, d in enumerate(defs) for x in (['-D', d] if k % 2 else ['-D' + d])] + ['-'], PROTO)

    def judge3(info, rs):
        form, i, opt = info
        r = rs[0]
        w = 'definitions %s %d%s: ' % (form if isinstance(form, str) else FORMS[form], i, ' (%option)' if opt else '')
        if r.code != 0:
            return '+', w + r.describe() + ' %r' % r.err[:200]
        # the definitions alone: gcc stops at nothing in directives
        rc, out, err = cpp(b''.join(l + b'\n' for l in r.out.split(b'\n') if re.match(rb'\s*#\s*(ifndef|define|endif|if|else|elif|undef)\b', l)), opts=['-dM'])
        d = {}
        for l in out.split('\n'):
            m = re.match(r'#define ([MB]\d+|LAST)(\([^)]*\))? ?(.*)$', l)
            if m:
                d[m.group(1)] = (m.group(2), m.group(3))
        if form == 'bare':
            want = {'B%d' % k: (None, '') for k in range(i)}
            want['LAST'] = (None, '')
        else:
            want = {'M%d' % k: ('(x,y)' if form == 2 else None, v) for k, v in enumerate(vals[i:i + per]) if not (opt and re.search(r'\s', FORMS[form] % (k, v)))}
        for k, (args, v) in want.items():
            # a comment in the value ends it; the preprocessor collapses spaces
            v = v.split('//')[0]
            if v.count('"') % 2 or '#' in v and args or v.strip().startswith('##') or v.strip().endswith('##'):
                continue
            if k not in d:
                return '+', w + 'macro %s (%r) is not defined' % (k, v)
            if (d[k][0] or '').replace(' ', '') != (args or '') or squeeze(d[k][1]) != squeeze(v) or re.sub(r'\s+', ' ', d[k][1].strip()) != re.sub(r'\s+', ' ', v.strip()):
                return '+', w + 'macro %s is %r instead of %r' % (k, d[k], (args, v))
        return '+definitions', None
    explore(ctx, path, items3, make3, judge3, batch=4, name='definitions')

    # 4. orders: definitions are visible in the included headers and in all code, in the given order
    OPTS = [('D', 'A=1'), ('D', 'B=A'), ('D', 'C'), ('include', 'm1.h'), ('include', '<m2.h>'), ('include', 'nq:"m3.h"'), ('include', 'm1.h'), ('library', 'libdef.so')]
    FM = ['C', 'C++', 'plugin', 'minimal', 'minimal-C++']

    def items4():
        n = 4 if ctx.thorough else 3
        for k in range(1, n + 1):
            for seq in itertools.permutations(range(len(OPTS)), k):
                for place in range(1 << k) if k < 3 or ctx.thorough else (0, (1 << k) - 1, 2):
                    for f in range(len(FM)):
                        if k == n and f != sum(seq) % len(FM):
                            continue
                        yield seq, place, f, (seq[0] + k + place) % 2

    def make4(info):
        seq, place, f, sep = info
        cl, op = [], []
        for i, o in enumerate(seq):
            (op if place >> i & 1 else cl).append(OPTS[o])
        sep = sep and f < 3
        a = ['-no-date', '-format=' + FM[f], '-out=g.' + ('hpp' if 'C++' in FM[f] else 'h')] + (['-separate'] if sep else [])
        a += [('-D' + v) if k == 'D' else '-%s=%s' % (k, v) for k, v in cl]
        return Req(a + ['-'], ''.join('%%option %s=%s\n' % o for o in op).encode() + PROTO, files=[(0, 'x', '')], snap=True)

    def judge4(info, rs):
        seq, place, f, sep = info
        r = rs[0]
        w = '-format=%s, options %s (mask %d of them in %%option lines)%s: ' % (FM[f], [OPTS[o] for o in seq], place, ' -separate' if sep and f < 3 else '')
        if r.code != 0:
            return '+', w + r.describe() + ' %r' % r.err[:200]
        d = wdir()
        # options of the input come after those of the command line
        order = [OPTS[o] for i, o in enumerate(seq) if not place >> i & 1] + [OPTS[o] for i, o in enumerate(seq) if place >> i & 1]
        for i in (1, 2, 3):
            with open('%s/m%d.h' % (d, i), 'w') as fh:
                fh.write('MARK_%d\n#ifdef A\nA_SEEN_%d\n#endif\n#ifdef B\nB_SEEN_%d\n#endif\n#ifdef C\nC_SEEN_%d\n#endif\n' % (i, i, i, i))
        files = {n: c for k, n, c in r.entries if n.startswith('g.')}
        want_inc = [re.search(r'm(\d)', v).group(1) for k, v in order if k == 'include']
        defs = {v[0] for k, v in order if k == 'D'}
        for n, c in files.items():
            with open(d + '/' + n, 'wb') as fh:
                fh.write(c)
        for n in files:
            body = n.endswith('.c') or n.endswith('.cpp')
            rc, out, err = cpp(('#include "%s"\n@@END A B C\n' % n).encode(), 'c++' if 'C++' in FM[f] else 'c', ['-I' + d], d)
            if rc:
                return '+', w + n + ' is refused by the preprocessor: ' + err[:200]
            marks = re.findall(r'MARK_(\d)', out)
            if marks != want_inc:
                return '+', w + '%s: headers %s are included instead of %s' % (n, marks, want_inc)
            if marks:
                last = out.rindex('MARK_')
                first = re.search(r'\b(foo|bar|obj|GDO_\w*foo)\b', out)
                if first and first.start() < last:
                    return '+', w + n + ': symbols are declared before the included headers'
            for x in 'ABC':
                for i in set(marks):
                    if ('%s_SEEN_%s' % (x, i) in out) != (x in defs):
                        return '+', w + '%s: macro %s is %sdefined in the included header %s' % (n, x, '' if x not in defs else 'not ', i)
            end = out[out.index('@@END') + 5:].split()
            exp = ['1'] if 'A' in defs else ['A']
            exp += (['1'] if 'A' in defs else ['A']) if 'B' in defs else ['B']
            exp += [] if 'C' in defs else ['C']
            if end != exp:
                return '+', w + '%s: "A B C" expands to %r instead of %r' % (n, end, exp)
        return '+order', None
    explore(ctx, path, items4, make4, judge4, batch=8, name='orders')

    # 5. include guards
    NAMES = ['x.h', 'x', 'X.H', 'a-b.h', 'a b.h', '1.h', '.h', 'a.b.c.hpp', 'd/x.h', 'd/1-2.h', 'x+y.h', 'x@y.h', '\u00e9.h', "it's.h", 'a,b.h', '(x).h', 'x#y.h', 'long_' * 30 + '.h', '_.h', '__x__.h', 'if.h', '$x.h', 'a&b.h', 'x=y.h', '~.h', '%%type%%.h', 'x;y.h']

    def items5():
        for n in range(len(NAMES)):
            for f in range(len(FM)):
                for g in (0, 1):
                    for p in ('', 'ab', 'Mixed_1'):
                        if p and (f == 1 or f == 2) and not ctx.thorough:
                            continue
                        yield n, f, g, p

    def make5(info):
        n, f, g, p = info
        a = ['-no-date', '-format=' + FM[f], '-out=' + NAMES[n]] + (['-no-pragma-once'] if g else []) + (['-prefix=' + p] if p else [])
        return Req(a + ['-'], PROTO, files=[(1, 'd', '')], snap=True)

    def judge5(info, rs):
        n, f, g, p = info
        r = rs[0]
        w = '-format=%s -out=%s%s%s: ' % (FM[f], NAMES[n], ' -no-pragma-once' if g else '', ' -prefix=' + p if p else '')
        fs = {x: c for k, x, c in r.entries if k == 0}
        if r.code != 0 or set(fs) != {NAMES[n]}:
            return '+', w + r.describe() + ' %r, files %s' % (r.err[:200], sorted(fs))
        c = fs[NAMES[n]]
        if (b'#pragma once' in c) == bool(g):
            return '+', w + ('has' if g else 'does not have') + ' a #pragma once'
        d = wdir()
        base = os.path.basename(NAMES[n])
        with open(d + '/' + base, 'wb') as fh:
            fh.write(c)
        cxx = 'C++' in FM[f]
        ms = {}
        for k in (1, 2):
            pr = subprocess.run(['gcc', '-E', '-P', '-x', 'c++' if cxx else 'c', '-pedantic-errors', '-I' + d, '-'], input=('#include "%s"\n' % base).encode() * k + b'@@END\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
            ms[k] = (pr.returncode, pr.stdout, pr.stderr)
        os.unlink(d + '/' + base)
        if ms[1][0] or ms[2][0]:
            return '+', w + 'refused by the preprocessor: %r' % (ms[1][2] or ms[2][2])[:300]
        if ms[1][1] != ms[2][1]:
            return '+', w + 'a second inclusion is not empty'
        if len(ms[1][1]) < 500:
            return '+', w + 'the first inclusion is empty'
        return '+guard', None
    explore(ctx, path, items5, make5, judge5, batch=4, name='include guards')
    ctx.cov['rule'] = 'a case is one option value, option order, or file name, evaluated by the real preprocessor; malformed values which cannot be evaluated are trivial'
    ctx.assumptions += ['text of library names is put between the quotation marks as it is: escape sequences are those of C']
