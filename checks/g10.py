"""G10: a custom prefix renames every public name and nothing else."""
import itertools, os, re, subprocess
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of formats x options x prefixes, token by token comparison of the prefixed with the default output; compilation, linking and execution of every pair of differently prefixed headers'
NOTE = 'All formats, parameter modes, single/separate, guard, #line and define variants x 12 prefixes x 3 symbol sets with names chosen to collide with the prefix. All ordered pairs of formats in one program.'

FORMATS = ['C', 'C++', 'minimal', 'minimal-C++', 'plugin']
PFX = ['My', 'abc', 'XY', 'a_b', 'x9', '_p', 'g', 'gdo2', 'Gd', 'a-b.c', 'gdo_gdo', 'GDO_']
SETS = ['int gdo_usr(int gdo_usrarg, const char *GDO_usr2);\nGDO_usrtype *_gdo_usr3(void);\nint usr_gdo_x;\ngdo_usrt GDO_usr4[3];\n',
        'void GDO_usr_gdo(gdo_usrt x, ...);\nint gdo_gdo_usr(void (*gdo_usrcb)(gdo_usrt));\nvoid (*gdo_usrfp)(GDO_usrtype);\n',
        'int usrobj;\n']
USR = sorted(set(re.findall(r'\w*usr\w*', ''.join(SETS))) | {'gdo_usrdef', 'GDO_usrval', 'usr_lib_gdo'}, key=len, reverse=True)
TOK = re.compile(r'[A-Za-z0-9_]+|[^A-Za-z0-9_]+')
HEAD = re.compile(r'(_*)(gdo|GDO)(_|$)')


def forms(p):
    s = re.sub(r'[^A-Za-z0-9]', '_', p)
    return s.lower(), s.upper()


def mapped(head, lo, up, d):
    """the prefixed spellings of a name that is not the user's"""
    m = HEAD.match(head)
    if not m:
        return [head]
    return [m.group(1) + (lo if m.group(2) == 'gdo' else up) + head[m.end(2):]]


def expected(t, lo, up, p):
    """acceptable tokens for the default token t"""
    if t in USR:
        return [t]
    for u in USR:
        i = t.find(u)
        if i >= 0 and t[i + len(u):][:1] not in ('', '_'):
            continue
        if i > 0 and t[i - 1] == '_':
            return [mapped(t[:i], lo, up, 0)[0] + t[i:]]
        if i == 0:
            return [t]
    r = mapped(t, lo, up, 0)
    if t == 'gdo':
        r.append(p)         # the name of the header
    if re.match(r'_GDO_GDO_H(PP)?_$', t):
        r.append(t.replace('GDO', up))
    return r


def check(ctx):
    path = build.build_tool('plain')
    extra = [[], ['-DGDO_COMMON', '-line', '-D', 'gdo_usrdef=GDO_usrval', '-include', 'gdo_usr.h', '-library=api:1:usr_lib_gdo'], ['-no-pragma-once', '-library=usr_lib_gdo.so']]

    def items():
        for f in FORMATS:
            for s in range(len(SETS)):
                for mode in ('read', 'skip', 'create'):
                    if mode == 'create' and s != 2:
                        continue
                    for sep in (0, 1, 2):
                        for e in range(len(extra)):
                            big = f in ('C', 'C++')
                            if big and not ctx.thorough and (e != (s + sep) % 3 or (sep == 1 and mode != 'read')):
                                continue
                            yield f, s, mode, sep, e

    def prefixes(info):
        if ctx.thorough or info[0] not in ('C', 'C++'):
            return PFX
        k = (info[1] + info[3] + len(info[2])) % 4
        return PFX[k::4] + ['My']

    def make(info):
        f, s, mode, sep, e = info
        rs = []
        for p in [None] + prefixes(info):
            a = ['-format=' + f, '-param=' + mode, '-no-date'] + (['-prefix=' + p] if p else []) + [x for x in extra[e] if x != '-DGDO_COMMON']
            if sep:
                a += ['-out=usr', '-separate'] if sep == 2 else ['-out=usr.h']
            rs.append(Req(a + ['-'], SETS[s].encode(), snap=True))
        return rs

    def texts(r):
        return [('stdout', r.out)] + sorted((n, c) for k, n, c in r.entries)

    def judge(info, rs):
        w0 = '-format=%s -param=%s %s %s, symbols %r' % (info[0], info[2], ['to standard output', '-out', '-separate'][info[3]], extra[info[4]], SETS[info[1]])
        if rs[0].code:
            return 'x', '%s: %s' % (w0, rs[0].err[:200])
        d = texts(rs[0])
        for p, r in zip(prefixes(info), rs[1:]):
            w = '%s -prefix=%s' % (w0, p)
            if r.code:
                return 'x', '%s: %s %s' % (w, r.describe(), r.err[:200])
            q = texts(r)
            if [x[0] for x in d] != [x[0] for x in q]:
                return 'x', '%s: other files' % w
            lo, up = forms(p)
            for (n, a), (_, b) in zip(d, q):
                ta, tb = TOK.findall(a.decode('latin-1')), tokens_like(b.decode('latin-1'), p)
                for i, x in enumerate(ta):
                    ok = expected(x, lo, up, p) if x[0].isalnum() or x[0] == '_' else [x]
                    if i >= len(tb) or tb[i] not in ok:
                        return 'x', '%s: `%s\' became `%s\' instead of `%s\' in: %s' % (w, x, tb[i] if i < len(tb) else 'nothing', ok[0], ''.join(ta[max(0, i - 10):i + 10]))
                if len(tb) != len(ta):
                    return 'x', '%s: additional text at the end' % w
        return '+' + info[0], None

    def tokens_like(t, p):
        if re.match(r'\w+\Z', p):
            return TOK.findall(t)
        # the prefix itself may show up unchanged in the name of the header
        return TOK.findall(t.replace(p, re.sub(r'\W', '_', p).lower()))
    explore(ctx, path, items, make, judge, batch=1, name='token by token')

    # two prefixed headers in one program
    d = build.scratch() + '/g10'
    os.makedirs(d, exist_ok=True)
    for k in (1, 2):
        with open('%s/l%d.c' % (d, k), 'w') as fh:
            fh.write('int foo%d(int a) { return a + %d; } int obj%d = %d; int same(int a) { return a * %d; }' % (k, k * 10, k, k * 100, k + 1))
        build.run(['gcc', '-shared', '-fPIC', '-o', '%s/l%d.so' % (d, k), '%s/l%d.c' % (d, k)])
    sv = Server(path)

    def gen(f, p, k, aliased):
        t = 'int foo%d(int a);\nint obj%d;\n' % (k, k) + ('' if aliased else 'int same(int a);\n')
        r = sv.run(['-format=' + f, '-prefix=' + p, '-no-date', '-'], t.encode())
        if r.code:
            ctx.violation('-format=%s -prefix=%s: %s' % (f, p, r.err[:200]), {})
        return r.out.decode('latin-1')
    LOAD = {'C': 'if (!%(l)s_load_lib_name_and_symbols("%(d)s/l%(k)d.so")) return %(k)d1;',
            'C++': '%(l)s::dl ld%(k)d("%(d)s/l%(k)d.so"); if (!ld%(k)d.load() || !ld%(k)d.load_all_symbols()) return %(k)d1;',
            'minimal': 'if (%(l)s_load_library_and_symbols("%(d)s/l%(k)d.so")) return %(k)d1;',
            'minimal-C++': '%(l)s::load_library_and_symbols("%(d)s/l%(k)d.so");',
            'plugin': 'const char *n%(k)d = "%(d)s/l%(k)d.so"; %(l)s_plugin_t *pl%(k)d = %(l)s_load_plugins(&n%(k)d, 1); if (!pl%(k)d) return %(k)d1;'}
    FREE = {'C': 'if (!%(l)s_free_lib()) return %(k)d3;', 'C++': 'if (!ld%(k)d.free()) return %(k)d3;', 'minimal': '%(l)s_free_library();', 'minimal-C++': '%(l)s::free_library();', 'plugin': '%(l)s_release_plugins(pl%(k)d);'}
    CALL = {'plugin': 'if (pl%(k)d->list[0].ptr.foo%(k)d(1) != 1 + %(k)d * 10 || *pl%(k)d->list[0].ptr.obj%(k)d != %(k)d * 100) return %(k)d2;'}
    CALLD = 'if (foo%(k)d(1) != 1 + %(k)d * 10 || obj%(k)d != %(k)d * 100) return %(k)d2;'
    RAW = {'C': 'if (%(u)s_RAWPTR_same(5) != 5 * (%(k)d + 1)) return %(k)d4;', 'C++': 'if (%(u)s_RAWPTR_same(5) != 5 * (%(k)d + 1)) return %(k)d4;', 'plugin': 'if (pl%(k)d->list[0].ptr.same(5) != 5 * (%(k)d + 1)) return %(k)d4;'}
    progs = []
    for f1, f2 in itertools.product(FORMATS, repeat=2):
        for p1, p2 in (('my', 'other'), ('gdo', 'gdo2')) if ctx.thorough or f1 == f2 else (('gdo', 'My'),):
            for aliased in (True, False):
                for cxx in (False, True):
                    if not cxx and ('C++' in f1 or 'C++' in f2):
                        continue
                    progs.append((f1, f2, p1, p2, aliased, cxx))
    cache = {}
    for f1, f2, p1, p2, al, cxx in progs:
        for f, p, k in ((f1, p1, 1), (f2, p2, 2)):
            if (f, p, k, al) not in cache:
                cache[f, p, k, al] = gen(f, p, k, al)
    sv.close()

    def one(x):
        i, (f1, f2, p1, p2, al, cxx) = x
        h = '%s/%d' % (d, i)
        body = ''
        pre = ''
        end = ''
        for f, p, k in ((f1, p1, 1), (f2, p2, 2)):
            lo, up = forms(p)
            v = {'l': lo, 'u': up, 'k': k, 'd': d}
            with open('%s-%d.h' % (h, k), 'w') as fh:
                fh.write(cache[f, p, k, al])
            pre += '#define %s_STATIC\n' % up if i % 2 and not cxx else ''
            pre += '' if al else '#define %s_DISABLE_ALIASING\n' % up
            pre += '#include "%s-%d.h"\n' % (h, k)
            body += LOAD[f] % v + '\n'
            c = CALL.get(f, CALLD if al else '') % v
            end += c + '\n' + ('' if al else RAW.get(f, '') % v + '\n')
        fr = ''
        for f, p, k in ((f1, p1, 1), (f2, p2, 2)):
            lo, up = forms(p)
            v = {'l': lo, 'u': up, 'k': k, 'd': d}
            fr += FREE[f] % v + '\n'
            if k == 1:
                f, k = f2, 2
                lo, up = forms(p2)
                v = {'l': lo, 'u': up, 'k': k, 'd': d}
                fr += (CALL.get(f, CALLD if al else '') % v) + '\n'     # the other library is not affected
        src = h + ('.cpp' if cxx else '.c')
        with open(src, 'w') as fh:
            fh.write('#define _GNU_SOURCE\n' * (not cxx) + pre + 'int main(void) {\n' + body + end + fr + 'return 0; }\n')
        p = subprocess.run(['g++', '-std=c++11', '-w', '-O0', '-o', h, src, '-ldl'] if cxx else ['gcc', '-std=c11', '-w', '-O0', '-o', h, src, '-ldl'], capture_output=True, text=True)
        if p.returncode:
            return 'does not compile: ' + '; '.join([l for l in p.stderr.splitlines() if 'error' in l or 'multiple' in l][:3])
        p = subprocess.run([h], capture_output=True, text=True, timeout=60)
        os.unlink(h)
        return None if p.returncode == 0 else 'program ends with %d %s' % (p.returncode, p.stderr[:200])
    for x, r in zip(progs, build.pmap(one, list(enumerate(progs)))):
        ctx.add('evaluations')
        ctx.add('two_header_programs')
        if r:
            f1, f2, p1, p2, al, cxx = x
            ctx.violation('-format=%s -prefix=%s and -format=%s -prefix=%s in one %s program, aliases %s: %s' % (f1, p1, f2, p2, 'C++' if cxx else 'C', 'on' if al else 'off', r), {'formats': [f1, f2], 'prefixes': [p1, p2], 'result': r})
    ctx.cov['rule'] = 'a case is one combination of format and options compared under all prefixes, or one program with two headers'
    ctx.assumptions += ['prefixes that begin with a digit give no valid names and are not considered']
