"""G18: library file name macros and default-library macros on every platform."""
import itertools, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from lib import build, mc

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of platforms, library names, API numbers and definitions of the default-library macros; the real preprocessor and compiler evaluate the generated files'
NOTE = 'Platforms are simulated by their predefined macros (with own system headers where the host has none). 10 platform variants x every format x all combinations of the default-library macros; make_libname() is compiled and run per platform.'

H = build.VERIF + '/harness/'
WIN = ['-include', H + 'win/pre.h', '-I' + H + 'win']
PLAT = {
    'linux': (['-D_GNU_SOURCE'], 'elf', False),
    'freebsd': (['-include', H + 'plat/freebsd.h'], 'elf', False),
    'android': (['-include', H + 'plat/android.h'], 'android', False),
    'apple': (['-include', H + 'plat/apple.h'], 'apple', False),
    'aix64': (['-include', H + 'plat/aix.h', '-I' + H + 'plat/aix', '-D__64BIT__'], 'aix64', False),
    'aix64-gcc': (['-include', H + 'plat/aix.h', '-I' + H + 'plat/aix', '-U__64BIT__'], 'aix64', False),
    'aix32': (['-include', H + 'plat/aix32.h', '-I' + H + 'plat/aix', '-U__64BIT__'], 'aix32', False),
    'apple-unicode': (['-include', H + 'plat/apple.h', '-D_UNICODE', '-DUNICODE'], 'apple', False),
    'linux-unicode': (['-D_GNU_SOURCE', '-D_UNICODE', '-DUNICODE'], 'elf', False),
}
for _m in (0, 1):
    for _u in (0, 1):
        for _d in (0, 1):
            PLAT['windows' + '-mingw' * _m + '-unicode' * _u + '-dlfcn' * _d] = (
                WIN + ['-D__MINGW32__'] * _m + ['-D_UNICODE', '-DUNICODE'] * _u + ['-D%s_USE_DLOPEN'] * _d, 'mingw' if _m else 'msvc', bool(_u and not _d))
EXT = {'elf': '.so', 'android': '.so', 'apple': '.dylib', 'aix64': '.a', 'aix32': '.a', 'mingw': '.dll', 'msvc': '.dll'}
FMT = {'elf': 'lib%s.so.%s', 'android': 'lib%s.so', 'apple': 'lib%s.%s.dylib', 'aix64': 'lib%s.a(shr_64.o)', 'aix32': 'lib%s.a(shr.o)', 'mingw': 'lib%s-%s.dll', 'msvc': '%s-%s.dll'}
NAMES = ['foo', 'z', 'Foo2', 'foo_bar', 'foo-bar', 'foo.bar', 'c++', 'x11', '7z', 'lib', 'GL', 'foo-2.0', 'a/b', 'f\u00f6']
APIS = ['0', '1', '2', '10', '1.2', '1.2.3', '0.0', '007', '2024.1', '1a', '4294967296']


def libname(conv, n, a):
    f = FMT[conv]
    return f % ((n, a) if f.count('%s') == 2 else n)


LIT = re.compile(r'(L?)"((?:[^"\\\n]|\\.)*)"\s*')


def literal(text):
    """(wide, text) of a sequence of string literals, or None"""
    t, o, wide, out = text.strip(), 0, False, ''
    while o < len(t):
        m = LIT.match(t, o)
        if not m:
            return None
        wide = wide or bool(m.group(1))
        out += m.group(2)
        o = m.end()
    return (wide, out) if t else None


class Bad(Exception):
    pass


def cpp(d, lang, flags, pfx, extra, body):
    with tempfile.NamedTemporaryFile('w', dir=d, suffix='.txt', delete=False, encoding='utf-8') as fh:
        fh.write(body)
    p = subprocess.run(['gcc', '-E', '-P', '-w', '-x', lang] + (['-std=gnu++11'] if lang == 'c++' else []) + [f % pfx if '%s' in f else f for f in flags] + extra + ['-I' + d, fh.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(fh.name)
    if p.returncode:
        raise Bad(p.stderr.decode(errors='replace')[:600])
    return p.stdout.decode('utf-8', 'replace')


def check(ctx):
    gen = mc.Gen()
    root = tempfile.mkdtemp(prefix='g18-', dir=build.scratch())
    evals = 0
    distinct = set()
    jobs = []
    fmts = [('c', 'c'), ('c', 'c++'), ('c++', 'c++'), ('minimal', 'c'), ('minimal', 'c++'), ('minimal-c++', 'c++'), ('plugin', 'c'), ('plugin', 'c++')]
    hard = [None, 'foo', 'nq:HARD', 'ext:foo', 'api:1:foo', 'api:1.2:foo-x', '"quoted.x"', 'libfoo.so.2']
    dirs = {}
    for fmt in sorted(set(f for f, _ in fmts)):
        for pfx in ('gdo', 'My'):
            for h in hard:
                d = '%s/%d' % (root, len(dirs))
                os.mkdir(d)
                dirs[fmt, pfx, h] = d
                gen.header('int foo(int a);\nextern int var;\n', ['-format=' + fmt] + (['-prefix=My'] if pfx == 'My' else []) + (['-library=' + h] if h else []), d)

    def names(plat, fmt, lang, pfx):
        flags, conv, wide = PLAT[plat]
        P = pfx.upper() if pfx == 'gdo' else 'MY'
        body, want = '#include "gen.h"\n', []

        def q(expr, w, text):
            nonlocal body
            body += '@@%d %s @@\n' % (len(want), expr.replace('GDO_', P + '_'))
            want.append((expr, w, text))
        for v, w in (('A', False), ('W', True), ('', wide)):
            q('GDO_LIBEXT' + v, w, EXT[conv])
            for n in NAMES:
                for a in APIS:
                    q('GDO_LIBNAME%s(%s,%s)' % (v, n, a), w, libname(conv, n, a))
            q('GDO_LIBNAME%s( foo , 1 )' % v, w, libname(conv, 'foo', '1'))
            q('"dir/plugin" GDO_LIBEXT' + v, w, 'dir/plugin' + EXT[conv])
        if fmt == 'minimal-c++' and lang == 'c++':
            pass
        out = cpp(dirs[fmt, pfx, None], lang, flags, P, [], body)
        got = {int(k): t for k, t in re.findall(r'@@(\d+) (.*?) @@', out, re.S)}
        for k, (expr, w, text) in enumerate(want):
            if k not in got:
                raise Bad('%s is missing in the output of the preprocessor' % expr)
            l = literal(got[k])
            if l != (w, text):
                raise Bad('%s is %s instead of %s"%s"' % (expr, got[k], 'L' if w else '', text))
            distinct.add((plat, fmt, lang, expr))
        return len(want)

    def hard_text(h, P, conv, w):
        if h.startswith('nq:'):
            return 'ident', h[3:]
        if h.startswith('ext:'):
            return w, h[4:] + EXT[conv]
        if h.startswith('api:'):
            _, a, n = h.split(':', 2)
            return w, libname(conv, n, a)
        return w, h.strip('"')

    def defaults(plat, fmt, lang, pfx, h, user):
        """user: set of macros the user defines"""
        flags, conv, wide = PLAT[plat]
        P = pfx.upper() if pfx == 'gdo' else 'MY'
        val = {'LIB': (wide, 'user'), 'LIBA': (False, 'userA'), 'LIBW': (True, 'userW')}
        ext = ['-D%s_DEFAULT_%s=%s"%s"' % (P, k, 'L' if val[k][0] else '', val[k][1]) for k in user]
        body = '#include "gen.h"\n' + ''.join('#ifdef %s_DEFAULT_%s\n@@%s %s_DEFAULT_%s @@\n#endif\n' % (P, k, k, P, k) for k in val)
        out = cpp(dirs[fmt, pfx, h], lang, flags, P, ext, body)
        got = {k: t for k, t in re.findall(r'@@(\w+) (.*?) @@', out, re.S)}
        exp = {}
        u = {k: val[k] for k in user}
        for k, w in (('LIBA', False), ('LIBW', True)):
            if k in u:
                exp[k] = u[k]
            elif w == wide and 'LIB' in u:
                exp[k] = u['LIB']
            elif h:
                exp[k] = hard_text(h, P, conv, w)
        main = 'LIBW' if wide else 'LIBA'
        exp['LIB'] = u.get('LIB') or exp.get(main)
        for k in val:
            e, g = exp.get(k), got.get(k)
            if (e is None) != (g is None):
                raise Bad('%s_DEFAULT_%s is %s' % (P, k, 'not defined' if g is None else 'defined as ' + g))
            if e is None:
                continue
            if e[0] == 'ident':
                if g.strip() != e[1]:
                    raise Bad('%s_DEFAULT_%s is %s instead of %s' % (P, k, g, e[1]))
            elif literal(g) != e:
                raise Bad('%s_DEFAULT_%s is %s instead of %s"%s"' % (P, k, g, 'L' if e[0] else '', e[1]))
        distinct.add((plat, fmt, lang, pfx, h, user))
        return 3

    def helper(plat, pfx):
        """make_libname(), libext and libext_w are compiled for the platform and run"""
        flags, conv, wide = PLAT[plat]
        P = pfx.upper() if pfx == 'gdo' else 'MY'
        ns = 'gdo' if pfx == 'gdo' else 'my'
        winapi = conv in ('msvc', 'mingw') and 'dlfcn' not in plat
        d = dirs['c++', pfx, None]
        ns_names = [n for n in NAMES] + ['', 'lib/x', 'n' * 300]
        nums = [0, 1, 2, 10, 255, 65536, 4294967295, 4294967296, 18446744073709551615]
        src = '#include "gen.h"\n#include <cstdio>\nint main() {\n'
        src += 'const char *n[] = { %s };\n' % ', '.join('"%s"' % x for x in ns_names)
        src += 'const unsigned long long a[] = { %s };\n' % ', '.join('%dULL' % x for x in nums)
        src += 'for (auto x : n) for (auto y : a) std::printf("A %%s\\n", %s::make_libname(std::string(x), (size_t)y).c_str());\n' % ns
        src += 'std::printf("E %%s\\n", %s::libext);\n' % ns
        if winapi:
            src += 'const wchar_t *w[] = { %s };\n' % ', '.join('L"%s"' % x for x in ns_names)
            src += 'for (auto x : w) for (auto y : a) { std::wstring r = %s::make_libname(std::wstring(x), (size_t)y); std::printf("W "); for (wchar_t c : r) if (c < 128) std::putchar(c); else std::printf("%%c%%c", 0xc0 | c >> 6, 0x80 | (c & 63)); std::puts(""); }\n' % ns
            src += 'std::printf("F "); for (const wchar_t *p = %s::libext_w; *p; p++) std::putchar(*p); std::puts("");\n' % ns
        src += '}\n'
        exe = '%s/h-%s-%s' % (root, plat, pfx)
        with open(exe + '.cpp', 'w', encoding='utf-8') as fh:
            fh.write(src)
        p = subprocess.run(['g++', '-std=gnu++11', '-w', '-O0', '-fno-pie', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'] + [f % P if '%s' in f else f for f in flags] + ['-I' + d, exe + '.cpp', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Bad('the C++ helpers cannot be compiled: ' + p.stdout.decode(errors='replace')[:800])
        out = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60).stdout.decode('utf-8', 'replace').split('\n')[:-1]
        exp = ['A ' + libname(conv, n, a) for n in ns_names for a in nums] + ['E ' + EXT[conv]]
        if winapi:
            exp += ['W ' + libname(conv, n, a) for n in ns_names for a in nums] + ['F ' + EXT[conv]]
        for i, e in enumerate(exp):
            g = out[i] if i < len(out) else 'nothing'
            if g != e:
                raise Bad('make_libname()/libext gives `%s\' instead of `%s\'' % (g, e))
        distinct.add((plat, 'helper', pfx))
        return len(exp)

    with open(root + '/x', 'w'):
        pass
    for plat in PLAT:
        for fmt, lang in fmts:
            for pfx in ('gdo', 'My'):
                jobs.append(('names', (plat, fmt, lang, pfx), names))
        if plat != 'aix32':     # the host's pointers have 64 bits
            for pfx in ('gdo', 'My'):
                jobs.append(('helper', (plat, pfx), helper))
        for fmt, lang in fmts:
            if fmt.startswith('minimal'):
                continue
            for h in hard:
                for n in range(4):
                    for user in itertools.combinations(('LIB', 'LIBA', 'LIBW'), n):
                        for pfx in ('gdo', 'My') if ctx.thorough else ('gdo',) if lang == 'c' or fmt == 'c++' else ():
                            jobs.append(('default', (plat, fmt, lang, pfx, h, user), defaults))

    def run(j):
        kind, a, f = j
        try:
            return j, f(*a), None
        except Bad as x:
            return j, 1, str(x)
    seen = {}
    with ThreadPoolExecutor(8) as ex:
        for (kind, a, f), n, bad in ex.map(run, jobs):
            evals += n
            if bad:
                what = re.sub(r'[0-9]+', 'N', bad)[:60]
                k = (kind, a[0].split('-')[0], what)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == 1:
                    ctx.violation('%s (%s): %s' % (kind, ', '.join(str(x) for x in a), bad), {'case': [kind] + [str(x) for x in a], 'what': bad}, key='%s-%s-%s' % k)
    ctx.add('evaluations', evals)
    ctx.add('configurations', len(jobs))
    ctx.add('distinct_nontrivial', len(distinct))
    ctx.cov['rule'] = 'a distinct (platform, format, language, macro call) or (platform, format, language, prefix, library option, set of user definitions)'
    ctx.cov['platforms'] = sorted(PLAT)
    ctx.sample({'platform': 'apple', 'expression': 'GDO_LIBNAME(foo,1.2)', 'expansion': '"libfoo.1.2.dylib"'})
