"""G16: every generated file compiles cleanly in every documented configuration."""
import itertools, os, re, subprocess, tempfile
from lib import build
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of configurations (format x single or separate x macro subsets x language standard x compiler) and of symbol sets; every generated file is compiled, and linked from several translation units, by the real compilers'
NOTE = 'gcc and clang, C and C++, all macro subsets up to size 2 (thorough: all); every identifier of the templates as a parameter name and as a function name; type shapes; symbol sets of functions only, objects only, one symbol, 300 symbols.'

CERR = ['-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=return-type']
PRE = '''struct SS { int a; double b; };
typedef struct SS SSt;
typedef int (*cb_t)(int);
typedef unsigned int uint;
'''
MIXED = '''int foo(int a, const char *b);
void bar(void);
int foo_printf(const char *fmt, ...);
SSt *foo_make(struct SS s, cb_t c, void (*cb)(int, char *), int v[4], unsigned long long ull, uint u);
SSt foo_by_value(SSt s);
const char *const *names(void);
int *obj;
const char *arr[3];
int (*fp)(int);
const SSt cst;
'''
FUNCS = 'int f1(int a);\nint f2(int a, ...);\nvoid f3(void);\n'
OBJS = 'int obj1;\nconst char *obj2[4];\nvoid (*obj3)(void);\n'
ONE = 'void only(void);\n'
ONEO = 'int only_obj;\n'
VOIDS = 'void v1(void);\nvoid v2(int a, double b);\nvoid v3(const char *fmt, ...);\n'
KEYWORDS = set('''defined auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
alignas alignof and and_eq asm bitand bitor bool catch char8_t char16_t char32_t class compl concept consteval constexpr constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit export false friend
mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public reinterpret_cast requires static_assert static_cast template this thread_local throw true try typeid typename using virtual wchar_t xor xor_eq'''.split())


class Job:
    __slots__ = ('label', 'cmd', 'cwd')

    def __init__(self, label, cmd, cwd):
        self.label, self.cmd, self.cwd = label, cmd, cwd


def subsets(xs, n):
    for k in range(n + 1):
        yield from itertools.combinations(xs, k)


def check(ctx):
    path = build.build_tool('plain')
    sv = Server(path)
    root = tempfile.mkdtemp(prefix='g16-', dir=build.scratch())
    count = [0]
    jobs = []

    def gen(fmt, protos, args=(), separate=False, lib=None, pre=PRE, name='x'):
        """generates into a new directory; returns (dir, header, body or None)"""
        is_cxx = 'C++' in fmt
        he, be = ('hpp', 'cpp') if is_cxx else ('h', 'c')
        d = '%s/%d' % (root, count[0])
        count[0] += 1
        os.mkdir(d)
        a = ['-format=' + fmt, '-no-date', '-include=nq:"pre.h"' if False else '-include=pre.h', '-out=%s.%s' % (name, he)] + list(args)
        if separate:
            a.append('-separate')
        if lib:
            a.append('-library=' + lib)
        r = sv.run(a + ['-'], protos.encode(), files=[(0, 'unused', '')], snap=True)
        if r.code != 0:
            ctx.violation('%s refused: %s %s' % (' '.join(a), r.describe(), r.err.decode(errors='replace')[:300]), {'args': a, 'stdin': protos})
            return None
        for k, n, c in r.entries:
            if n.startswith(name + '.'):
                with open(d + '/' + n, 'wb') as fh:
                    fh.write(c)
        with open(d + '/pre.h', 'w') as fh:
            fh.write('#ifndef PRE_H\n#define PRE_H\n' + pre + '#endif\n')
        return d, '%s.%s' % (name, he), '%s.%s' % (name, be) if separate else None

    # precompiled standard headers
    pch = {}
    STDH = ['cstddef', 'cstring', 'cstdlib', 'cstdio', 'cstdarg', 'cctype', 'cerrno', 'string', 'vector', 'iostream', 'exception', 'stdexcept', 'memory', 'mutex', 'filesystem', 'sstream', 'dlfcn.h', 'limits.h', 'unistd.h']

    def tmpl_headers():
        inc = set()
        d = build.REPO + '/src/templates/'
        for f in sorted(os.listdir(d)):
            inc |= set(re.findall(r'^\s*#\s*include\s*<([^>]+)>', open(d + f, errors='replace').read(), re.M))
        return inc
    used = tmpl_headers()

    def get_pch(key):
        cc, std = key
        d = '%s/pch-%s-%s' % (root, cc.replace('+', 'x'), std)
        os.mkdir(d)
        hs = [h for h in sorted(used | {'cstddef', 'cstring'}) if subprocess.run([cc, '-std=' + std, '-x', 'c++', '-E', '-'], input=('#include <%s>\n' % h).encode(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 and '.' not in h or h in ('stddef.h', 'string.h', 'dlfcn.h', 'stdio.h', 'stdlib.h', 'limits.h', 'unistd.h')]
        with open(d + '/p.h', 'w') as fh:
            fh.write(''.join('#include <%s>\n' % h for h in hs if h not in ('windows.h',)))
        out = '/p.h.gch' if cc == 'g++' else '/p.h.pch'
        p = subprocess.run([cc, '-std=' + std, '-w', '-x', 'c++-header', d + '/p.h', '-o', d + out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            return []
        return ['-include', d + '/p.h'] if cc == 'g++' else ['-include-pch', d + out]

    CSTD = [('gcc', 'gnu99'), ('gcc', 'gnu17'), ('gcc', 'gnu2x'), ('clang', 'gnu99'), ('clang', 'gnu17'), ('clang', 'gnu2x')]
    CPOSIX = [('gcc', 'c11', '-D_GNU_SOURCE'), ('gcc', 'c99', '-D_POSIX_C_SOURCE=200809L'), ('clang', 'c11', '-D_POSIX_C_SOURCE=200809L'), ('clang', 'c17', '-D_GNU_SOURCE')]
    XSTD = [('g++', 'gnu++11'), ('g++', 'c++14'), ('g++', 'c++17'), ('g++', 'gnu++20'), ('g++', 'c++23'), ('clang++', 'c++11'), ('clang++', 'gnu++17'), ('clang++', 'c++20'), ('clang++', 'c++23')]

    def comp(label, d, src, cc, std, defs=(), extra=(), lang=None, full=False):
        is_x = cc.endswith('++')
        cmd = [cc, '-std=' + std, '-w'] + ([] if is_x else CERR) + ['-D' + x for x in defs] + list(extra)
        if is_x:
            cmd += pch.get((cc, std), [])
        cmd += ['-O1', '-c', '-o', '/dev/null'] if full else ['-fsyntax-only']
        cmd += ['-x', lang or ('c++' if is_x else 'c'), src]
        jobs.append(Job('%s -std=%s %s %s: %s' % (cc, std, ' '.join('-D' + x for x in defs), ' '.join(extra), label), cmd, d))

    def user(d, hdr, n=1, name='u', lang='c'):
        f = '%s%d.%s' % (name, n, 'cpp' if lang == 'c++' else 'c')
        if not os.path.exists(d + '/' + f):
            with open(d + '/' + f, 'w') as fh:
                fh.write('#include "%s"\n' % hdr * n + 'int user_function(void) { return 0; }\n')
        return f
    pch.update(zip([(c, s) for c, s in XSTD], build.pmap(get_pch, XSTD)))
    ctx.cov['precompiled'] = sum(1 for v in pch.values() if v)
    lim = 9 if ctx.thorough else 2
    VIS = 'GDO_WRAP_VISIBILITY=__attribute__((visibility("default")))'
    HOOK = 'GDO_HOOK_foo(...)=((void)GDO_RAWPTR_foo(__VA_ARGS__))'
    CM = ['GDO_STATIC', 'GDO_WRAP_FUNCTIONS', 'GDO_ENABLE_AUTOLOAD', 'GDO_ENABLE_AUTOLOAD_LAZY', 'GDO_DISABLE_ALIASING', 'GDO_DISABLE_WARNINGS', VIS, 'GDO_DEFAULT_FLAGS=RTLD_NOW', HOOK, 'GDO_USE_DLOPEN', 'GDO_USE_MESSAGE_BOX', 'GDO_CONVERT_FILENAME', 'HAVE_FEATURES_H']

    # A. macro subsets
    for fmt in ('C', 'C++', 'plugin', 'minimal', 'minimal-C++'):
        for sep in (False, True) if not fmt.startswith('minimal') else (False,):
            g1 = gen(fmt, MIXED, separate=sep, lib='libA.so')
            g2 = gen(fmt, MIXED, ['-no-pragma-once'], separate=sep)
            if not g1 or not g2:
                continue
            ms = CM if fmt in ('C', 'C++') else ['GDO_STATIC', 'GDO_DISABLE_WARNINGS', 'GDO_DEFAULT_FLAGS=RTLD_NOW', 'GDO_USE_DLOPEN', 'GDO_CONVERT_FILENAME']
            if 'C++' in fmt or sep:
                ms = [m for m in ms if m != 'GDO_STATIC']
            i = 0
            for s in subsets(ms, lim):
                auto = any('AUTOLOAD' in m for m in s)
                stds = XSTD if 'C++' in fmt else CSTD + XSTD[1::4]
                # every subset with every compiler family; the standards in rotation
                pick = stds if ctx.thorough and len(s) <= 3 or len(s) <= 1 else [stds[i % len(stds)], stds[(i + len(stds) // 2) % len(stds)]]
                i += 1
                for cc, std in pick:
                    lab = '-format=%s%s' % (fmt, ' -separate' if sep else '')
                    comp(lab + ' -library=libA.so', g1[0], g1[2] or user(g1[0], g1[1]), cc, std, s, full=len(s) == 1 and cc in ('gcc', 'clang'))
                    if sep:
                        comp(lab + ' (header)', g1[0], user(g1[0], g1[1]), cc, std, s)
                    if i % 3 == 0 or len(s) <= 1 or ctx.thorough:
                        dl = ['GDO_DEFAULT_LIB="x.so"'] if auto else []
                        comp(lab + ' -no-pragma-once, included twice', g2[0], user(g2[0], g2[1], 2), cc, std, list(s) + dl)
                        comp(lab + ', included twice', g1[0], user(g1[0], g1[1], 2), cc, std, s)
            if 'C++' not in fmt:
                for cc, std, x in CPOSIX:
                    comp('-format=%s%s' % (fmt, ' -separate' if sep else ''), g1[0], g1[2] or user(g1[0], g1[1]), cc, std, (), [x])
    ctx.cov['configurations'] = len(jobs)

    # B. symbol sets
    ids = set()
    td = build.REPO + '/src/templates/'
    for f in sorted(os.listdir(td)):
        t = open(td + f, errors='replace').read()
        t = re.sub(r'%%[a-z_]+%%', ' ', t)
        ids |= set(re.findall(r'(?<![\w"])[A-Za-z_]\w*', t))
    ids = sorted(i for i in ids if not re.match(r'(?i)_?gdo', i) and i not in KEYWORDS and not re.match(r'_[A-Z_]|__', i) and not re.match(r'[A-Z0-9_]+$', i) and i not in ('extern', 'main', 'typedef'))
    heads = ''.join('#include <%s>\n' % h for h in sorted(used) if h not in ('windows.h', 'features.h', 'loadquery.h', 'sys/ldr.h'))

    def valid(decl, cc):
        """identifiers that plain code can use after the same headers"""
        d = tempfile.mkdtemp(prefix='v-', dir=root)
        src = d + ('/v.cpp' if cc.endswith('++') else '/v.c')
        ok = list(ids)
        for _ in range(30):
            with open(src, 'w') as fh:
                for h in sorted(used):
                    fh.write('#if __has_include(<%s>)\n#include <%s>\n#endif\n' % (h, h) if cc.endswith('++') or '.' in h else '')
                fh.write('#line 1 "decl"\n' + ''.join(decl % i + '\n' for i in ok))
            p = subprocess.run([cc, '-w', '-fsyntax-only', '-fmax-errors=0' if cc.startswith('g') else '-ferror-limit=0', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 0:
                return set(ok)
            bad = {int(x) for x in re.findall(r'^decl:(\d+):\d+: (?:fatal )?error', p.stdout.decode(errors='replace'), re.M)}
            if not bad:
                break
            ok = [i for n, i in enumerate(ok) if n + 1 not in bad]
        return set()
    vp = {cc: None for cc in ('gcc', 'clang', 'g++', 'clang++')}
    r = build.pmap(lambda a: valid(*a), [(d, cc) for cc in vp for d in ('extern int zz_f(int %s);', 'extern "C" int %s(int a);' if cc.endswith('++') else 'extern int %s(int a);')])
    r = [x for x in r]
    okp = set.intersection(*r[0::2])
    okf = set.intersection(*r[1::2])
    ctx.cov['identifiers_as_parameters'] = len(okp)
    ctx.cov['identifiers_as_functions'] = len(okf)
    SETS = [('mixed', MIXED), ('functions', FUNCS), ('objects', OBJS), ('one function', ONE), ('one object', ONEO), ('void functions', VOIDS),
            ('parameter names of the templates', ''.join('int zz_%s(int %s, const char *%s_);\n' % (i, i, i) for i in sorted(okp))),
            ('variadic parameter names of the templates', ''.join('int zz_%s(int %s, ...);\n' % (i, i) for i in sorted(okp))),
            ('function names of the templates', ''.join('int %s(int a);\n' % i for i in sorted(okf))),
            ('object names of the templates', ''.join('int %s;\n' % i for i in sorted(okf))),
            ('300 functions', ''.join('%s fn_%d(%s);\n' % (('int', 'void', 'const char *', 'SSt', 'double')[i % 5], i, ', '.join('%s p%d' % (('int', 'char *', 'SSt', 'cb_t', 'const double *')[(i + j) % 5], j) for j in range(i % 7)) or 'void') for i in range(300))),
            ('own name as parameter', 'int foo(int foo);\nint bar(int foo, int obj);\nint obj;\nint baz(int baz, ...);\n'),
            ('prefix names', 'int a(int b);\nint ab(int a);\nint abc(int ab);\nint a_;\nint _a(int a);\nint A(int a);\n'),
            ]
    TYPES = ['int', 'unsigned char', 'long long', 'float', 'long double', 'void *', 'const void *', 'char **', 'const char *const *', 'SSt', 'struct SS *', 'const SSt *', 'volatile int *', 'cb_t', 'uint', 'struct SS', 'char const *', '_Bool']
    SETS.append(('types', ''.join('%s ret_%d(void);\nvoid par_%d(%s p);\n%s obj_%d;\nint var_%d(%s p, ...);\n%s arr_%d[2][3];\n%s (*fp_%d)(%s, int);\n' % (t, i, i, t, t, i, i, t, t, i, t, i, t) for i, t in enumerate(TYPES) if t != '_Bool')))
    # an object of an array of a pointer type, functions with function pointers
    SETS.append(('function pointers', 'void set_cb(void (*cb)(void));\nint (*get_cb_obj)(int, char);\nvoid two(int (*a)(int), int (*b)(int, ...));\nvoid nested(int (*a)(int (*)(int)), const char *s);\n'))
    for nm, protos in SETS:
        for fmt in ('C', 'C++', 'plugin', 'minimal', 'minimal-C++'):
            for par in ([], ['-param=skip']) if nm in ('mixed', 'functions', 'types', 'void functions', 'function pointers', 'own name as parameter') else ([],):
                for sep in (False, True) if not fmt.startswith('minimal') else (False,):
                    if sep and par:
                        continue
                    g = gen(fmt, protos, par, separate=sep, lib='libA.so')
                    if not g:
                        continue
                    mss = [[], ['GDO_WRAP_FUNCTIONS'], ['GDO_ENABLE_AUTOLOAD'], ['GDO_ENABLE_AUTOLOAD_LAZY'], ['GDO_DISABLE_ALIASING']] if fmt in ('C', 'C++') else [[]]
                    big = len(protos) > 10000 and not ctx.thorough
                    for mi, ms in enumerate(mss):
                        if big and mi in (2, 4) or sep and big and mi != 1:
                            continue
                        if par and ms and ms[0] != 'GDO_DISABLE_ALIASING' and par == ['-param=skip']:
                            continue  # -param=skip: no wrappers
                        for cc, std in ([('gcc', 'gnu17'), ('clang', 'gnu17'), ('g++', 'c++17'), ('clang++', 'c++20')] if 'C++' not in fmt else [('g++', 'c++17'), ('clang++', 'c++20')] + ([('g++', 'gnu++11')] if not ms or ctx.thorough else [])):
                            if big and (cc, mi) not in (('gcc', 0), ('clang', 1), ('g++', 1), ('clang++', 0), ('gcc', 3), ('clang++', 3)):
                                continue
                            comp('-format=%s%s %s, %s' % (fmt, ' -separate' if sep else '', ' '.join(par), nm), g[0], g[2] or user(g[0], g[1]), cc, std, ms, full=cc == 'gcc')
    ctx.cov['symbol_sets'] = len(SETS)

    # C. several translation units
    link = []
    USE = {'C': 'foo(1, "a"); bar(); foo_printf("%d", 1); (void)obj;', 'plugin': '', 'minimal': 'foo(1, "a"); bar(); (void)obj;'}
    protos = 'int foo(int a, const char *b);\nvoid bar(void);\nint foo_printf(const char *fmt, ...);\nint *obj;\n'
    for fmt in ('C', 'C++', 'plugin', 'minimal', 'minimal-C++'):
        for sep in (True, False):
            if fmt.startswith('minimal') and sep:
                continue
            g = gen(fmt, protos, separate=sep, lib='libA.so')
            if not g:
                continue
            base = [] if sep or 'C++' in fmt else ['GDO_STATIC']
            ntu = 3 if sep or base else 1
            mss = [[], ['GDO_WRAP_FUNCTIONS'], ['GDO_ENABLE_AUTOLOAD'], ['GDO_ENABLE_AUTOLOAD_LAZY'], ['GDO_WRAP_FUNCTIONS', 'GDO_DISABLE_ALIASING'], ['GDO_WRAP_FUNCTIONS', VIS], ['GDO_ENABLE_AUTOLOAD', VIS]] if fmt in ('C', 'C++') else [[]]
            for ms in mss:
                for cc in (('g++', 'clang++') if 'C++' in fmt else ('gcc', 'clang', 'g++', 'clang++')):
                    if VIS in ms and (base or sep):
                        continue  # visible wrappers are defined where the header is included: in one file only
                    for opt in ('-O0', '-O2'):
                        link.append((fmt, sep, g, base + ms, cc, opt, ntu))

    def do_link(k):
        n, (fmt, sep, g, ms, cc, opt, ntu) = k
        d = g[0]
        ext = 'cpp' if cc.endswith('++') else 'c'
        fs = []
        for i in range(ntu):
            f = 'tu%d_%d.%s' % (n, i, ext)
            body = USE.get(fmt.replace('minimal-C++', 'minimal').replace('C++', 'C'), '')
            if 'GDO_DISABLE_ALIASING' in ms:
                body = 'GDO_RAWPTR_foo(1, "a"); GDO_RAWPTR_bar();' if fmt in ('C', 'C++') else ''
            if opt == '-O0' and cc.startswith('g'):
                body = body.replace('foo_printf("%d", 1);', '')  # documented: inlining must be enabled
            if VIS in ms:
                body = body.replace('foo_printf("%d", 1);', '')  # documented: can only be used inlined
            with open(d + '/' + f, 'w') as fh:
                fh.write('#include "%s"\nint use_%d(void) { %s return %d; }\n' % (g[1], i, body, i))
                if i == 0:
                    fh.write('int main(void) { return use_0(); }\n')
            fs.append(f)
        cmd = [cc, '-w', opt, '-o', 'prog%d' % n] + (['-std=c++17'] if cc.endswith('++') else CERR) + ['-D' + m for m in ms] + (['-x', 'c++'] if cc.endswith('++') else []) + fs + ([g[2]] if sep else []) + ['-ldl']
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            os.unlink(d + '/prog%d' % n)
        return '%s %s %s: linking %d translation units, -format=%s%s' % (cc, opt, ' '.join('-D' + m for m in ms), ntu, fmt, ' -separate' if sep else ''), cmd, p.returncode, p.stdout.decode(errors='replace'), d

    def do(j):
        p = subprocess.run(j.cmd, cwd=j.cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return j.label, j.cmd, p.returncode, p.stdout.decode(errors='replace') if p.returncode else '', j.cwd
    sv.close()
    ctx.log('%d compilations, %d links' % (len(jobs), len(link)))
    res = build.pmap(do, jobs)
    res += build.pmap(do_link, list(enumerate(link)))
    seen = {}
    for label, cmd, rc, out, d in res:
        if rc:
            e = [l for l in out.splitlines() if re.search(r'error|undefined|multiple', l)]
            first = (e or out.splitlines() or ['?'])[0]
            key = re.sub(r'\d+', 'N', first)
            seen.setdefault(key, []).append(label)
            if len(seen[key]) == 1:
                ctx.violation('%s: %s' % (label, first[:300]), {'command': cmd, 'output': out[:3000]})
            else:
                ctx.nviol += 1
    for k, v in sorted(seen.items(), key=lambda x: -len(x[1]))[:12]:
        ctx.log(len(v), 'x', k[:200], '|', v[0][:150])
    ctx.add('evaluations', len(res))
    ctx.add('distinct_nontrivial', len({(r[0], tuple(r[1])) for r in res}))
    ctx.cov['files_generated'] = count[0]
    ctx.cov['links'] = len(link)
    ctx.sample({'compile': jobs[0].cmd, 'label': jobs[0].label})
    ctx.sample({'compile': jobs[-1].cmd, 'label': jobs[-1].label})
    ctx.cov['rule'] = 'a case is one compilation or link of generated files; all of them are non-trivial'
    ctx.assumptions += ['GNU or POSIX dialects of C (the generated code needs dlfcn.h)', 'implicit declarations and incompatible pointers count as errors, other warnings do not',
                        'identifiers that plain declarations could not use after the same system headers, and names beginning with the prefix, are not symbol names']
