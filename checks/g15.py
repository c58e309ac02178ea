"""G15: the output is a function of the input and the options."""
import itertools, os, re, subprocess, time
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of surroundings (ways to pass input and output, directories, locales, time zones, times, environment variables, buffer boundaries) for each input and option set, on the real generator under a controlled clock'
NOTE = 'Every combination of how input is passed and how output is written; every locale (compiled for the check) x time zone x time; all alignments of the input with the read buffers.'

PROTO = b'''/* API */
int image_open(const char *fname, int (*callback)(int, void *), unsigned long flags);
void image_close(void);
int image_printf(const char *fmt, ...);
double (*image_fn)(double);
int *image_obj;
const char *image_names[3][4];
'''
FORMATS = ('C', 'C++', 'plugin', 'minimal', 'minimal-C++')
OPTS = [[], ['-line'], ['-separate'], ['-no-pragma-once', '-prefix=iii'], ['-library=api:1:image', '-include=i.h', '-D', 'I=1'], ['-param=create', '-Pimage', '-ignore-options'], ['-param=skip', '-Simage_obj', '-Simage_close']]
# time zones as POSIX strings: no data files needed
ZONES = {'UTC0': 0, 'CET-1': 3600, '<+1245>-12:45': 45900, '<-0330>3:30': -12600, 'EST5EDT,M3.2.0,M11.1.0': None, '<-12>12': -43200, '<+14>-14': 50400, '': 0}
TIMES = [0, 1, 86399, 951782400, 1078012799, 1700000000, 2147483647, 2147483648, 4102444799, 4294967296, 1711846800, 1711843199, 253402300799]
LOCALES = [('tr_TR', 'ISO-8859-9'), ('tr_TR', 'UTF-8'), ('de_DE', 'UTF-8'), ('en_US', 'UTF-8'), ('ja_JP', 'SHIFT_JIS'), ('hi_IN', 'UTF-8'), ('ar_SA', 'UTF-8'), ('fa_IR', 'UTF-8')]


def check(ctx):
    path = build.build_tool('dyn')
    locdir = build.scratch() + '/loc'
    os.mkdir(locdir)

    def mkloc(l):
        n = '%s.%s' % l
        p = subprocess.run(['localedef', '-c', '-i', l[0], '-f', l[1], locdir + '/' + n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return n if os.path.exists(locdir + '/' + n + '/LC_CTYPE') else None
    locs = [l for l in build.pmap(mkloc, LOCALES) if l]
    subprocess.run(['chmod', '-R', 'a+rX', locdir])
    ctx.cov['locales'] = locs
    # the locales work: a C program sees them
    if locs:
        src = build.scratch() + '/l.c'
        with open(src, 'w') as fh:
            fh.write('#include <locale.h>\nint main(int c, char **v) { return setlocale(LC_ALL, "") == 0; }\n')
        build.run(['gcc', '-w', '-o', src + '.x', src])
        for l in locs:
            if subprocess.run([src + '.x'], env={'LOCPATH': locdir, 'LC_ALL': l}).returncode:
                ctx.cov['locales'] = locs = [x for x in locs if x != l]

    implied = lambda f, o: ('iii' if '-prefix=iii' in o else 'gdo') + ('.hpp' if 'C++' in f else '.h')
    dirs = [(1, 'sub', ''), (1, 'sub/deep er', '')]

    def contents(r, base):
        """output files by name without the directory"""
        if r.out:
            return {base: r.out}
        ext = base.rsplit('.', 1)[0]
        return {os.path.basename(n): c for k, n, c in r.entries if os.path.basename(n).startswith(ext) and k == 0}

    # 1. input and output
    INPUTS = [('standard input', ['-'], [], {}), ('a pipe', ['-'], [], {'stdin_kind': 3}),
              ('a file', ['in.txt'], [(0, 'in.txt', PROTO)], {}), ('./file', ['./in.txt'], [(0, 'in.txt', PROTO)], {}),
              ('a file in a directory', ['sub/../sub/x'], [(0, 'sub/x', PROTO)], {}), ('a symbolic link', ['ln'], [(0, 'sub/x', PROTO), (2, 'ln', 'sub/x')], {}),
              ('a file named with spaces', ['sub/a b.h'], [(0, 'sub/a b.h', PROTO)], {}), ('an absolute path', ['@/in.txt'], [(0, 'in.txt', PROTO)], {}),
              ('a read-only file', ['in.txt'], [(4, 'in.txt', PROTO)], {})]
    OUTPUTS = [('standard output', None), ('a file', '%s'), ('./file', './%s'), ('a file in a directory', 'sub/%s'), ('a deep path', 'sub/deep er/../deep er/%s'), ('an absolute path', '@/%s'), ('an existing file', '%s')]

    def items():
        for f in FORMATS:
            for o in range(len(OPTS)):
                if o == 3 and not f.startswith('minimal') and not ctx.thorough:
                    continue  # slow
                for i in range(len(INPUTS)):
                    for u in range(len(OUTPUTS)):
                        for cwd in ('', 'sub'):
                            if cwd and (INPUTS[i][1][0] not in ('-',) or u == 3 or u == 4):
                                continue
                            yield f, o, i, u, cwd

    def make(info):
        f, o, i, u, cwd = info
        a = ['-format=' + f, '-no-date'] + OPTS[o]
        base = implied(f, OPTS[o])
        inp = INPUTS[i]
        fs = dirs + inp[2]
        oa = []
        if OUTPUTS[u][1]:
            oa = ['-out=' + OUTPUTS[u][1] % base]
        elif '-separate' in OPTS[o]:
            a = [x for x in a if x != '-separate']
        ref = ['-out=' + base] if '-separate' in a else []
        if u == 6:
            fs = fs + [(0, base, 'old')]
            oa.append('-force')
        args = [x.replace('@', '@CWD@') if x.startswith('@/') or x.startswith('-out=@/') else x for x in a + oa + inp[1]]
        return [Req(a + ref + ['-'], PROTO, files=dirs, snap=True),
                Req(args, PROTO if inp[1] == ['-'] else b'', files=fs, snap=True, cwd=cwd, **inp[3])]

    def same(w, base, rs):
        for r in rs:
            if r.code != 0:
                return '+', w + r.describe() + ' %r' % r.err[:200]
        a, b = contents(rs[0], base), contents(rs[1], base)
        if set(a) != set(b):
            return '+', w + 'files %s instead of %s' % (sorted(b), sorted(a))
        for n in a:
            if a[n] != b[n]:
                for x, y in itertools.zip_longest(a[n].split(b'\n'), b[n].split(b'\n')):
                    if x != y:
                        return '+', w + '%s differs: %r instead of %r' % (n, y, x)
        return '+same', None

    def judge(info, rs):
        f, o, i, u, cwd = info
        return same('-format=%s %s, from %s to %s%s: ' % (f, ' '.join(OPTS[o]), INPUTS[i][0], OUTPUTS[u][0], ', in another directory' if cwd else ''), implied(f, OPTS[o]), rs)
    explore(ctx, path, items, make, judge, batch=16, name='input and output')

    # 2. surroundings
    ENVS = [('LC_ALL=' + l, 'LOCPATH=' + locdir) for l in locs] + [('LANG=' + l, 'LOCPATH=' + locdir, 'LC_NUMERIC=' + l, 'LC_ALL=') for l in locs]
    ENVS += [('LC_ALL=C.UTF-8',), ('LC_ALL=nonexistent',), ('TZ=Nowhere',), ('TZ=EST5EDT',), ('HOME=/root', 'USER=u'), ('HOME=',), ('PATH=',), ('TERM=xterm-256color', 'CLICOLOR=1', 'COLORTERM=1'),
             ('NO_COLOR=1',), ('COLUMNS=20', 'LINES=2'), ('POSIXLY_CORRECT=1',), ('TMPDIR=/nonexistent',), ('SOURCE_DATE_EPOCH=0',), ('GDO_PREFIX=x', 'GENDLOPEN_OPTIONS=-force', 'GDO_FORMAT=C'),
             ('CC=gcc', 'CFLAGS=-O2'), ('LANGUAGE=de',), ('PWD=/', 'OLDPWD=/tmp'), ('TOOL_TIME=0',), ('TOOL_TIME=4102444799',), ('MALLOC_PERTURB_=165',), ('GLIBC_TUNABLES=glibc.malloc.perturb=90',), ('X' * 3000 + '=1',)]

    def items2():
        for f in FORMATS:
            for o in range(len(OPTS)):
                if o == 3 and not f.startswith('minimal') and not ctx.thorough:
                    continue  # slow
                for e in range(len(ENVS)):
                    yield f, o, e

    def make2(info):
        f, o, e = info
        base = implied(f, OPTS[o])
        a = ['-format=' + f, '-no-date'] + OPTS[o] + (['-out=' + base] if '-separate' in OPTS[o] else []) + ['-']
        return [Req(a, PROTO, files=dirs, snap=True), Req(a, PROTO, files=dirs, snap=True, env=ENVS[e])]

    def judge2(info, rs):
        f, o, e = info
        return same('-format=%s %s, environment %s: ' % (f, ' '.join(OPTS[o]), ' '.join(ENVS[e])[:100]), implied(f, OPTS[o]), rs)
    explore(ctx, path, items2, make2, judge2, batch=16, name='environment')

    # 3. the date
    def items3():
        for f in FORMATS:
            for sep in (0, 1):
                for z in ZONES:
                    for t in TIMES:
                        for l in [None] + (locs if ctx.thorough else locs[2:3]):
                            yield f, sep, z, t, l

    def make3(info):
        f, sep, z, t, l = info
        a = ['-format=' + f] + (['-separate', '-out=' + implied(f, [])] if sep else [])
        env = ['TZ=' + z, 'TOOL_TIME=%d' % t] + (['LC_ALL=' + l, 'LOCPATH=' + locdir] if l else [])
        return [Req(a + ['-no-date', '-'], PROTO, files=dirs, snap=True), Req(a + ['-'], PROTO, files=dirs, snap=True, env=env)]

    def judge3(info, rs):
        f, sep, z, t, l = info
        w = '-format=%s, TZ=%s, time %d, locale %s: ' % (f, z, t, l)
        base = implied(f, [])
        for r in rs:
            if r.code != 0:
                return '+', w + r.describe()
        a, b = contents(rs[0], base), contents(rs[1], base)
        if set(a) != set(b):
            return '+', w + 'files %s' % sorted(b)
        os.environ['TZ'] = z
        time.tzset()
        want = time.strftime('%Y-%m-%d %H:%M:%S', time.localtime(t)).encode()
        for n in a:
            al, bl = a[n].split(b'\n'), b[n].split(b'\n')
            d = [(x, y) for x, y in zip(al, bl) if x != y]
            if len(al) != len(bl) or len(d) != 1:
                return '+', w + '%s: %d lines differ from the output with -no-date' % (n, len(d))
            if want not in d[0][1]:
                return '+', w + '%s: the date line is %r, the local time is %s' % (n, d[0][1], want.decode())
        return '+date', None
    explore(ctx, path, items3, make3, judge3, batch=16, name='date')

    # 4. alignment of the input with the buffers
    AST = b"""TranslationUnitDecl 0x55ba91b22118 <<invalid sloc>> <invalid sloc>
|-FunctionDecl 0x55ba91b824f8 <a.h:1:1, col:29> col:5 foo 'int (int, const char *)'
| |-ParmVarDecl 0x55ba91b82390 <col:9, col:13> col:13 a 'int'
| `-ParmVarDecl 0x55ba91b82410 <col:16, col:28> col:28 b 'const char *'
|-VarDecl 0x55ba91b82610 <line:2:1, col:12> col:12 bar 'int' extern
"""
    BASE = b'// ends here: */ "\n%option format=C \\\n no-date\nint foo(int ab, const char *b); \n# define X "a\\\n"\nvoid /* c */ bar\n(void);\n#define Y\nint obj;\n'
    TPL = b'%%type%% %%func_symbol%%(%%args%%);@\n  { %%func_symbol%% }\nx@y\n%PARAM_SKIP_REMOVE_BEGIN%\nz\n%PARAM_SKIP_END%\n'
    SIZES = (4096, 8192, 16384, 32768) if not ctx.thorough else (1024, 2048, 4096, 8192, 12288, 16384, 24576, 32768, 65536)

    def items4():
        for kind in ('spaces', 'comment', 'lines', 'ast', 'template', 'crlf'):
            L = len({'ast': AST, 'template': TPL}.get(kind, BASE))
            for s in SIZES:
                for d in range(-2, L + 3):
                    yield kind, s - d
        # one long token
        for kind in ('name', 'type', 'number'):
            for s in SIZES:
                for d in range(-6, 7):
                    yield kind, s + d

    def make4(info):
        k, n = info
        if k == 'ast':
            pad = b'|-TypedefDecl 0x1 <x> col:1 t \'int\'\n'
            p = pad * (n // len(pad))
            p = p[:-1] + b' ' * (n - len(p)) + b'\n' if p else b''
            head, tail = AST.split(b'\n', 1)
            a = ['-template=t', '-ast-all-symbols', '-']
            t = [(0, 't', b'%%type%% %%func_symbol%%(%%args%%);\n%%obj_type%% %%obj_symbol%%;\n')]
            return [Req(a, AST, files=t), Req(a, head + b'\n' + p + tail, files=t)]
        if k == 'template':
            fill = b'x' * 61 + b'\n'
            p = (fill * (n // 62 + 1))[:n - 1] + b'\n' if n else b''
            return [Req(['-template=t', '-'], PROTO, files=[(0, 't', TPL)]), Req(['-template=t', '-'], PROTO, files=[(0, 't', p + TPL)])]
        a = ['-template=t', '-no-date', '-']
        t = [(0, 't', b'%%type%% %%func_symbol%%(%%args%%);\n%%obj_type%% %%obj_symbol%%;gdo_\n')]
        if k in ('name', 'type', 'number'):
            x = b'n' * n
            src = {'name': b'int foo(int %s);\nint obj;\n', 'type': b'%s foo(int a);\nint obj;\n', 'number': b'int foo(int a);\nint obj[%s];\n'}[k]
            if k == 'number':
                x = b'1' * n
            return [Req(a, src % b'QQ' if k != 'number' else src % b'77', files=t), Req(a, src % x, files=t)]
        pad = {'spaces': b' ' * n, 'comment': b'/*' + b'*' * max(0, n - 4) + b'*/', 'lines': b'\n' * n, 'crlf': b''}[k]
        src = pad + BASE
        if k == 'crlf':
            src = b' ' * n + BASE.replace(b'\n', b'\r\n')
        return [Req(a, BASE if k != 'spaces' or not n else BASE, files=t), Req(a, src, files=t)]

    def judge4(info, rs):
        k, n = info
        w = 'input with %d bytes of %s in front: ' % (n, k)
        for r in rs:
            if r.code != 0:
                return '+', w + r.describe() + ' %r' % r.err[:200]
        a, b = rs[0].out, rs[1].out
        if k in ('name', 'type'):
            b = b.replace(b'n' * n, b'QQ')
        elif k == 'number':
            b = b.replace(b'1' * n, b'77')
        elif k == 'template':
            p = ((b'x' * 61 + b'\n') * (n // 62 + 1))[:n - 1] + b'\n'
            if not b.startswith(p):
                return '+', w + 'the plain text of the template is not copied'
            b = b[len(p):]
        if a != b:
            return '+', w + 'the output is %r instead of %r' % (b[:300], a[:300])
        return '+same', None
    explore(ctx, path, items4, make4, judge4, batch=32, name='buffer boundaries')
    ctx.cov['rule'] = 'a case is one (input and options, surroundings) pair compared with the plain run of the same input'
