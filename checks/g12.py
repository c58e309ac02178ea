"""G12: exit status 0 means that all input was read and the complete output was written."""
import os, re
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive fault injection: a failure or short transfer at every I/O system call index and at every written byte position of each scenario, on the real generator'
NOTE = 'Every I/O system call (open, read, write, close, unlink, mkdir, ...) of 25 scenarios fails with 5 errors, once or from then on, or is cut short; the output device fills up after every byte count (thorough) or after every byte of the small and around every write boundary of the large outputs (quick).'

EIO, ENOSPC, EINTR, EACCES, EMFILE, EPIPE = 5, 28, 4, 13, 24, 32
PROTO = b'int foo(int a, const char *b);\nvoid bar(void);\nint *obj;\nchar *arr[3];\n'
AST = b"""TranslationUnitDecl 0x55ba91b22118 <<invalid sloc>> <invalid sloc>
|-FunctionDecl 0x55ba91b824f8 <a.h:1:1, col:29> col:5 foo 'int (int, const char *)'
| |-ParmVarDecl 0x55ba91b82390 <col:9, col:13> col:13 a 'int'
| `-ParmVarDecl 0x55ba91b82410 <col:16, col:28> col:28 b 'const char *'
|-VarDecl 0x55ba91b82610 <line:2:1, col:12> col:12 bar 'int' extern
`-FunctionDecl 0x55ba91b82740 <line:3:1, col:14> col:6 qux 'void (void)'
"""


def big(n):
    return b''.join(b'int function_%d(int a, /* %s */ char *b);\n' % (i, b'c' * (i % 60)) for i in range(n))


def scenarios(thorough):
    d = build.REPO + '/src/templates/'
    tp = [(1, 'tp', '')] + [(0, 'tp/' + f, open(d + f, 'rb').read()) for f in sorted(os.listdir(d)) if f != 'README.md']
    tpl = b'%%type%% %%func_symbol%%(%%args%%);\nline\n' * 40 + b'%%symbol%%@\n x\n'
    S = []

    def add(name, args, stdin=b'', files=(), small=False, **kw):
        S.append((name, args, stdin, list(files), small, kw))
    for f in ('C', 'C++', 'minimal', 'minimal-C++', 'plugin'):
        add('stdin to stdout, ' + f, ['-format=' + f, '-no-date', '-'], PROTO, (), f.startswith('minimal'))
    add('pipe to stdout', ['-format=minimal', '-no-date', '-'], PROTO, (), True, stdin_kind=3)
    add('file to stdout', ['-format=minimal', '-no-date', 'in.txt'], b'', [(0, 'in.txt', PROTO)], True)
    add('file to file', ['-no-date', '-out=o.h', 'in.txt'], b'', [(0, 'in.txt', PROTO)])
    add('file to file, minimal', ['-no-date', '-format=minimal', '-out=o.h', 'in.txt'], b'', [(0, 'in.txt', PROTO)], True)
    add('file to two files', ['-no-date', '-separate', '-out=o', 'in.txt'], b'', [(0, 'in.txt', PROTO)])
    add('file to two existing files', ['-no-date', '-force', '-format=C++', '-separate', '-out=d/o.c', 'in.txt'], b'', [(0, 'in.txt', PROTO), (1, 'd', ''), (0, 'd/o.hpp', 'old'), (2, 'd/o.cpp', '../in.txt')])
    add('plugin to two files', ['-no-date', '-format=plugin', '-separate', '-out=o', '-'], PROTO)
    add('large input', ['-no-date', '-format=minimal', '-out=o.h', 'in.txt'], b'', [(0, 'in.txt', big(900))])
    add('large input from stdin', ['-no-date', '-format=minimal', '-'], big(300))
    add('custom template', ['-template=t', '-'], PROTO, [(0, 't', tpl)], True)
    add('custom template to file', ['-template=t', '-out=o', '-force', 'in.txt'], b'', [(0, 't', tpl), (0, 'in.txt', PROTO), (0, 'o', 'old')], True)
    add('large custom template', ['-template=t', '-out=o', '-'], PROTO, [(0, 't', tpl * 30)])
    add('external templates', ['-templates-path=tp', '-no-date', '-'], PROTO, tp)
    add('external templates, C++ separate', ['-templates-path=tp', '-format=C++', '-separate', '-out=o', '-no-date', '-'], PROTO, tp)
    add('external templates, minimal', ['-templates-path=tp', '-format=minimal-C++', '-no-date', '-'], PROTO, tp)
    add('dump templates', ['-dump-templates=dt'], b'', [(0, 'x', 'x')])
    add('dump templates over existing', ['-dump-templates=dt'], b'', [(1, 'dt', ''), (0, 'dt/c.c', 'old')])
    add('symbols', ['-print-symbols', '-'], PROTO, (), True)
    add('symbols of AST', ['-print-symbols', '-ast-all-symbols', '-'], AST, (), True)
    add('AST file', ['-Sfoo', '-Sqx'.replace('qx', 'qux'), '-format=minimal', '-no-date', 'ast'], b'', [(0, 'ast', AST)], True)
    add('help', ['-help'], b'', (), True)
    add('full help', ['-full-help'], b'', (), True)
    add('version', ['-version'], b'', (), True)
    return S


def check(ctx):
    path = build.build_tool('plain')
    S = scenarios(ctx.thorough)
    sv = Server(path)
    base = []
    for name, args, stdin, files, small, kw in S:
        r0 = sv.run(args, stdin, files=files, snap=True, **kw)
        r = sv.run(args, stdin, files=files, snap=True, fault=(1, 0, 0), **kw)
        if r.code != 0 or r0.code != 0 or (r.out, r.entries) != (r0.out, r0.entries):
            raise RuntimeError('scenario %s: %s %s' % (name, r.describe(), r.err))
        log = [re.match(r'(\w+)\((-?\d+)\)=(-?\d+)', l).groups() for l in r.log.splitlines()]
        base.append((r.out, sorted(r.entries), [(a, int(b), int(c)) for a, b, c in log]))
    sv.close()
    ctx.cov['scenarios'] = len(S)
    ctx.cov['system_calls'] = sum(len(b[2]) for b in base)

    def items():
        for i, s in enumerate(S):
            log = base[i][2]
            for n in range(len(log)):
                for e in (EIO, ENOSPC, EINTR, EACCES, EMFILE):
                    yield i, 2, n, e
                    if e != EINTR:
                        yield i, 5, n, e
                yield i, 3, n, 0
            total = sum(c for a, b, c in log if a in ('write', 'writev') and c > 0)
            if s[4] or ctx.thorough:
                pos = range(total + 2)
            else:
                pos = {0, 1, 2, total - 1, total, total // 2}
                x = 0
                for a, b, c in log:
                    if a in ('write', 'writev') and c > 0:
                        x += c
                        pos |= {x - 1, x, x + 1, x - c // 2}
                pos |= set(range(0, total, 997))
                pos = sorted(p for p in pos if 0 <= p <= total + 1)
            for n in pos:
                yield i, 4, n, ENOSPC
                if n % 7 == 0:
                    yield i, 4, n, EIO
            for so in (1, 2, 3):
                yield i, 'stdout', so, 0
            for si in (1, 2):
                yield i, 'stdin', si, 0

    def make(info):
        i, kind, n, e = info
        name, args, stdin, files, small, kw = S[i]
        kw = dict(kw)
        if kind == 'stdout':
            return Req(args, stdin, files=files, snap=True, stdout_kind=n, **kw)
        if kind == 'stdin':
            kw['stdin_kind'] = n
            return Req(args, stdin, files=files, snap=True, **kw)
        return Req(args, stdin, files=files, snap=True, fault=(kind, n, e), **kw)

    def judge(info, rs):
        i, kind, n, e = info
        r = rs[0]
        name = S[i][0]
        out, ents, log = base[i]
        if kind == 'stdout':
            w = 'scenario `%s\', standard output is %s' % (name, ['', '/dev/full', 'closed', 'a pipe without reader'][n])
        elif kind == 'stdin':
            w = 'scenario `%s\', standard input is %s' % (name, ['', 'closed', 'a directory'][n])
        elif kind == 4:
            w = 'scenario `%s\', device full after %d bytes (errno %d)' % (name, n, e)
        else:
            w = 'scenario `%s\', %s (%s) %s errno %d' % (name, 'call number %d' % n, log[n][0], {2: 'fails', 3: 'is cut short', 5: 'and all later ones fail'}[kind], e)
        uses_stdout = bool(out)
        uses_stdin = '-' in S[i][1]
        if kind == 'stdout':
            if not uses_stdout:
                return 'not used', None
            if r.code == 0:
                return '+', w + ': the exit status is 0'
            if r.code is None and not (n == 3 and r.signal == 13):
                return '+', w + ': ' + r.describe()
            return '+stdout', None
        if kind == 'stdin':
            if not uses_stdin:
                return 'not used', None
            if r.code in (0, None):
                return '+', w + ': ' + r.describe()
            return '+stdin', None
        if r.code is None:
            return '+', '%s: %s' % (w, r.describe())
        same = r.out == out and sorted(r.entries) == ents
        if r.code == 0 and not same:
            return '+', '%s: the exit status is 0, but the output is not that of a fault-free run (%d instead of %d bytes on stdout, files %s)' % (w, len(r.out), len(out), [(x[1], len(x[2])) for x in r.entries])
        if r.code == 0 and kind in (2, 5) and e in (EIO, ENOSPC):
            nm, fd, ret = log[n]
            if nm in ('write', 'writev'):
                return '+', '%s: the exit status is 0 though a write failed' % w
            if nm == 'close' and any(a in ('write', 'writev') and b == fd for a, b, c in after_open(log, n, fd)):
                return '+', '%s: the exit status is 0 though closing the output failed' % w
            if nm in ('read', 'readv'):
                return '+', '%s: the exit status is 0 though reading failed' % w
        if r.code and not r.err.strip() and kind != 5:
            return '+', '%s: no error message' % w
        return '+exit %s' % ('0' if r.code == 0 else 'not 0'), None

    def after_open(log, n, fd):
        k = n
        while k > 0 and not (log[k][0] == 'close' and log[k][1] == fd and k != n):
            k -= 1
        return log[k:n]
    tags = explore(ctx, path, items, make, judge, batch=32, name='faults')
    ctx.cov['faults_injected'] = sum(v for k, v in tags.items() if k != 'not used')
    ctx.cov['rule'] = 'a case is one fault (call index and error, short transfer, or byte count) in one scenario; non-trivial when the scenario uses the faulted stream'
    ctx.assumptions += ['a failure at a system call means that the kernel did not do what was asked (except close, which releases the descriptor)', 'file metadata calls that read nothing (stat) are not faulted']
