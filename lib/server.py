"""Client of the fork server, and exhaustive parallel enumeration."""
import os, struct, subprocess, tempfile, multiprocessing
from . import build

DATE_ARG = '-no-date'


class Result:
    __slots__ = ('status', 'timed_out', 'out', 'err', 'entries', 'calls', 'log')

    @property
    def code(self):
        """exit code, or None when the tool did not end by itself"""
        if self.timed_out or (self.status & 0x7f):
            return None
        return (self.status >> 8) & 0xff

    @property
    def signal(self):
        return self.status & 0x7f

    def describe(self):
        if self.timed_out:
            return 'timeout'
        if self.status & 0x7f:
            return 'killed by signal %d' % (self.status & 0x7f)
        return 'exit code %d' % self.code


def _s(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return struct.pack('<I', len(b)) + b


class Req:
    __slots__ = ('args', 'stdin', 'files', 'env', 'fault', 'snap', 'stdout_kind', 'stdin_kind', 'cwd', 'timeout_ms')

    def __init__(self, args, stdin=b'', files=None, env=(), fault=(0, 0, 0), snap=None, stdout_kind=0, stdin_kind=0, cwd='', timeout_ms=0):
        self.args = args
        self.stdin = stdin
        self.files = files or []          # (kind, name, content)
        self.env = env
        self.fault = fault
        self.snap = bool(files) if snap is None else snap
        self.stdout_kind = stdout_kind
        self.stdin_kind = stdin_kind
        self.cwd = cwd
        self.timeout_ms = timeout_ms

    def enc(self):
        p = [struct.pack('<IIIII', 1 if self.snap else 0, *self.fault, self.timeout_ms)]
        p.append(struct.pack('<I', len(self.args) + 1))
        p.append(_s('gendlopen'))
        p.extend(_s(a) for a in self.args)
        p.append(_s(self.stdin))
        p.append(struct.pack('<I', len(self.files)))
        for k, n, c in self.files:
            p.append(struct.pack('<I', k) + _s(n) + _s(c))
        p.append(struct.pack('<I', len(self.env)))
        p.extend(_s(e) for e in self.env)
        p.append(struct.pack('<II', self.stdout_kind, self.stdin_kind))
        p.append(_s(self.cwd))
        return b''.join(p)

    def shell(self):
        """readable form for replay files"""
        d = {'args': [a if isinstance(a, str) else repr(a) for a in self.args], 'stdin': _show(self.stdin)}
        if self.files:
            d['files'] = [(k, n if isinstance(n, str) else repr(n), _show(c)) for k, n, c in self.files]
        if self.env:
            d['env'] = list(self.env)
        if self.fault[0]:
            d['fault'] = {'kind': ['none', 'count', 'fail n-th call', 'short n-th call', 'fail after n bytes', 'fail from n-th call'][self.fault[0]],
                          'n': self.fault[1], 'errno': self.fault[2]}
        if self.stdout_kind:
            d['stdout'] = ['memfd', '/dev/full', 'closed', 'pipe without reader'][self.stdout_kind]
        if self.stdin_kind:
            d['stdin_kind'] = ['memfd', 'closed', 'directory', 'pipe'][self.stdin_kind]
        if self.cwd:
            d['cwd'] = self.cwd
        return d


def _show(b):
    if isinstance(b, bytes):
        return b.decode('utf-8', 'backslashreplace')
    return b


class Server:
    def __init__(self, path):
        self.dir = tempfile.mkdtemp(prefix='w-', dir=build.scratch())
        os.chmod(self.dir, 0o755)
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
               'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0:symbolize=0:max_allocation_size_mb=2000',
               'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=0'}
        self.p = subprocess.Popen([path, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.runs = 0

    def batch(self, reqs):
        if not reqs:
            return []
        body = struct.pack('<I', len(reqs)) + b''.join(r.enc() for r in reqs)
        self.p.stdin.write(struct.pack('<I', len(body)) + body)
        self.p.stdin.flush()
        n, = struct.unpack('<I', self._rd(4))
        buf = self._rd(n)
        o = 0
        res = []
        self.runs += len(reqs)

        def u32():
            nonlocal o
            v, = struct.unpack_from('<I', buf, o)
            o += 4
            return v

        def st():
            nonlocal o
            n, = struct.unpack_from('<I', buf, o)
            v = buf[o + 4:o + 4 + n]
            o += 4 + n
            return v
        for _ in reqs:
            r = Result()
            r.status = u32()
            r.timed_out = u32()
            r.out = st()
            r.err = st()
            r.entries = [(u32(), st().decode('utf-8', 'surrogateescape'), st()) for _ in range(u32())]
            r.calls = u32()
            r.log = st().decode()
            res.append(r)
        return res

    def one(self, req):
        return self.batch([req])[0]

    def run(self, args, stdin=b'', **kw):
        return self.one(Req(args, stdin, **kw))

    def _rd(self, n):
        b = bytearray()
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise RuntimeError('tool server died (%s)' % self.p.poll())
            b += c
        return bytes(b)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
