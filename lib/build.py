"""Builds the tool (and scratch directories) from /repo's current working tree."""
import atexit, glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    """private scratch directory of this run, removed at exit"""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (2 << 30) else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='gdo-verif-', dir=base)
        os.chmod(_scratch, 0o711)
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid and path.startswith(base + '/gdo-verif-'):
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        t = p.stdout.decode(errors='replace')
        key = [l[:400] for l in t.splitlines() if re.search(r'error|undefined|multiple def|redefin', l)][:12]
        raise BuildError('%s\n%s' % ('\n'.join(key) or t[-1500:], ' '.join(cmd)[:600]))
    return p.stdout


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def tool_sources():
    src = sorted(glob.glob(REPO + '/src/*.cpp')) + sorted(glob.glob(REPO + '/src/*.c'))
    return [s for s in src if os.path.basename(s) not in ('gen_templates_data.c', 'templates_data.cpp')]


def tree_hash(*extra):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO + '/src'):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    for e in extra:
        h.update(e if isinstance(e, bytes) else str(e).encode())
    return h.hexdigest()[:20]


VARIANTS = {
    # optimised for start-up time: one static binary
    'plain': (['-O1'], ['-static'], []),
    # dynamic: locales can be loaded, and the time is under control
    'dyn': (['-O1'], [], ['-DTOOL_FAKE_TIME']),
    # cheap checks in the standard library and for undefined behaviour: abort on a failure
    'chk': (['-O1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=undefined', '-fno-sanitize=vptr', '-fsanitize-undefined-trap-on-error', '-fstack-protector-strong'], ['-static'], []),
    'asan': (['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
              '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'], [], ['-DTOOL_NO_AS_LIMIT', '-DTOOL_ASAN']),
}


def gen_templates_bin(out):
    run(['gcc', '-O1', '-w', '-D_FILE_OFFSET_BITS=64', '-o', out, REPO + '/src/gen_templates_data.c'])
    return out


_objs = {}


def variant_tool(templates, name):
    """fork server around the plain tool whose built-in templates come from another directory"""
    d = tempfile.mkdtemp(prefix='vt-', dir=scratch())
    if 'dir' not in _objs:
        build_tool('plain', fresh=True)
    run([_objs['gtd'], templates, d + '/templates_data.cpp'])
    run(['g++', '-std=gnu++23', '-I' + REPO + '/src', '-w', '-O0', '-c', d + '/templates_data.cpp', '-o', d + '/t.o'])
    os.unlink(d + '/templates_data.cpp')
    out = d + '/' + name
    run(['g++', '-o', out] + _objs['objs'] + [d + '/t.o'] + VARIANTS['plain'][1])
    os.unlink(d + '/t.o')
    return out


def build_tool(variant='plain', timeout_ms=10000, fresh=False):
    """returns the path of the fork server around the tool"""
    cflags, lflags, sflags = VARIANTS[variant]
    with open(VERIF + '/harness/toolserver.cpp', 'rb') as fh:
        hsrc = fh.read()
    cache = os.environ.get('VERIF_CACHE')
    key = None
    if cache:
        key = os.path.join(cache, 'tool-%s-%s' % (variant, tree_hash(hsrc, repr(VARIANTS[variant]), timeout_ms)))
        if os.path.exists(key) and not fresh:
            return key
    d = tempfile.mkdtemp(prefix='build-', dir=scratch())
    gtd = gen_templates_bin(d + '/gen_templates_data')
    run([gtd, REPO + '/src/templates', d + '/templates_data.cpp'])
    common0 = ['-I' + REPO + '/src', '-I' + d, '-D_FILE_OFFSET_BITS=64', '-w']
    common_san = common0 + cflags
    jobs = []
    for s in tool_sources() + [d + '/templates_data.cpp']:
        common = common_san
        if s.endswith('templates_data.cpp'):  # only data
            common = common0 + ['-O0']
        o = d + '/' + os.path.basename(s) + '.o'
        if s.endswith('.cpp'):
            jobs.append(['g++', '-std=gnu++23', '-DHAVE_PROGRAM_INVOCATION_SHORT_NAME', '-Dmain=gdo_tool_main'] + common + ['-c', s, '-o', o])
        else:
            jobs.append(['gcc', '-Dmain=gdo_tool_main'] + common + ['-c', s, '-o', o])
    so = d + '/toolserver.o'
    jobs.append(['g++', '-std=gnu++20', '-w', '-O1', '-DTOOL_TIMEOUT_MS=%d' % timeout_ms] + sflags +
                [f for f in cflags if f.startswith('-fsanitize')] + ['-c', VERIF + '/harness/toolserver.cpp', '-o', so])
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    pmap(run, jobs)
    out = d + '/toolserver'
    if variant == 'plain':
        _objs.update(dir=d, gtd=gtd, objs=[j[-1] for j in jobs if 'templates_data' not in j[-1]])
    run(['g++', '-o', out] + [j[-1] for j in jobs] + lflags + [f for f in cflags if f.startswith('-fsanitize')])
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copy2(out, key + '.tmp%d' % os.getpid())
        os.rename(key + '.tmp%d' % os.getpid(), key)
        return key
    return out
