"""G11: output files are never overwritten silently and never written through links."""
import itertools, os
from lib import build
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration: all file system states of the output paths x output options, and all runs from every reachable state of a directory (fixpoint), each step executed on the real generator'
NOTE = 'States: 13 kinds of file at the header path x 13 at the body path, 12 spellings of -out, 5 formats, with and without -separate and -force; run sequences are explored to a fixpoint over the directory contents.'

PROTO = {'A': 'int foo(int a);\nint bar;\n', 'B': 'void quux(void);\n'}
# kind name -> entries for path p
OTHER = 'other content, not to be touched\n'


def put(kind, p):
    d = os.path.dirname(p)
    rel = os.path.basename(p)
    side = (d + '/' if d else '')
    t = 'T%s' % rel.replace('.', '_')
    return {
        'absent': [],
        'file': [(0, p, 'old ' + p + '\n')],
        'empty file': [(0, p, '')],
        'big file': [(0, p, 'x' * 200000)],
        'read-only file': [(4, p, 'old\n')],
        'file without permissions': [(5, p, 'old\n')],
        'empty directory': [(1, p, '')],
        'directory': [(1, p, ''), (0, p + '/in', OTHER)],
        'link to file': [(0, side + t, OTHER), (2, p, t)],
        'link to directory': [(1, side + t, ''), (0, side + t + '/in', OTHER), (2, p, t)],
        'dangling link': [(2, p, t + '-missing')],
        'link to itself': [(2, p, rel)],
        'fifo': [(3, p, '')],
        'hard link': [(0, side + t, OTHER), (6, p, side + t)],
    }[kind]


KINDS = ['absent', 'file', 'empty file', 'big file', 'read-only file', 'file without permissions', 'empty directory', 'directory', 'link to file', 'link to directory', 'dangling link', 'link to itself', 'fifo', 'hard link']
OUTS = ['o', 'o.h', 'o.c', 'o.txt', 'o.hpp', 'o.x.y', 'd/o.h', './o.h', '.o', 'o.', 'd.x/o', 'l/o.h', 'd/../o.h']
FORMATS = ['C', 'C++', 'minimal', 'minimal-C++', 'plugin']


def paths(fmt, sep, out):
    """documented output paths, header first"""
    if not sep or fmt.startswith('minimal'):
        return [out]
    d, b = os.path.split(out)
    i = b.rfind('.')
    stem = b if i <= 0 else b[:i]
    x = ('hpp', 'cpp') if fmt == 'C++' else ('h', 'c')
    return [os.path.join(d, '%s.%s' % (stem, e)) for e in x]


def norm(p):
    p = os.path.normpath(p)
    return 'd' + p[1:] if p.startswith('l/') else p     # l is a link to d


DIRS = [(1, 'd', ''), (1, 'd.x', ''), (2, 'l', 'd'), (0, 'neighbour.h', OTHER), (0, 'd/o', OTHER)]


def check(ctx):
    path = build.build_tool('plain')
    sv = Server(path)
    ref = {}
    for fmt in FORMATS:
        for sep in (False, True):
            for out in OUTS:
                for tpl in (False, True):
                    a = ['-format=' + fmt, '-no-date', '-out=' + out] + (['-separate'] if sep else []) + (['-template=t'] if tpl else []) + ['-']
                    fs = DIRS + ([(0, 't', '%%func_symbol%%\n')] if tpl else [])
                    r = sv.run(a, PROTO['A'].encode(), files=fs)
                    ps = [norm(p) for p in paths(fmt, sep and not tpl, out)]
                    got = {n: c for k, n, c in r.entries if k == 0 and n in ps}
                    new = sorted(n for k, n, c in r.entries if n not in [f[1] for f in fs])
                    want = sorted(p for p in ps if p != 'd/o')
                    if r.code != 0 or r.out or new != want or any(not c for c in got.values()):
                        ctx.violation('-format=%s %s -out=%s%s: %s, standard output %d bytes, new files %s instead of %s' % (fmt, '-separate' if sep else '', out, ' -template' if tpl else '', r.describe(), len(r.out), new, want), {'args': a})
                    ref[fmt, sep, out, tpl] = got
    sv.close()

    def items():
        for fmt in FORMATS:
            for sep in (False, True):
                for tpl in (False, True):
                    if tpl and (fmt != 'C'):
                        continue
                    for out in OUTS:
                        ps = paths(fmt, sep and not tpl, out)
                        small = not ctx.thorough and out not in ('o.h', 'd/o.h', 'o.txt')
                        for force in (False, True):
                            for k1 in KINDS:
                                for k2 in (KINDS if len(ps) > 1 else ['-']):
                                    if small and k2 != '-' and KINDS.index(k1) and KINDS.index(k2) and k1 != k2:
                                        continue
                                    yield fmt, sep, out, tpl, force, k1, k2
        for fmt in FORMATS:
            for out in ('missing/o.h', 'neighbour.h/o.h', 'd/missing/o', 'd/', 'd', '.', '..', '/', 'd/.', ''):
                for sep in ((False, True) if 'missing' in out or 'neigh' in out else (False,)):
                    for force in (False, True):
                        yield fmt, sep, out, False, force, None, None
            for sep in (False, True):
                yield fmt, sep, '-', False, True, None, None
                yield fmt, sep, '-', False, False, None, None
                yield fmt, sep, None, False, True, None, None

    def setup(info):
        fmt, sep, out, tpl, force, k1, k2 = info
        fs = list(DIRS) + ([(0, 't', '%%func_symbol%%\n')] if tpl else [])
        if k1 is not None:
            ps = [norm(p) for p in paths(fmt, sep and not tpl, out)]
            for p, k in zip(ps, (k1, k2)):
                e = put(k, p)
                fs = [f for f in fs if f[1] not in [x[1] for x in e]] + e
                if k == 'absent':
                    fs = [f for f in fs if f[1] != p]
        return fs

    def make(info):
        fmt, sep, out, tpl, force, k1, k2 = info
        a = ['-format=' + fmt, '-no-date'] + ([] if out is None else ['-out', out]) + (['-separate'] if sep else []) + (['-force'] if force else []) + (['-template=t'] if tpl else []) + ['-']
        return Req(a, PROTO['A'].encode(), files=setup(info))

    def before(fs):
        s = {}
        for k, n, c in fs:
            c = c.encode() if isinstance(c, str) else c
            if k in (4, 5):
                k = 0
            if k == 6:
                k, c = 0, s[c.decode()][1]
            s[n] = (k, b'' if k == 1 else c)
        return s

    def after(r):
        return {n: (k, b'' if k == 1 else c) for k, n, c in r.entries}

    def judge(info, rs):
        fmt, sep, out, tpl, force, k1, k2 = info
        r = rs[0]
        b, a = before(setup(info)), after(r)
        w = '-format=%s -out=%s%s%s%s, header path: %s, body path: %s' % (fmt, out, ' -separate' if sep else '', ' -force' if force else '', ' -template' if tpl else '', k1, k2)
        if r.code is None:
            return 'x', '%s: %s' % (w, r.describe())
        if k1 is None:
            if a != b and not (force and out in ('d/', 'd', 'd/.')):
                return 'x', '%s: files changed: %s' % (w, diff(b, a))
            if out in ('-', None):
                if r.code or not r.out:
                    return 'x', '%s: %s' % (w, r.describe())
                return '+standard output', None
            if r.code == 0 or not r.err.strip():
                return 'x', '%s: must be an error but %s' % (w, r.describe())
            return '+bad path', None
        if r.code and not r.err.strip():
            return 'x', '%s: no error message' % w
        if r.out:
            return 'x', '%s: output on standard output' % w
        ps = [norm(p) for p in paths(fmt, sep and not tpl, out)]
        ks = [k1, k2][:len(ps)]
        text = ref[fmt, sep, out, tpl]
        exist = [k != 'absent' for k in ks]
        dirs = [k in ('directory',) for k in ks]
        maydir = [k == 'empty directory' for k in ks]
        if force:
            fail = any(dirs)
            may = any(maydir)
        else:
            fail, may = any(exist), False
        if fail and r.code == 0:
            return 'x', '%s: must fail but succeeded' % w
        if not fail and not may and r.code:
            return 'x', '%s: failed: %s' % (w, r.err[:200])
        # every path that is not an output path is as before
        for n in set(b) | set(a):
            if n in ps:
                continue
            if a.get(n) != b.get(n):
                return 'x', '%s: `%s\' changed: %s' % (w, n, diff(b, a))
        for i, p in enumerate(ps):
            x, y = b.get(p), a.get(p)
            new = (0, text.get(p))
            if r.code == 0:
                if y != new:
                    return 'x', '%s: `%s\' does not hold exactly the output' % (w, p)
            else:
                # untouched, or written completely where that is permitted
                if y != x and not (y == new and (x is None or (force and not dirs[i]))):
                    return 'x', '%s: the run failed, but `%s\' changed' % (w, p)
        return '+%s, exit %d' % ('force' if force else 'no force', r.code), None

    def diff(b, a):
        return [n for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]
    explore(ctx, path, items, make, judge, name='states of the output paths')

    # histories: fixpoint over the contents of a directory
    ops = []
    for fmt in ('C', 'minimal', 'C++') if ctx.thorough else ('C', 'minimal'):
        for pr in 'AB':
            for force in (False, True):
                for out in ('o', 'o.h'):
                    for sep in (False, True):
                        if fmt == 'minimal' and sep:
                            continue
                        if fmt == 'C' and pr == 'B' and not ctx.thorough and (out == 'o' and not sep):
                            continue
                        ops.append((fmt, pr, force, out, sep))
    sv = Server(path)
    content = {}
    for fmt, pr, force, out, sep in ops:
        r = sv.run(['-format=' + fmt, '-no-date', '-out=' + out] + (['-separate'] if sep else []) + ['-'], PROTO[pr].encode(), files=[(0, 'keep', OTHER)])
        content[fmt, pr, out, sep] = {n: c for k, n, c in r.entries if n != 'keep'}
    svs = [Server(path) for _ in range(build.NCPU)]
    seen = {frozenset()}
    frontier = [frozenset()]
    trans = 0
    depth = 0

    def expand(x):
        k, states = x
        out_ = []
        for st in states:
            fs = [(0, 'keep', OTHER)] + [(0, n, c) for n, c in st]
            res = svs[k].batch([Req(['-format=' + o[0], '-no-date', '-out=' + o[3]] + (['-separate'] if o[4] else []) + (['-force'] if o[2] else []) + ['-'], PROTO[o[1]].encode(), files=fs) for o in ops])
            for o, r in zip(ops, res):
                new = content[o[0], o[1], o[3], o[4]]
                cur = dict(st)
                ok = o[2] or not any(n in cur for n in new)
                e = {n: c for k_, n, c in r.entries}
                keep = e.pop('keep', None)
                if keep != OTHER.encode():
                    return k, out_, (st, o, 'an unrelated file changed')
                if ok:
                    exp = [dict(cur, **new)]
                else:
                    exp = [cur]
                    hdr = paths(o[0], o[4], o[3])[0]
                    if hdr not in cur:
                        exp.append(dict(cur, **{hdr: new[hdr]}))
                if (r.code == 0) != ok or e not in exp:
                    return k, out_, (st, o, 'exit code %s, files %s' % (r.code, sorted(e)))
                out_.append(frozenset(e.items()))
        return k, out_, None
    while frontier:
        n = build.NCPU
        nxt = []
        for k, succ, bad in build.pmap(expand, [(k, frontier[k::n]) for k in range(n)]):
            if bad:
                st, o, what = bad
                ctx.violation('in a directory with %s: -format=%s -out=%s%s%s: %s' % (sorted(x for x, _ in st), o[0], o[3], ' -separate' if o[4] else '', ' -force' if o[2] else '', what), {'state': sorted(x for x, _ in st), 'operation': o, 'what': what})
            trans += len(succ)
            for s in succ:
                if s not in seen:
                    seen.add(s)
                    nxt.append(s)
        if ctx.viol:
            break
        frontier = nxt
        depth += 1
    for s in svs:
        s.close()
    ctx.cov['states'] = len(seen)
    ctx.cov['transitions'] = trans
    ctx.cov['traces_validated_against_impl'] = trans
    ctx.cov['history_depth'] = depth
    ctx.add('evaluations', trans)
    ctx.cov['rule'] = 'a case is one file system state with one command line; histories: one transition of the directory state graph (explored to the fixpoint)'
    ctx.assumptions += ['the checks run the tool as an unprivileged user', 'an empty directory at the output path may be replaced with -force', 'when the second of two files cannot be written the first one may have been created']
