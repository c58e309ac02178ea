"""Exhaustive parallel exploration: every item of a bounded input space is executed on the real tool."""
import array, hashlib, itertools, multiprocessing, os, sys, time, traceback
from collections import Counter
from . import build
from .server import Server, Req


def _work(k, n, path, items, make, judge, batch, q, distinct):
    try:
        sv = Server(path)
        tags = Counter()
        hashes = array.array('Q')
        problems = []
        nprob = 0
        samples = {}
        runs = 0

        def flush(chunk):
            nonlocal nprob, runs
            reqs = []
            spans = []
            for info in chunk:
                r = make(info)
                if isinstance(r, Req):
                    r = [r]
                spans.append((info, len(reqs), len(r)))
                reqs.extend(r)
            res = sv.batch(reqs)
            runs += len(reqs)
            for info, o, c in spans:
                tag, prob = judge(info, res[o:o + c])
                if prob is not None:
                    # confirm alone, with a long time limit
                    rr = []
                    for rq in reqs[o:o + c]:
                        rq.timeout_ms = 60000
                        rr.append(sv.one(rq))
                    tag, prob = judge(info, rr)
                    if prob is not None:
                        nprob += 1
                        if len(problems) < 8:
                            key = None
                            if isinstance(prob, tuple):
                                prob, key = prob
                            problems.append((prob, {'requests': [x.shell() for x in reqs[o:o + c]],
                                                    'results': [{'status': x.describe(), 'stdout': x.out[:3000].decode('utf-8', 'backslashreplace'),
                                                                 'stderr': x.err[:2000].decode('utf-8', 'backslashreplace')} for x in rr]}, key))
                tags[tag] += 1
                if tag.startswith('+'):
                    h = hashlib.blake2b(b''.join(x.enc() for x in reqs[o:o + c]), digest_size=8).digest()
                    hashes.append(int.from_bytes(h, 'little'))
                    if tag not in samples and c <= 4:
                        samples[tag] = {'requests': [x.shell() for x in reqs[o:o + c]], 'verdict': tag}
        it = iter(items())
        i = 0
        while True:
            chunk = list(itertools.islice(it, batch))
            if not chunk:
                break
            if i % n == k:
                flush(chunk)
            i += 1
        sv.close()
        q.put((k, tags, hashes.tobytes(), problems, nprob, samples, runs, None))
    except BaseException:
        q.put((k, Counter(), b'', [], 0, {}, 0, traceback.format_exc()))


def explore(ctx, path, items, make, judge, batch=128, name='', nproc=None):
    """items(): iterator of cheap infos; make(info) -> Req or [Req]; judge(info, results) -> (tag, problem or None).
    Tags beginning with + mark non-trivial cases.  Returns the tag counter."""
    n = nproc or build.NCPU
    t0 = time.time()
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=_work, args=(k, n, path, items, make, judge, batch, q, None)) for k in range(n)]
    for p in ps:
        p.daemon = True
        p.start()
    tags = Counter()
    seen = set()
    out = []
    for _ in ps:
        while True:
            try:
                r = q.get(timeout=5)
                break
            except Exception:
                dead = [p for p in ps if p.exitcode not in (None, 0)]
                if dead:
                    raise RuntimeError('exploration worker died: %s' % [p.exitcode for p in dead])
        out.append(r)
    for p in ps:
        p.join()
    out.sort(key=lambda r: r[0])
    runs = 0
    for k, t, h, problems, nprob, samples, nr, err in out:
        if err:
            raise RuntimeError('exploration worker failed:\n' + err)
        tags.update(t)
        a = array.array('Q')
        a.frombytes(h)
        seen.update(a)
        runs += nr
        for prob, rep, key in problems:
            ctx.violation('%s: %s' % (name, prob) if name else prob, rep, key)
        ctx.nviol += max(0, nprob - len(problems))
        if k == 0:
            for s in samples.values():
                ctx.sample(dict(s, space=name))
    total = sum(tags.values())
    ctx.add('evaluations', total)
    ctx.add('tool_runs', runs)
    ctx.add('distinct_nontrivial', len(seen))
    ctx.cov.setdefault('spaces', {})[name or 'all'] = {'cases': total, 'distinct_nontrivial': len(seen), 'outcomes': dict(sorted(tags.items())),
                                                     'seconds': round(time.time() - t0, 1)}
    ctx.log(name, total, 'cases', runs, 'runs', dict(tags), '%.1fs' % (time.time() - t0))
    return tags
