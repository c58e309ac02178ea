"""Runs a set of model checker configurations and reports one property's violations."""
import os, time
from . import build, mc


class GeneratedCodeError(Exception):
    pass


def describe(cfg):
    o = [cfg['machine'], 'symbols ' + ','.join(cfg['names']) if 'names' in cfg else '']
    for k in ('defs', 'args', 'deflib', 'separate', 'lang', 'prefix', 'cflags', 'win', 'text', 'fmtfail', 'feat', 'reps', 'plat', 'note'):
        if cfg.get(k):
            v = cfg[k]
            o.append('%s=%s' % (k, ' '.join(v) if isinstance(v, list) else v))
    return ', '.join(x for x in o if x)


def run_suite(ctx, cfgs, cats, builders, states=900000, sec=240):
    """cfgs: list of dicts with machine, feat, reps, ...; builders: machine -> (engine source, build function)"""
    root = build.scratch() + '/mc'
    os.makedirs(root, exist_ok=True)
    gen = mc.Gen()
    need = sorted({builders[c['machine']][0] for c in cfgs})
    engines = dict(zip(need, build.pmap(lambda s: mc.engine_obj(s, root), need)))
    ctx.log('engines built')
    exes = []
    jobs = []
    for i, c in enumerate(cfgs):
        src, fn = builders[c['machine']]
        try:
            jobs.append((i, c, fn(gen, engines[src], root, c, i)))
        except build.BuildError as e:
            ctx.violation('nothing was generated (%s): %s' % (describe(c), str(e)[:1200]), {'config': describe(c), 'error': str(e)[:3000]}, key='gen-%d' % i)
    # compile in parallel: the builders return thunks
    def comp(j):
        i, c, thunk = j
        try:
            return thunk()
        except build.BuildError as e:
            return e
    exes = build.pmap(comp, jobs)
    ctx.log('%d configurations built' % len(cfgs))
    gen.srv.close()
    work = []
    for (i, c, _), x in zip(jobs, exes):
        if isinstance(x, Exception):
            ctx.violation('the generated code cannot be built (%s): %s' % (describe(c), str(x)[:1200]), {'config': describe(c), 'error': str(x)[:3000]}, key='build-%d' % i)
            continue
        work.append((c, x))
    # largest first
    work.sort(key=lambda w: -w[0].get('cost', 1))

    def run(w):
        c, x = w
        t = time.time()
        args = ['features', mc.feats(c.get('feat', '')), 'reps', c.get('reps', 1), 'states', c.get('states', states), 'sec', sec]
        r = mc.run_mc(x, args, timeout=sec + 120)
        r['sec'] = time.time() - t
        return r
    res = build.pmap(run, work)
    depth = 0
    incomplete = 0
    for (c, x), r in zip(work, res):
        if 'crash' in r:
            ctx.violation('%s: the program crashed or hung (signal %s) after %s' % (describe(c), r.get('signal', '?'), ' ; '.join(r.get('path') or ['?'])),
                          {'config': describe(c), 'history': r.get('path'), 'crash': r['crash']}, key='crash-' + describe(c))
            continue
        ctx.add('configurations')
        ctx.add('states', r['states'])
        ctx.add('transitions', r['transitions'])
        ctx.add('distinct_states', r['distinct'])
        ctx.add('traces_validated_against_impl', r['replayed'])
        depth = max(depth, r['depth'])
        incomplete += not r['complete']
        ctx.log('%-90s %7d states %8d transitions depth %d %s %.1fs %s' % (describe(c)[:90], r['states'], r['transitions'], r['depth'], 'complete' if r['complete'] else 'INCOMPLETE', r['sec'], r['counts'] or ''))
        for p in r['paths'][:1]:
            ctx.sample('%s: %s' % (describe(c), ' ; '.join(p)))
        for v in r['violations']:
            if v['cat'] in cats:
                ctx.violation('%s: %s\n    history: %s' % (describe(c), v['what'], ' ; '.join(v['path'])),
                              {'config': describe(c), 'history': v['path'], 'what': v['what']}, key=v['cat'] + ':' + v['what'][:60] + describe(c))
    ctx.cov['max_depth'] = max(ctx.cov.get('max_depth', 0), depth)
    ctx.cov['configurations_explored_to_the_end'] = ctx.cov.get('configurations_explored_to_the_end', 0) + len(work) - incomplete
