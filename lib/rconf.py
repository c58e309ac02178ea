"""Configurations of the generated code for the explicit-state model checkers."""
from . import mc

N3 = ['foo', 'foobar', 'foo_x']
N3B = ['a', 'b_long_name', 'a1']
N5 = ['foo_a', 'foo_ab', 'bar']     # the object has not the prefix of the functions
N6 = ['foobar', 'foo', 'fo']         # every name begins with the next one
N4 = ['sub_f', 'sub_fn', 'sub_object', 'sub_log']
BUILDERS = {'c': ('mc_c', mc.build_c), 'c++': ('mc_cxx', mc.build_cxx),
            'minimal': ('mc_min', mc.build_min), 'minimal-c++': ('mc_min', mc.build_min), 'plugin': ('mc_plug', mc.build_plug)}


def C(feat, names=None, defs=(), **kw):
    # smaller message buffers make smaller states; the configurations about long texts and paths keep the original size
    buf = 0 if 'long' in feat or 'path' in feat else 900
    return dict(dict(buf=buf), **kw, machine='c', names=names or N3, defs=list(defs), feat=feat)


def c_state(thorough):
    r = [
        C('close foreign', cost=5),
        C('names', N3, cost=5), C('names', N3B), C('names', N5), C('names', N6), C('names', ['x']), C('names', ['foo', 'foo1', 'foo_o', 'foo_long']),
        C('gone'), C('nul', N3), C('nul', ['one']),
        C('close', ['only']), C('close', N4, cost=4), C('', N3, ['GDO_STATIC']), C('', N3, separate=True), C('', N3, lang='c++'),
        C('', N3, prefix='My'), C('', N4, deflib='libA.so'), C('', N3, deflib='libMID.so', separate=True), C('', N3, deflib='libNONE.so'),
        C('', N3, ['GDO_DEFAULT_FLAGS=0x1002'], deflib='libB.so'), C('names', N3, ['GDO_WRAP_FUNCTIONS']), C('names', N3, cflags=['-D_GNU_SOURCE']),
        C('', N3, args=['-param=create'], unnamed=True), C('', N3, args=['-param=skip']), C('path', N3),
    ]
    if thorough:
        for nm in (N3, N3B, N4, ['x'], ['p', 'pq']):
            for defs in ([], ['GDO_STATIC'], ['GDO_WRAP_FUNCTIONS']):
                for sep in (False, True):
                    if sep and defs == ['GDO_STATIC']:
                        continue
                    for lang in ('c', 'c++'):
                        r.append(C('close foreign gone atexit' if len(nm) < 4 else 'close foreign', nm, defs, separate=sep, lang=lang, reps=2, cost=9))
        r += [C('close foreign names nul', N3, reps=2, cost=9), C('path close gone', N3, reps=2, cost=9)]
        r += [C('close foreign nul', N4, deflib=d, cost=9) for d in ('libA.so', 'libMID.so', 'libNONE.so', 'libNUL.so')]
    return r


def c_balance(thorough):
    r = [C('close foreign', cost=5), C('close gone', cost=4), C('close atexit', N3, cost=4), C('close path', N3, cost=4), C('close', N3, separate=True), C('close', N3, ['GDO_STATIC']),
         C('close', N3, lang='c++'), C('close', N3, deflib='libMID.so'), C('close', ['x'], deflib='libA.so')]
    if thorough:
        r += [C('close foreign gone atexit', N4, reps=2, cost=9), C('close foreign gone path', N3, reps=2, cost=9), C('close atexit gone nul', N3, deflib='libA.so', reps=2, cost=9)]
    return r


def c_error(thorough):
    r = [C('close foreign', cost=5), C('long', N3, cost=4), C('long', ['x']), C('names', N3, cost=3), C('nul foreign', N3, cost=3), C('atexit foreign', N3, cost=3), C('path foreign', N3, cost=3), C('close gone foreign', ['a', 'ab']),
         C('foreign', N3, deflib='libNONE.so'), C('foreign', N3, separate=True), C('foreign', N3, lang='c++'), C('long', ['y'], ['GDO_STATIC'])]
    if thorough:
        r += [C('close foreign nul names', N3, reps=2, cost=9), C('long foreign close', ['p', 'q'], reps=2, cost=9), C('close foreign atexit nul', N4, reps=2, cost=9)]
    return r


def c_path(thorough):
    r = [C('path close gone', N3, cost=6), C('path', N4, cost=3), C('path foreign', ['x']), C('path', N3, separate=True), C('path', N3, cflags=['-D_GNU_SOURCE']), C('path', N3, lang='c++'), C('path', N3, ['GDO_STATIC'])]
    if thorough:
        r += [C('path close gone foreign', N3, reps=2, cost=9), C('path close nul', N4, reps=2, cost=9), C('path close gone', N3, lang='c++', reps=2, cost=9)]
    return r


def c_release(thorough):
    r = [C('atexit close', N3, cost=4), C('atexit gone', N3, cost=3), C('atexit', ['x']), C('atexit', N3, separate=True), C('atexit', N3, ['GDO_STATIC']), C('atexit', N3, lang='c++'),
         C('atexit', N3, deflib='libA.so'), C('atexit', N3, prefix='abc')]
    if thorough:
        r += [C('atexit close gone foreign', N3, reps=2, cost=9), C('atexit close', N4, deflib='libMID.so', reps=2, cost=9)]
    return r


def X(feat, names=None, defs=(), **kw):
    return dict(kw, machine='c++', names=names or N3, defs=list(defs), feat=feat)


def cxx_state(thorough):
    r = [X('flags few', ['x'], cost=12), X('dtor close few', ['x'], cost=10), X('', ['foo', 'foobar'], cost=5), X('close obj1', N3), X('names obj1', N3), X('names obj1', N3B), X('names obj1', N5), X('names obj1', N6),
         X('copy', ['x'], cost=4), X('obj1 gone nul close', N3), X('obj1 dtor flags copy', N3), X('obj1 path close', N3), X('obj1 close', N4), X('obj1', N3, separate=True),
         X('obj1 dtor', N3, prefix='My'), X('obj1', N3, ['GDO_WRAP_FUNCTIONS']), X('obj1 names', N4, std='gnu++20'), X('path few gone', ['x'], cost=4),
         X('', ['x'], ['GDO_ENABLE_AUTOLOAD'], deflib='libA.so', cost=4), X('obj1 flags', N3, args=['-param=skip'])]
    if thorough:
        r += [X('dtor close', ['x'], cost=20, reps=2, states=3000000), X('flags dtor few', ['x'], cost=20, states=3000000), X('close foreign', ['foo', 'foobar'], cost=20, states=3000000),
              X('obj3 few', ['x'], cost=20, states=3000000), X('copy dtor few', ['x'], cost=20, states=3000000), X('obj1 close dtor flags nul gone', N4, reps=2, cost=9), X('close path few', ['p', 'pq'], cost=20, states=3000000)]
    return r


def cxx_balance(thorough):
    r = [X('dtor close few', ['x'], cost=10), X('close obj1 dtor gone copy', N3), X('obj1 path close', N3), X('close', ['x'], separate=True, cost=5), X('obj1 close', N3, ['GDO_ENABLE_AUTOLOAD'], deflib='libMID.so')]
    if thorough:
        r += [X('dtor close copy few', ['x'], cost=20, states=3000000, reps=2), X('obj3 few', ['x'], cost=20, states=3000000), X('close', ['a', 'b'], cost=20, states=3000000)]
    return r


def cxx_error(thorough):
    r = [X('', ['foo', 'foobar'], cost=6), X('obj1 close foreign gone', N3), X('obj1 names nul foreign', N3), X('obj1 long', N3), X('obj1 path foreign', N3), X('close few', ['x'], cost=6), X('obj1 foreign flags', N3, separate=True)]
    if thorough:
        r += [X('close foreign', ['a', 'b'], cost=20, states=3000000), X('obj1 long nul close foreign', N4, reps=2, cost=5), X('obj3 few', ['x'], cost=20, states=3000000)]
    return r


def cxx_path(thorough):
    r = [X('path few gone', ['x'], cost=6), X('path close gone obj1', N3), X('path obj1 copy dtor', N4), X('path obj1', N3, separate=True), X('path obj1', N3, std='gnu++20')]
    if thorough:
        r += [X('path close few', ['a', 'b'], cost=20, states=3000000, reps=2)]
    return r


def wrap(thorough):
    r = [C('call close', N4, ['GDO_WRAP_FUNCTIONS'], cost=5), C('call', N3, ['GDO_WRAP_FUNCTIONS'], separate=True), C('call', N3, ['GDO_WRAP_FUNCTIONS'], lang='c++'), C('call', N4, ['GDO_WRAP_FUNCTIONS', 'GDO_STATIC']),
         C('call', N4, ['GDO_WRAP_FUNCTIONS'], prefix='other'), C('call', N3, ['GDO_WRAP_FUNCTIONS', 'GDO_WRAP_VISIBILITY=__attribute__((visibility("default")))']),
         C('call nul', N4, ['GDO_WRAP_FUNCTIONS']), X('call obj1 close', N4, ['GDO_WRAP_FUNCTIONS']), X('call obj1', N3, ['GDO_WRAP_FUNCTIONS'], separate=True), X('call obj1 nul', N4, ['GDO_WRAP_FUNCTIONS'], std='gnu++20'),
         X('call few', ['x'], ['GDO_WRAP_FUNCTIONS'], cost=4), C('call', N4, ['GDO_WRAP_FUNCTIONS'], deflib='libA.so')]
    if thorough:
        r += [C('call close foreign gone', N4, ['GDO_WRAP_FUNCTIONS'], reps=2, cost=9), X('call obj1 dtor close nul gone', N4, ['GDO_WRAP_FUNCTIONS'], reps=2), X('call close few', ['x', 'y'], ['GDO_WRAP_FUNCTIONS'], cost=9, states=3000000)]
    return r


def auto(thorough):
    r = []
    for defs in (['GDO_ENABLE_AUTOLOAD'], ['GDO_ENABLE_AUTOLOAD_LAZY']):
        for dl in ('libA.so', 'libMID.so', 'libNONE.so'):
            r.append(C('call close', N3, defs, deflib=dl, cost=3))
            r.append(X('call obj1 close', N4, defs, deflib=dl, cost=2))
        r += [C('call gone', ['x', 'y'], defs, deflib='libA.so', cost=3), C('call nul', N4, defs, deflib='libNUL.so', cost=4), C('call atexit', ['x', 'y'], defs, deflib='libA.so', cost=3), C('call', N3, defs, deflib='libFIRST.so', separate=True),
              C('call', N3, defs, deflib='libLAST.so', lang='c++'), C('call', N4, defs + ['GDO_STATIC'], deflib='libMID.so', cost=2), C('call', N3, defs, deflib='libA.so', prefix='pre'),
              C('call', ['x', 'y'], defs, deflib='lib%d%s%n.so'), C('call', N3, defs + ['GDO_WRAP_VISIBILITY=__attribute__((visibility("default")))'], deflib='libMID.so'),
              X('call obj1 gone', N3, defs, deflib='libA.so'), X('call obj1 nul', N4, defs, deflib='libNUL.so'), X('call obj1', N3, defs, deflib='libLAST.so', separate=True), X('call obj1', N3, defs, deflib='libFIRST.so', prefix='pre', std='gnu++17'),
              X('call few', ['x'], defs, deflib='libA.so', cost=4), X('call obj1', ['x', 'y'], defs, deflib='lib%d%s%n.so')]
    if thorough:
        for defs in (['GDO_ENABLE_AUTOLOAD'], ['GDO_ENABLE_AUTOLOAD_LAZY']):
            for dl in ('libA.so', 'libMID.so', 'libNUL.so'):
                r.append(C('call close foreign gone atexit', N4 if dl != 'libA.so' else N3, defs, deflib=dl, cost=15, reps=2, states=2000000))
                r.append(X('call close gone few', ['x', 'y'], defs, deflib=dl, cost=15, states=3000000))
    return r


def G(machine, feat, names=None, defs=(), **kw):
    return dict(kw, machine=machine, names=names or N3, defs=list(defs), feat=feat)


def minimal(m, thorough):
    r = [G(m, 'call close foreign gone nul', N4), G(m, 'call', N3), G(m, 'call nul', ['x']), G(m, 'call close', N3B), G(m, 'call close gone', ['p', 'q']), G(m, 'call', N3, prefix='Xyz'),
         G(m, 'call', N3, cflags=['-D_GNU_SOURCE']), G(m, 'call', N4, args=['-param=create'], unnamed=True), G(m, 'call close', N4, args=['-param=skip'])]
    r += [G(m, 'call close', N4, ['GDO_STATIC']), G(m, 'call close', N4, lang='c++')] if m == 'minimal' else [G(m, 'call close', N4, std='gnu++20'), G(m, 'call', N3, std='gnu++17')]
    if thorough:
        r = [dict(c, feat='call close foreign gone nul', reps=4) for c in r]
    return r


def plugin(thorough):
    r = [G('plugin', 'close len3', N3, cost=4), G('plugin', 'close gone nul', N4, cost=3), G('plugin', '', ['x']), G('plugin', '', N3, separate=True), G('plugin', '', N4, ['GDO_STATIC']), G('plugin', '', N3, lang='c++'),
         G('plugin', '', N3, prefix='Xyz'), G('plugin', 'nul', N3, ['GDO_DEFAULT_FLAGS=0x102']), G('plugin', 'sets3', ['p', 'q'], cost=4)]
    if thorough:
        r += [G('plugin', 'close gone nul len3', N4, cost=9, states=4000000), G('plugin', 'sets3 close nul', N3, cost=9, states=4000000)]
    return r


def balance_all(thorough):
    r = c_balance(thorough) + cxx_balance(thorough)
    for m in ('minimal', 'minimal-c++'):
        r += [G(m, 'call close foreign gone nul', N4), G(m, 'close', ['x'])]
    return r + [G('plugin', 'close gone', N3, cost=3), G('plugin', 'close nul sets3', ['x'])]


def windows(thorough):
    """the same machines and models, with code compiled for Windows on top of a mock of its API"""
    r = []
    for w in ('api', 'apiw', 'dl', 'dlw'):
        r += [C('close foreign', ['foo', 'foobar'], win=w, cost=4), C('path', ['x'], win=w, cost=3), C('names', ['foo', 'fo'], win=w, cost=3), C('close atexit', ['x'], win=w), C('', N3, win=w, separate=True),
              C('', N3, win=w, lang='c++'), C('', N3, ['GDO_STATIC'], win=w), C('', ['x', 'y'], win=w, deflib='libA.so', prefix='My'),
              X('obj1 foreign close', N3, win=w, cost=3), X('few close', ['x'], win=w, cost=5), X('obj1 path', N3, win=w, cost=2), X('obj1 names', N3B, win=w, cost=2), X('obj1', N3, win=w, separate=True), X('obj1 dtor flags', ['x'], win=w),
              G('plugin', 'close', N3, win=w, cost=2), G('plugin', '', N3, win=w, lang='c++'), G('plugin', 'sets3', ['x'], win=w, separate=True)]
        for box in ([], ['GDO_USE_MESSAGE_BOX']):
            r += [C('call', N4, ['GDO_WRAP_FUNCTIONS'] + box, win=w), X('call obj1', N4, ['GDO_WRAP_FUNCTIONS'] + box, win=w),
                  C('call', ['x', 'y'], ['GDO_ENABLE_AUTOLOAD'] + box, win=w, deflib='libA.so', cost=3), C('call', N3, ['GDO_ENABLE_AUTOLOAD_LAZY'] + box, win=w, deflib='libMID.so', cost=3), C('call', ['x'], ['GDO_ENABLE_AUTOLOAD'] + box, win=w, deflib='libNONE.so'),
                  X('call obj1', ['x', 'y'], ['GDO_ENABLE_AUTOLOAD'] + box, win=w, deflib='libA.so'), X('call obj1', N3, ['GDO_ENABLE_AUTOLOAD_LAZY'] + box, win=w, deflib='libMID.so'), X('call obj1', ['x'], ['GDO_ENABLE_AUTOLOAD'] + box, win=w, deflib='libNONE.so')]
        if w.startswith('dl'):
            r += [C('nul close', ['foo', 'foobar'], win=w), X('obj1 nul', N3, win=w), G('plugin', 'nul', N4, win=w)]
    for w in ('api', 'dl'):
        for m in ('minimal', 'minimal-c++'):
            r += [G(m, 'call close foreign gone', N4, win=w), G(m, 'call', N3B, win=w)] + ([G(m, 'call nul', N3, win=w)] if w == 'dl' else [])
    r += [C('long', ['x'], win='api', cost=4), C('foreign', ['x', 'y'], ['GDO_CONVERT_FILENAME'], win='api', cost=3), C('path', ['x'], ['GDO_CONVERT_FILENAME'], win='api', lang='c++'), C('close', ['x'], win='api', fmtfail=True), C('close', ['x'], win='apiw', fmtfail=True)]
    for w in ('api', 'apiw'):
        for t in ('w', 'nw', 'wn', 'c'):
            r += [X('obj1 foreign close', N3, win=w, text=t, cost=2), X('few', ['x'], win=w, text=t, cost=2), X('obj1 path', ['x'], win=w, text=t), X('obj1 names flags', ['x', 'xy'], win=w, text=t)]
        r += [X('obj1 close', N3, win=w, text='n', fmtfail=True), X('obj1', N3, win=w, text='w', fmtfail=True), X('obj1 long', ['x'], win=w)]
    if not thorough:
        r = [dict(c, states=20000 if 'few' in c['feat'] else 80000 if c['machine'] == 'plugin' else 40000 if c['machine'] == 'c' else 60000) for c in r]
    if thorough:
        r = [dict(c, reps=3) for c in r]
        r += [C('close foreign', N3, win=w, cost=9, reps=2) for w in ('api', 'apiw', 'dl')]
        r += [X('close foreign', ['x'], win=w, text=t, cost=9, states=3000000) for w, t in (('api', 'n'), ('apiw', 'w'), ('api', 'c'), ('dl', 'n'))]
        r += [X('dtor close few', ['x'], win=w, text=t, cost=9, states=3000000) for w, t in (('api', 'wn'), ('apiw', 'nw'))]
    return r


def platforms(thorough):
    """the same machines and models on AIX, macOS, Android, FreeBSD, and Linux with PROCMAP_QUERY"""
    r = []
    for p in ('aix', 'apple', 'android', 'freebsd', 'procmap'):
        r += [C('path', ['x', 'y'], plat=p, cost=3), C('path close', ['x'], plat=p, cost=2), C('close foreign', ['foo', 'foobar'], plat=p, cost=2), C('path', ['x'], plat=p, lang='c++'), C('path', ['x'], plat=p, separate=True),
              X('obj1 path', ['x', 'y'], plat=p, cost=2), X('obj1 path close', ['x'], plat=p, separate=True), X('obj1 flags close', N3, plat=p), X('path few', ['x'], plat=p, cost=3),
              C('call', ['x', 'y'], ['GDO_ENABLE_AUTOLOAD'], plat=p, deflib='libA.so'), X('call obj1', ['x', 'y'], ['GDO_ENABLE_AUTOLOAD_LAZY'], plat=p, deflib='libMID.so'), C('close atexit', ['x'], plat=p)]
    if not thorough:
        return [dict(c, states=60000) for c in r]
    r = [dict(c, reps=3) for c in r]
    for p in ('aix', 'procmap', 'freebsd', 'apple'):
        r += [C('path close gone foreign', N3, plat=p, reps=2, cost=9), X('obj1 path close gone', N3, plat=p, reps=2, cost=9)]
    return r
