"""Builds and runs the explicit-state model checkers over generated code."""
import json, os, re, subprocess, tempfile
from . import build, server

REDEF = ['dlopen', 'dlmopen', 'dlsym', 'dlclose', 'dlerror', 'dlinfo', 'dladdr', 'fopen', 'atexit', 'exit', '_exit', 'abort', 'loadquery', 'open', 'close', 'ioctl']
PROTOS = ['int %s(int a, int b);', 'void %s(double x, const char *s);', 'extern int %s;', 'long %s(const char *fmt, ...);']
UNNAMED = ['int %s(int, int);', 'void %s(double, const char *);', 'extern int %s;', 'long %s(const char *, ...);']
USES = ['return %s(31, 17);', '%s(2.5, "text"); return 0;', '{ int r = %s; %s = %s + 1; return r; }', 'return %s("format" + 0, 5, "var", 0.25);']
RAWUSES = ['return %s(31, 17);', '%s(2.5, "text"); return 0;', '{ int r = *%s; *%s = *%s + 1; return r; }', 'return %s("format" + 0, 5, "var", 0.25);']
FEAT = {'path': 1, 'long': 2, 'atexit': 4, 'gone': 8, 'nul': 16, 'call': 32, 'names': 64, 'close': 128, 'foreign': 256,
        'copy': 4, 'flags': 512, 'obj1': 1024, 'obj3': 2048, 'dtor': 4096, 'few': 8192, 'len3': 32768, 'sets3': 65536}


def feats(s):
    return sum(FEAT[x] for x in s.split())


class Gen:
    """generator runs through the fork server"""

    def __init__(self):
        self.exe = build.build_tool()
        self.srv = server.Server(self.exe)

    def header(self, protos, args, outdir, name='gen.h', separate=False, buflen=None):
        """generates outdir/name (and the body with separate); returns the list of files.
        buflen: value to be given to the macro GDO_BUFLEN (smaller states), if the file defines it"""
        r = self.srv.run(['-no-date'] + args + (['-separate'] if separate else []) + ['-out=' + name, '-'], stdin=protos.encode(), snap=True)
        if r.code != 0:
            raise build.BuildError('generator failed: %s: %s' % (args, r.err))
        files = []
        for kind, n, content in r.entries:
            if n.rsplit('.', 1)[0] == name.rsplit('.', 1)[0]:
                if buflen:
                    content = re.sub(rb'(?m)^([ \t]*#[ \t]*define[ \t]+[A-Za-z]+_BUFLEN[ \t]).*$', rb'\g<1> %d' % buflen, content)
                    content = content.replace(b'[(64*1024) / sizeof(', b'[(4*1024) / sizeof(')
                with open(outdir + '/' + n, 'wb') as fh:
                    fh.write(content)
                files.append(n)
        return sorted(files)


def ldr(objs, out, redef=REDEF, extra=()):
    """one object whose writable memory is in one section and whose system calls go to the mock"""
    t = out + '.tmp.o'
    build.run(['ld', '-r', '--force-group-allocation', '-T', build.VERIF + '/harness/impl.ld', '-o', t] + objs)
    cmd = ['objcopy']
    for n in redef:
        cmd += ['--redefine-sym', '%s=mock_%s' % (n, n)]
    cmd += ['--redefine-sym', '__cxa_atexit=mock_cxa_atexit']
    build.run(cmd + list(extra) + [t, out])
    os.unlink(t)


_engine = {}


def engine_obj(src, outdir):
    """compiled machine; shared by all configurations"""
    o = '%s/%s.o' % (outdir, src)
    build.run(['g++', '-std=gnu++17', '-O2', '-g0', '-w', '-fno-pie', '-c', '%s/harness/%s.cpp' % (build.VERIF, src), '-o', o])
    return o


def link(engine, impl, out):
    build.run(['g++', '-no-pie', '-o', out, engine, impl])


def run_mc(exe, args=(), timeout=800):
    """runs a machine; result is its report; a crash is reported as such"""
    p = subprocess.run([exe] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    out = p.stdout.decode(errors='replace').strip()
    if p.returncode == 0 and out:
        r = json.loads(out.splitlines()[-1])
        if 'error' in r:
            raise build.BuildError('%s: %s' % (exe, r['error']))
        return r
    last = [l for l in out.splitlines() if l.startswith('{')]
    return {'crash': 'exit status %d' % p.returncode, 'path': json.loads(last[-1]).get('crash') if last else None, 'stderr': p.stderr.decode(errors='replace')[-500:]}


# what an adapter may use to convert text
CONVERT = '''#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
const char *mc_narrow(const wchar_t *);
const wchar_t *mc_wide(const char *);
#ifdef __cplusplus
}
#endif
'''


def win_conf(cfg):
    w = cfg.get('win')
    if not w:
        return {'aix': 256, 'apple': 512, 'android': 512, 'procmap': 1024, 'freebsd': 2048}.get(cfg.get('plat'), 0)
    return (16 if w.startswith('api') else 32) | (64 if cfg.get('fmtfail') else 0) | (128 if 'GDO_CONVERT_FILENAME' in cfg['defs'] and w == 'api' or cfg.get('text') == 'c' else 0)


def win_flags(cfg):
    """compiler options which make the target look like Windows"""
    w = cfg.get('win')
    p = build.VERIF + '/harness/plat'
    if cfg.get('plat') == 'procmap':
        return ['-isystem', p + '/procmap']
    if cfg.get('plat'):
        return ['-include', '%s/%s.h' % (p, cfg['plat']), '-I' + p + '/aix']
    if not w:
        return []
    d = build.VERIF + '/harness/win'
    pu = cfg.get('prefix', 'gdo').upper()
    return ['-include', d + '/pre.h', '-I' + d] + (['-D_UNICODE', '-DUNICODE'] if w.endswith('w') else []) + (['-D%s_USE_DLOPEN' % pu] if w.startswith('dl') else []) + (['-D__MINGW32__'] if cfg.get('mingw') else [])


def c_adapter(cfg):
    pl, pu = cfg.get('prefix', 'gdo'), cfg.get('prefix', 'gdo').upper()
    pl = pl.lower()
    names = cfg['names']
    deflib = cfg.get('deflib')
    conf = 0
    if 'GDO_WRAP_FUNCTIONS' in cfg['defs']:
        conf |= 1
    if 'GDO_ENABLE_AUTOLOAD' in cfg['defs'] or 'GDO_ENABLE_AUTOLOAD_LAZY' in cfg['defs']:
        conf |= 2
    if 'GDO_ENABLE_AUTOLOAD_LAZY' in cfg['defs']:
        conf |= 4
    if deflib:
        conf |= 8
    conf |= win_conf(cfg)
    o = []
    for d in cfg['defs']:
        if d.startswith('GDO_'):
            k, _, v = d.partition('=')
            o.append('#define %s_%s %s' % (pu, k[4:], v))
    o.append('#include "gen.h"\n#include "capi.h"')
    wide = cfg.get('win') == 'apiw'
    o.append(CONVERT)
    I, O = ('mc_wide', 'mc_narrow') if wide else ('', '')

    def f(ret, name, params, body):
        o.append('static %s w_%s(%s) { %s }' % (ret, name, params, body))
    if deflib:
        f('int', 'load_lib', 'void', 'return gdo_load_lib();')
        f('int', 'load_lib_and_symbols', 'void', 'return gdo_load_lib_and_symbols();')
    f('int', 'load_name', 'const char *n', 'return gdo_load_lib_name(%s(n));' % I)
    f('int', 'load_name_and_symbols', 'const char *n', 'return gdo_load_lib_name_and_symbols(%s(n));' % I)
    f('int', 'load_args', 'const char *n, int f, int ns', 'return gdo_load_lib_args(%s(n), f, ns != 0);' % I)
    for a, b in (('is_loaded', 'lib_is_loaded'), ('free_lib', 'free_lib'), ('autorelease', 'enable_autorelease'), ('load_all', 'load_all_symbols'),
                 ('all', 'all_symbols_loaded'), ('none', 'no_symbols_loaded'), ('any', 'any_symbol_loaded')):
        f('int', a, 'void', 'return gdo_%s();' % b)
    f('void', 'force_free', 'void', 'gdo_force_free_lib();')
    f('int', 'load_symbol', 'int n', 'return gdo_load_symbol(n);')
    f('int', 'load_symbol_name', 'const char *n', 'return gdo_load_symbol_name(n);')
    f('const char *', 'last_error', 'void', 'return %s(gdo_last_error());' % O)
    f('const char *', 'library_path', 'void', 'return %s(gdo_library_path());' % O)
    f('void *', 'raw', 'int i', 'switch (i) { %s } return 0;' % ' '.join('case %d: return (void *)GDO_RAWPTR_%s;' % (i, n) for i, n in enumerate(names)))
    f('int', 'enumval', 'int i', 'switch (i) { %s } return -1;' % ' '.join('case %d: return GDO_LOAD_%s;' % (i, n) for i, n in enumerate(names)))
    noalias = 'GDO_DISABLE_ALIASING' in cfg['defs']
    uses = []
    for i, n in enumerate(names):
        if noalias:
            u, n2 = RAWUSES[i], 'GDO_RAWPTR_' + n
        else:
            u, n2 = USES[i], n
        uses.append('case %d: %s' % (i, u.replace('%s', n2)))
    f('long', 'call', 'int i', 'switch (i) { %s } return 0;' % ' '.join(uses))
    L = ['load_lib', 'load_lib_and_symbols'] if deflib else []
    vals = [str(conf), str(len(names)), '{ %s }' % ', '.join(['"%s"' % n for n in names] + ['0'] * (4 - len(names))),
            '"%s"' % deflib if deflib else '0', '(int)(GDO_DEFAULT_FLAGS)', 'GDO_BUFLEN']
    vals += ['w_load_lib', 'w_load_lib_and_symbols'] if deflib else ['0', '0']
    vals += ['w_' + x for x in ('load_name', 'load_name_and_symbols', 'load_args', 'is_loaded', 'free_lib', 'force_free', 'autorelease', 'load_all',
                                'load_symbol', 'load_symbol_name', 'all', 'none', 'any', 'last_error', 'library_path', 'raw', 'enumval')]
    vals += ['GDO_ENUM_LAST', 'w_call']
    o.append('#ifdef __cplusplus\nextern "C"\n#endif\nconst struct capi the_capi = { %s };' % ', '.join(vals))
    text = '\n'.join(o) + '\n'
    if pl != 'gdo':
        text = text.replace('gdo_', pl + '_').replace('GDO_', pu + '_')
    return text


def build_c(gen, engine, root, cfg, idx):
    """cfg: names, defs, args, deflib, separate, lang ('c'|'c++'), prefix, cflags"""
    d = '%s/cfg%d' % (root, idx)
    os.makedirs(d)
    pr = UNNAMED if cfg.get('unnamed') else PROTOS
    protos = '\n'.join(pr[i] % n for i, n in enumerate(cfg['names'])) + '\n'
    args = list(cfg.get('args', []))
    if cfg.get('prefix', 'gdo') != 'gdo':
        args.append('-prefix=' + cfg['prefix'])
    if cfg.get('deflib'):
        args.append('-library=' + cfg['deflib'])
    gen.header(protos, args, d, separate=cfg.get('separate', False), buflen=cfg.get('buf'))
    with open(d + '/adapter.c', 'w') as fh:
        fh.write(c_adapter(cfg))
    def comp():
        cxx = cfg.get('lang') == 'c++'
        cc = ['g++', '-std=gnu++11', '-x', 'c++'] if cxx else ['gcc']
        cc += ['-O1', '-g0', '-w', '-fno-pie', '-fno-stack-protector', '-I' + build.VERIF + '/harness', '-I' + d] + win_flags(cfg) + cfg.get('cflags', [])
        objs = [d + '/adapter.o']
        build.run(cc + ['-c', d + '/adapter.c', '-o', objs[0]])
        if cfg.get('separate'):
            pu = cfg.get('prefix', 'gdo').upper()
            defs = []
            for x in cfg['defs']:
                k, _, v = x.partition('=')
                defs.append('-D%s_%s=%s' % (pu, k[4:], v))
            objs.append(d + '/body.o')
            build.run(cc + defs + ['-c', d + '/gen.c', '-o', objs[1]])
        ldr(objs, d + '/impl.o')
        link(engine, d + '/impl.o', d + '/mc')
        return d + '/mc'
    return comp


def cxx_adapter(cfg):
    pl, pu = cfg.get('prefix', 'gdo').lower(), cfg.get('prefix', 'gdo').upper()
    names = cfg['names']
    deflib = cfg.get('deflib')
    conf = 0
    if 'GDO_WRAP_FUNCTIONS' in cfg['defs']:
        conf |= 1
    if 'GDO_ENABLE_AUTOLOAD' in cfg['defs'] or 'GDO_ENABLE_AUTOLOAD_LAZY' in cfg['defs']:
        conf |= 2
    if 'GDO_ENABLE_AUTOLOAD_LAZY' in cfg['defs']:
        conf |= 4
    conf |= win_conf(cfg)
    o = []
    for d in cfg['defs']:
        if d.startswith('GDO_'):
            k, _, v = d.partition('=')
            o.append('#define %s_%s %s' % (pu, k[4:], v))
    o.append('#include "gen.hpp"\n#include <new>\n#include "cxxapi.h"')
    o.append('alignas(16) static char store[3][(sizeof(gdo::dl) + 15) / 16 * 16];')
    o.append('static gdo::dl &D(int i) { return *reinterpret_cast<gdo::dl *>(store[i]); }')

    def f(ret, name, params, body):
        o.append('static %s w_%s(%s) { %s }' % (ret, name, params, body))
    f('void', 'construct', 'int i', 'new (store[i]) gdo::dl();')
    # text: kind of strings passed in and given back; n narrow, w wide, c narrow and converted by the class
    tin, tout = {'n': 'nn', 'w': 'ww', 'nw': 'nw', 'wn': 'wn', 'c': 'cn'}[cfg.get('text', 'n')]
    win = cfg.get('win', '').startswith('api')
    o.append(CONVERT)
    name = {'n': 'std::string(n)', 'w': 'std::wstring(mc_wide(n))', 'c': 'true, std::string(n)'}[tin] if win else 'n'
    args = name + (', fl' if win and tin != 'n' else ', fl, ns')
    f('void', 'construct_name', 'int i, const char *n', 'new (store[i]) gdo::dl(%s);' % name)
    f('void', 'construct_args', 'int i, const char *n, int fl, bool ns', 'new (store[i]) gdo::dl(%s);' % args)
    f('void', 'construct_copy', 'int i, int j', 'new (store[i]) gdo::dl(D(j));')
    f('void', 'destroy', 'int i', 'D(i).~dl();')
    f('bool', 'load', 'int i', 'return D(i).load();')
    f('bool', 'load_name', 'int i, const char *n', 'return D(i).load(%s);' % name)
    f('bool', 'load_args', 'int i, const char *n, int fl, bool ns', 'return D(i).load(%s);' % args)
    f('bool', 'load_lib_and_symbols', 'int i', 'return D(i).load_lib_and_symbols();')
    f('bool', 'lib_loaded', '', 'return gdo::dl::lib_loaded();')
    f('int', 'flags', 'int i', 'return D(i).flags();')
    f('bool', 'load_all', 'int i', 'return D(i).load_all_symbols();')
    f('bool', 'load_symbol', 'int i, int n', 'return D(i).load_symbol(n);')
    f('bool', 'load_symbol_name', 'int i, const char *n', 'return D(i).load_symbol(n);')
    for a in ('all_symbols', 'no_symbols', 'any_symbol'):
        f('bool', a, 'int i', 'return D(i).%s_loaded();' % a)
    f('bool', 'free_lib', 'int i, int force', 'return force == 0 ? D(i).free() : D(i).free(force == 2);')
    f('void', 'set_dtor', 'int i, bool b', 'D(i).free_lib_in_dtor(b);')
    f('bool', 'get_dtor', 'int i', 'return D(i).free_lib_in_dtor();')
    for a in ('library_path', 'filename', 'error'):
        if tout == 'w' and win:
            # every character of the string counts, zeros too
            f('void', a, 'int i, sink_t s', 'std::wstring r = D(i).%s_w(); std::string t; for (size_t k = 0; k < r.size(); k++) { wchar_t c[2] = { r[k], 0 }; if (r[k]) t += mc_narrow(c); else t += \'\\0\'; } s(t.data(), t.size());' % a)
        else:
            f('void', a, 'int i, sink_t s', 'std::string r = D(i).%s(); s(r.data(), r.size());' % a)
    f('void *', 'raw', 'int i', 'switch (i) { %s } return 0;' % ' '.join('case %d: return (void *)GDO_RAWPTR_%s;' % (i, n) for i, n in enumerate(names)))
    f('int', 'enumval', 'int i', 'switch (i) { %s } return -1;' % ' '.join('case %d: return GDO_LOAD_%s;' % (i, n) for i, n in enumerate(names)))
    noalias = 'GDO_DISABLE_ALIASING' in cfg['defs']
    uses = []
    for i, n in enumerate(names):
        u, n2 = (RAWUSES[i], 'GDO_RAWPTR_' + n) if noalias else (USES[i], n)
        uses.append('case %d: %s' % (i, u.replace('%s', n2)))
    f('long', 'call', 'int i', 'switch (i) { %s } return 0;' % ' '.join(uses))
    if conf & 3:
        f('void', 'set_callback', 'void (*cb)(const char *)', 'gdo::dl::message_callback(cb);')
        o.append('static void (*w_get_callback())(const char *) { return gdo::dl::message_callback(); }')
    vals = [str(conf), str(len(names)), '{ %s }' % ', '.join(['"%s"' % n for n in names] + ['0'] * (4 - len(names))),
            '"%s"' % deflib if deflib else '0', '(int)(GDO_DEFAULT_FLAGS)', 'GDO_BUFLEN', '(void *)store', 'sizeof store[0]']
    vals += ['w_' + x for x in ('construct construct_name construct_args construct_copy destroy load load_name load_args load_lib_and_symbols lib_loaded flags load_all '
                                'load_symbol load_symbol_name all_symbols no_symbols any_symbol free_lib set_dtor get_dtor library_path filename error raw enumval').split()]
    vals += ['GDO_ENUM_LAST', 'w_call'] + (['w_set_callback', 'w_get_callback'] if conf & 3 else ['0', '0'])
    o.append('const cxxapi the_cxxapi = { %s };' % ', '.join(vals))
    text = '\n'.join(o) + '\n'
    if pl != 'gdo':
        text = text.replace('gdo::', pl + '::').replace('GDO_', pu + '_')
    return text


def build_cxx(gen, engine, root, cfg, idx):
    d = '%s/cfg%d' % (root, idx)
    os.makedirs(d)
    protos = '\n'.join(PROTOS[i] % n for i, n in enumerate(cfg['names'])) + '\n'
    args = list(cfg.get('args', [])) + ['-format=c++']
    if cfg.get('prefix', 'gdo') != 'gdo':
        args.append('-prefix=' + cfg['prefix'])
    if cfg.get('deflib'):
        args.append('-library=' + cfg['deflib'])
    gen.header(protos, args, d, name='gen.hpp', separate=cfg.get('separate', False))
    with open(d + '/adapter.cpp', 'w') as fh:
        fh.write(cxx_adapter(cfg))

    def comp():
        cc = ['g++', '-std=' + cfg.get('std', 'gnu++11'), '-O1', '-g0', '-w', '-fno-pie', '-fno-stack-protector', '-I' + build.VERIF + '/harness', '-I' + d] + win_flags(cfg) + cfg.get('cflags', [])
        objs = [d + '/adapter.o']
        build.run(cc + ['-c', d + '/adapter.cpp', '-o', objs[0]])
        if cfg.get('separate'):
            pu = cfg.get('prefix', 'gdo').upper()
            defs = []
            for x in cfg['defs']:
                k, _, v = x.partition('=')
                defs.append('-D%s_%s=%s' % (pu, k[4:], v))
            objs.append(d + '/body.o')
            build.run(cc + defs + ['-c', d + '/gen.cpp', '-o', objs[1]])
        ldr(objs, d + '/impl.o')
        link(engine, d + '/impl.o', d + '/mc')
        return d + '/mc'
    return comp


def _simple(gen, engine, root, cfg, idx, fmt, hdr, text, api_defs=()):
    """one generated header and one adapter"""
    d = '%s/cfg%d' % (root, idx)
    os.makedirs(d)
    pr = UNNAMED if cfg.get('unnamed') else PROTOS
    protos = '\n'.join(pr[i] % n for i, n in enumerate(cfg['names'])) + '\n'
    args = list(cfg.get('args', [])) + ['-format=' + fmt]
    pl, pu = cfg.get('prefix', 'gdo').lower(), cfg.get('prefix', 'gdo').upper()
    if pl != 'gdo':
        args.append('-prefix=' + cfg['prefix'])
    gen.header(protos, args, d, name=hdr, separate=cfg.get('separate', False))
    defs = '\n'.join('#define %s %s' % tuple((x + '=').split('=')[:2]) for x in cfg['defs'])
    text = defs + '\n' + text
    if pl != 'gdo':
        text = text.replace('gdo::', pl + '::').replace('GDO_', pu + '_').replace('gdo_', pl + '_')
    cxx = cfg.get('lang') == 'c++' or fmt == 'minimal-c++'
    src = d + '/adapter.' + ('cpp' if cxx else 'c')
    with open(src, 'w') as fh:
        fh.write(text)

    def comp():
        cc = ['g++', '-std=' + cfg.get('std', 'gnu++11'), '-x', 'c++'] if cxx else ['gcc']
        cc += ['-O1', '-g0', '-w', '-fno-pie', '-fno-stack-protector', '-I' + build.VERIF + '/harness', '-I' + d] + win_flags(cfg) + cfg.get('cflags', [])
        objs = [d + '/adapter.o']
        build.run(cc + ['-c', src, '-o', objs[0]])
        if cfg.get('separate'):
            objs.append(d + '/body.o')
            build.run(cc + ['-D' + x.replace('GDO_', pu + '_') for x in cfg['defs']] + ['-c', d + '/gen.c', '-o', objs[1]])
        ldr(objs, d + '/impl.o')
        link(engine, d + '/impl.o', d + '/mc')
        return d + '/mc'
    return comp


def _names(names):
    return '{ %s }' % ', '.join(['"%s"' % n for n in names] + ['0'] * (4 - len(names)))


def build_min(gen, engine, root, cfg, idx):
    cxx = cfg['machine'] == 'minimal-c++'
    names = cfg['names']
    o = ['#include "gen.%s"' % ('hpp' if cxx else 'h'), '#include <stddef.h>', '#include "minapi.h"']
    if cxx:
        o.append('static int w_load(const char *n, void (*s)(const char *)) { try { gdo::load_library_and_symbols(n); } catch (const gdo::LibraryError &e) { s(e.what()); return R_LIBERR; } '
                 'catch (const gdo::SymbolError &e) { s(e.what()); return R_SYMERR; } catch (const std::exception &e) { s(e.what()); return R_OTHER; } catch (...) { return R_OTHER; } return R_OK_; }')
        o.append('static void w_free() { gdo::free_library(); }')
    else:
        o.append('static int w_load(const char *n, void (*s)(const char *)) { const char *m = gdo_load_library_and_symbols(n); if (!m) return R_OK_; s(m); return R_MSG; }')
        o.append('static void w_free(void) { gdo_free_library(); }')
    raw = ' '.join('case %d: return (void *)%s%s;' % (i, '&' if i == 2 else '', n) for i, n in enumerate(names))
    o.append('static void *w_raw(int i) { switch (i) { %s } return 0; }' % raw)
    uses = ' '.join('case %d: %s' % (i, USES[i].replace('%s', n)) for i, n in enumerate(names))
    o.append('static long w_call(int i) { switch (i) { %s } return 0; }' % uses)
    o.append('#ifdef __cplusplus\nextern "C"\n#endif\nconst struct minapi the_minapi = { %d, %d, %d, %s, w_load, w_free, w_raw, w_call };' % (cxx, win_conf(cfg), len(names), _names(names)))
    return _simple(gen, engine, root, cfg, idx, 'minimal-c++' if cxx else 'minimal', 'gen.hpp' if cxx else 'gen.h', '\n'.join(o) + '\n')


def build_plug(gen, engine, root, cfg, idx):
    names = cfg['names']
    o = ['#include "gen.h"', '#include <stddef.h>', '#include "plugapi.h"', '#define P ((gdo_plugin_t *)p)']
    o.append(CONVERT)
    wide = cfg.get('win') == 'apiw'
    if wide:
        o.append('static void *w_load(const char **f, size_t n) { const wchar_t *w[8]; const wchar_t *keep[8]; size_t i; void *r; for (i = 0; i < n && f; i++) keep[i] = w[i] = mc_wide(f[i]); r = gdo_load_plugins(f ? w : 0, n); for (i = 0; i < n && f; i++) if (w[i] != keep[i]) f[i] = 0; return r; }')
    else:
        o.append('static void *w_load(const char **f, size_t n) { return gdo_load_plugins(f, n); }')
    o.append('static void w_release(void *p) { gdo_release_plugins(P); }')
    o.append('static size_t w_num(void *p) { return P->num; }')
    o.append('static const char *w_filename(void *p, size_t i) { return %s(P->list[i].filename); }' % ('mc_narrow' if wide else ''))
    o.append('static const void *w_rawname(void *p, size_t i) { return P->list[i].filename; }')
    o.append('static void *w_handle(void *p, size_t i) { return (void *)P->list[i].handle; }')
    o.append('static void *w_raw(void *p, size_t i, int s) { switch (s) { %s } return 0; }' % ' '.join('case %d: return (void *)P->list[i].ptr.%s;' % x for x in enumerate(names)))
    o.append('#ifdef __cplusplus\nextern "C"\n#endif\nconst struct plugapi the_plugapi = { %d, %d, %s, (int)(GDO_DEFAULT_FLAGS), w_load, w_release, w_num, w_filename, w_rawname, w_handle, w_raw };' % (win_conf(cfg), len(names), _names(names)))
    return _simple(gen, engine, root, cfg, idx, 'plugin', 'gen.h', '\n'.join(o) + '\n')
