"""G09: templates are expanded exactly as documented (small templates against a model of the documented rules)."""
import itertools, re
from lib import build
from lib.explore import explore
from lib.server import Req

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all templates up to a number of lines over a line alphabet x symbol sets x modes on the real generator against an executable model of the documented template language'
NOTE = 'All templates of up to 3 lines (thorough: 4 over a smaller alphabet) with and without final line break and with CRLF, for 6 symbol sets, 3 parameter modes, 3 prefixes. The model implements the text of -full-help.'

FK = ['%%return%%', '%%type%%', '%%func_symbol%%', '%%func_symbol_pad%%', '%%args%%', '%%param_names%%']
OK = ['%%obj_type%%', '%%obj_symbol%%', '%%obj_symbol_pad%%']
SK = ['%%sym_type%%', '%%symbol%%']
B1, B2, BE = '%PARAM_SKIP_REMOVE_BEGIN%', '%PARAM_SKIP_USE_BEGIN%', '%PARAM_SKIP_END%'
LINES = ['plain gdo_text GDO_TEXT', '', '%%type%% gdo_%%func_symbol%%(%%args%%);', ' %%return%% f(%%param_names%%) {%%return%%}', '# %%func_symbol_pad%%|%%func_symbol_pad%%|', '%%obj_type%% %%obj_symbol%%, %%obj_symbol%%',
         'GDO_%%obj_symbol_pad%%|', 'x=(%%sym_type%%)"%%symbol%%"', 'bad %%args%% %%obj_symbol%%', 'bad %%symbol%% %%return%%', B1, B2, BE, '100% %% %%x%% %%func_symbol% %func_symbol%%', ' ' + BE, 'j@', '@', '%%func_symbol%%:@', '%%symbol%% @', '@@', '%%obj_symbol%%%%obj_symbol%%@ ', '%PARAM_SKIP_%']
# (type, name, args, names) / (type, name)
SETS = [
    ([('int', 'foo', 'int a, char *b', 'a, b')], []),
    ([('void', 'v', 'void', '')], []),
    ([], [('int', 'obj')]),
    ([('char *', 's', '', '')], [('const char *', 'longer_obj'), ('T', 'o')]),
    ([('unsigned long', 'gdo_longer', 'int *x', 'x'), ('void', 'v2', 'gdo_t y, GDO_T *z, ...', 'y, z'), ('void *', 'p', 'void', '')], [('gdo_t *', 'GDO_obj'), ('int', 'i')]),
    ([('char *const', 'fc', 'T *const t', 't'), ('int', 'a', 'void (*cb)(int), int m[3]', 'cb, m'), ('const void *', 'bb', 'const char *const *q', 'q')], [('double', 'd'), ('char *const', 'cp')]),
]


def decl(s):
    return ''.join('%s %s(%s);\n' % f[:3] for f in s[0]) + ''.join('%s %s;\n' % o for o in s[1])


def prefix(t, p):
    if p is None:
        return t
    return re.sub(r'(?<![A-Za-z0-9_])GDO_', p.upper() + '_', re.sub(r'(?<![A-Za-z0-9_])gdo_', p.lower() + '_', t))


def model(tpl, s, mode, pfx):
    """expected text, or None for an error, or False when the rules do not say"""
    cr = '\r\n' in tpl
    phys = tpl.replace('\r\n', '\n').split('\n')
    if phys[-1] == '' and not (len(phys) > 1 and phys[-2].endswith('@')):
        phys.pop()
    logical = []
    cur = None
    for i, l in enumerate(phys):
        cur = l if cur is None else cur + '\n' + l
        if l.endswith('@'):
            cur = cur[:-1]
            if i + 1 < len(phys):
                continue
        logical.append(cur)
        cur = None
    out = []
    skip = False
    F, O = s
    for l in logical:
        if '\n' in l and '%PARAM_SKIP_' in l:
            return False
        if l in (B1, B2, BE):
            skip = (l == B1 and mode == 'skip') or (l == B2 and mode != 'skip')
            continue
        if skip:
            continue
        k = [any(x in l for x in g) for g in (FK, OK, SK)]
        l = prefix(l, pfx)
        if sum(k) > 1:
            return None
        if k[0]:
            w = max([len(f[1]) for f in F] or [0])
            for f in F:
                if mode == 'skip' and '%%param_names%%' in l:
                    return False
                t = l.replace('%%return%%', '' if f[0] == 'void' else 'return')
                out.append(t.replace('%%type%%', f[0]).replace('%%func_symbol%%', f[1]).replace('%%args%%', f[2]).replace('%%param_names%%', f[3]).replace('%%func_symbol_pad%%', f[1].ljust(w)))
        elif k[1]:
            w = max([len(o[1]) for o in O] or [0])
            for o in O:
                out.append(l.replace('%%obj_type%%', o[0]).replace('%%obj_symbol%%', o[1]).replace('%%obj_symbol_pad%%', o[1].ljust(w)))
        elif k[2]:
            for f in F:
                out.append(l.replace('%%sym_type%%', '%s (*)(%s)' % (f[0], f[2])).replace('%%symbol%%', f[1]))
            for o in O:
                out.append(l.replace('%%sym_type%%', '%s *' % o[0]).replace('%%symbol%%', o[1]))
        else:
            out.append(l)
    return '\n'.join(out)


def norm(t):
    r = []
    for l in t.rstrip('\n').split('\n'):
        if '|' not in l:
            l = re.sub(r' +', ' ', re.sub(r' *([(){},*"]) *', r'\1', l)).strip()
        r.append(l)
    while r and not r[-1]:
        r.pop()
    return '\n'.join(r)


def check(ctx):
    path = build.build_tool('plain')
    n = len(LINES)

    def confs(ls):
        """symbol set, mode, prefix, form"""
        if len(ls) < 3:
            for s in range(len(SETS)):
                for m in ('read', 'skip', 'create'):
                    if m == 'create' and any(f[3] for f in SETS[s][0]):
                        continue
                    for p in (None, 'My', 'x_9'):
                        for form in range(3):
                            yield s, m, p, form
        else:
            for s in (0, 1, 2, 4):
                for m in ('read', 'skip'):
                    h = sum(ls)
                    yield s, m, None if h % 4 else 'My', h % 3
            if ctx.thorough:
                for s in (3, 5):
                    for m in ('read', 'skip'):
                        yield s, m, 'My', (sum(ls) + 1) % 3

    def items():
        for k in (1, 2, 3):
            for ls in itertools.product(range(n), repeat=k):
                yield ls
        if ctx.thorough:
            small = [0, 1, 2, 4, 5, 7, 8, 10, 11, 12, 15, 17, 18]
            for ls in itertools.product(small, repeat=4):
                yield ls

    def text(ls, form):
        nl = '\r\n' if form == 2 else '\n'
        return nl.join(LINES[i] for i in ls) + ('' if form == 1 else nl)

    def make(ls):
        rs = []
        for s, m, p, form in confs(ls):
            a = ['-template=t', '-param=' + m, '-no-date', '-'] + (['-prefix=' + p] if p else [])
            rs.append(Req(a, decl(SETS[s]).encode(), files=[(0, 't', text(ls, form))]))
        return rs

    def judge(ls, rs):
        tag = 'error or unspecified'
        for (s, m, p, form), r in zip(confs(ls), rs):
            t = text(ls, form)
            e = model(t, SETS[s], m, p)
            w = 'template %r, -param=%s, prefix %s, symbols %r' % (t, m, p, decl(SETS[s]))
            if r.code is None:
                return tag, '%s: %s' % (w, r.describe())
            if e is False:
                continue
            if e is None:
                if r.code == 0 or not r.err.strip():
                    return tag, '%s: must be refused: %s' % (w, r.describe())
                continue
            if r.code:
                return tag, '%s: %s %s' % (w, r.describe(), r.err[:200])
            o = r.out.decode('latin-1')
            if form == 2:
                o = o.replace('\r', '')
            if norm(o) != norm(e):
                return tag, '%s: output is %r instead of %r' % (w, o, e)
            tag = '+%d lines' % len(ls)
        return tag, None
    explore(ctx, path, items, make, judge, batch=16, name='templates')
    ctx.cov['rule'] = 'a case is one template, expanded in 2 to 50 combinations of symbol set, mode, prefix and line ends'
    ctx.assumptions += ['white space around punctuation and blank lines at the end of the output are not compared', 'section keywords inside joined lines, and %%param_names%% in use with -param=skip, are not specified']
