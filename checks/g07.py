"""G07: a Clang AST dump gives the same API as the prototypes it was made from."""
import itertools, os, re, shutil, subprocess, tempfile
from lib import build, decls
from lib.ctext import parse_symbols, unfold, toks, IDENT
from lib.explore import explore
from lib.server import Req, Server

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of declarations and of ordered lists of them, dumped by clang, in every dump encoding, each read by the real generator; types judged by the compiler against the dumped header'
NOTE = 'Every valid declaration of the grammar plus shapes only a dump can hold, alone, in one big dump and in ordered lists of up to 3, with unrelated nodes between them. Dumps are made by the installed clang 18. Trusts clang for type identity.'

PRE = 'enum { N = 7 };\n' + decls.PRELUDE + 'typedef void (*CB)(int);\ntypedef struct { int a; } AN;\ntypedef float V4 __attribute__((vector_size(16)));\n#define VIS __attribute__((visibility("default")))\n'

# declarations written as text; %s is the name. u: the tool says that it cannot be used
EXTRA = [
    'int %s(int (*p)[3]);', 'int %s(void (**p)(int));', 'int %s(void (*p[3])(int));', 'int %s(void (*(*p)(int))(char));', 'int %s(int cb(int), FN f2, FN *f3);',
    'int %s(const char *restrict a, int n, int b[n]);', 'int %s(int (*)(void), char * const x);', 'int %s(void (* const p)(int));', 'void %s(CB, CB *, CB const *, FN **);',
    'extern int (*%s)[3];', 'extern void (**%s)(int);', 'extern void (*%s[3])(int);', 'extern void (*(*%s)(int))(char);', 'extern CB %s;', 'extern FN *%s;', 'extern CB %s[2];',
    'extern void (* const %s)(int);', 'extern const T %s[];', 'extern int * const %s[4];', 'extern _Bool %s;', 'extern void (*(*%s[2])(int))(char);', 'extern const struct s *const *%s;',
    'CB %s(int);', 'void %s(int) __attribute__((noreturn));', 'static inline int %s(int a) { int y = a; extern int unseen; return y + unseen; }', 'int %s();', 'int (%s)(int);', 'V4 %s(V4 a, V4 *b);',
    '__int128 %s(unsigned __int128 a);', 'long double _Complex %s(_Complex double a);', 'int %s = 5;', 'static const char *const %s[] = { "a \'b", "-FunctionDecl 0x1 <l> col:1 no \'int (int)\'" };',
    'int (*%s)(int a, ...) = 0;', 'int %s(int a) VIS;', 'VIS extern int %s(const char *a, int, ...) __attribute__((format(printf, 1, 3)));', 'int %s(int a, char *b __attribute__((unused)), void (*c)(int)) VIS __attribute__((deprecated("it \'is\' old")));',
    'extern VIS int %s __attribute__((aligned(16)));', '/** doc\n * \\param a b \'c\' */\nint %s(int a);', '/// text \'int (int)\'\nextern int %s;', 'int %s(int a); int %s(int b) VIS;', 'extern int %s; extern int %s;', 'int %s(int); int %s(int x) { return x; }',
    'AN %s(AN a, AN *b);', 'struct loc_%s { int (*fp)(int); } *%s(struct loc_%s *x);', 'enum le_%s { L_%s } %s(enum le_%s x);', 'int %s(struct s *, union u *, enum e);', 'extern __thread int %s;', 'int %s(int a) __asm__("other");',
    'int %s(a, b) int a; char *b; { return a + *b; }', 'int %s(int a[static 3], int b[const 2], int c[restrict]);', 'int *%s(void) { struct in { int (*q)(void); }; typedef int ti; static ti x; return &x; }', 'volatile int *const volatile *%s(void);',
    'extern volatile unsigned char %s[2][3][4];', 'signed char %s(unsigned char, unsigned short int, long long unsigned);', 'extern int (*(*%s)(void))[3];', 'int %s(int (*(*)(void))[3], int (*[])(void));',
    'const char *%s(const char *const *const *a, char (*b)[2][3], char *(*c)[]);',
]
UNSUP = ['FN %s;', 'void (*%s(int))(char);', 'int (*%s(int a))[3];']

# nodes which are no symbols; %s makes them distinct
FILL = ['typedef int (*t_%s)(int);', 'struct r_%s { int a; int (*f)(int b); struct { int x; } in; };', 'enum n_%s { A_%s, B_%s = 3 };', 'union w_%s { int a; char b[2]; };', ';', '_Static_assert(1, "no \'text\' here");', '__asm__("");',
        'struct fwd_%s;', 'typedef struct rr_%s { int a; } rrt_%s;']

EXTC = ['', '|CRLF', '|BOM', '|BOM|CRLF', '|COL', '|COL|CRLF', '|COL|BOM', '|NOEND', '|COL|NOEND']
BOM = b'\xef\xbb\xbf'
TPL = '\x01F %%func_symbol%% \x02 %%args%% \x02 %%param_names%% \x03\n\x01O %%obj_symbol%% \x03\n'
CHECK = '''
%%type%% (*P_%%func_symbol%%)(%%args%%);
%%obj_type%% *P_%%obj_symbol%%;
GDO_CHECK(%%symbol%%)
%%type%% W_%%func_symbol%%(%%args%%) {@
    %%return%% P_%%func_symbol%%(%%param_names%%);@
}
'''
LINE = re.compile(rb'^(?:\x1b\[[0-9;]*m)*([|`])-')


def dump(text, d, color=False, name='h.h', args=()):
    f = os.path.join(d, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w') as fh:
        fh.write(text)
    p = subprocess.run(['clang', '-std=gnu17', '-w', '-fsyntax-only', '-Xclang', '-ast-dump', '-fcolor-diagnostics' if color else '-fno-color-diagnostics', '-x', 'c', *args, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise build.BuildError('clang cannot dump the test header: ' + p.stderr.decode(errors='replace')[:2000])
    return p.stdout


def nodes(ast):
    """(first line, [blocks of lines of a top-level node])"""
    ls = ast.split(b'\n')
    if ls and not ls[-1]:
        ls.pop()
    out = []
    for l in ls[1:]:
        if LINE.match(l):
            out.append([l])
        else:
            out[-1].append(l)
    return ls[0], out


def last(block):
    """the block as the last child of the dump"""
    a = [re.sub(rb'^((?:\x1b\[[0-9;]*m)*)[|`]-', rb'\1`-', block[0], count=1)]
    return a + [re.sub(rb'^((?:\x1b\[[0-9;]*m)*)[| ] ', rb'\1  ', l, count=1) for l in block[1:]]


def inner(block):
    a = [re.sub(rb'^((?:\x1b\[[0-9;]*m)*)[|`]-', rb'\1|-', block[0], count=1)]
    return a + [re.sub(rb'^((?:\x1b\[[0-9;]*m)*)[| ] ', rb'\1| ', l, count=1) for l in block[1:]]


def assemble(head, blocks, enc):
    ls = [head]
    for b in blocks[:-1]:
        ls += inner(b)
    if blocks:
        ls += last(blocks[-1])
    eol = b'\r\n' if 'CRLF' in enc else b'\n'
    s = eol.join(ls) + (b'' if 'NOEND' in enc else eol)
    return BOM + s if 'BOM' in enc else s


def block_name(block):
    l = re.sub(rb'\x1b\[[0-9;]*m', b'', block[0])
    m = re.match(rb'[|`]-(?:Function|Var)Decl 0x[^\']*?(\w+) \'', l)
    return m.group(1).decode() if m else None


def shown(r):
    if r.code != 0:
        return 'refused: ' + (r.err.decode('latin-1')[:200] if r.code is not None else r.describe())
    s = parse_symbols(r.out)
    u = unfold(s) if s else None
    if u is None:
        return 'no symbol list: %r' % r.out[:200]
    return sorted(tuple(x) if isinstance(x, (list, tuple)) else x for x in u)


def check(ctx):
    path = build.build_tool('plain')
    T = ctx.thorough
    scratch = tempfile.mkdtemp(dir=build.scratch())
    try:
        run(ctx, path, T, scratch)
    finally:
        shutil.rmtree(scratch)


def run(ctx, path, T, scratch):
    # --- the declarations, with distinct names
    srcs = []
    seen = set()
    for d in decls.singles(full=T):
        if not d.c:
            continue
        t = decls.text(d.src)
        if t not in seen:
            seen.add(t)
            pre = 'extern ' if d.kind == 'o' else ''
            srcs.append((pre + t + ';').replace(' sym ', ' %s ').replace(' sym;', ' %s;'))
    ndec = len(srcs)
    srcs += EXTRA
    names = ['s%d_' % i for i in range(len(srcs))]
    texts = [t.replace('%s', n) for t, n in zip(srcs, names)]
    for t, n in zip(texts, names):
        assert re.search(r'\b%s\b' % n, t), t
    # declarations that are not C (an array of incomplete type, say) have no dump: let clang say
    CH = 2500
    chunks = [range(i, min(i + CH, len(texts))) for i in range(0, len(texts), CH)]

    def valid(ix):
        f = '%s/v%d.h' % (scratch, ix[0])
        with open(f, 'w') as fh:
            fh.write(PRE + ''.join('#line %d "x.h"\n%s\n' % (i + 1, texts[i]) for i in ix))
        p = subprocess.run(['clang', '-std=gnu17', '-w', '-fsyntax-only', '-ferror-limit=0', '-x', 'c', f], stderr=subprocess.PIPE)
        bad = {int(x) - 1 for x in re.findall(rb'^x\.h:(\d+):\d+: error', p.stderr, re.M)}
        return [i for i in ix if i not in bad]
    chunks = build.pmap(valid, chunks)
    ok = [i for c in chunks for i in c]
    ctx.cov['declarations'] = len(ok)
    if len(ok) < ndec // 2 or not set(range(ndec, len(texts))) <= set(ok):
        raise build.BuildError('the test declarations are not valid C: %s' % [texts[i] for i in range(ndec, len(texts)) if i not in ok])

    # --- A. all declarations in large dumps; types by compiler
    sv = [Server(path)]
    segs = {}     # index -> {False: lines, True: lines with colours}
    heads = {}
    expect = {}

    def big(args):
        c, col = args
        text = PRE + ''.join(texts[i] + '\n' for i in c)
        return c, col, dump(text, scratch, col, 'c%d%d/h.h' % (c[0], col))
    for c, col, ast in build.pmap(big, [(c, col) for c in chunks for col in (False, True)]):
        heads[col], blocks = nodes(ast)
        byname = {}
        for b in blocks:
            n = block_name(b)
            if n:
                byname.setdefault(n, []).append(b)
        for i in c:
            if names[i] not in byname:
                raise build.BuildError('declaration without node: ' + texts[i])
            # record types the declaration defines are unrelated nodes; keep the symbol's own
            segs.setdefault(i, {})[col] = byname[names[i]]
        r = sv[0].one(Req(['-ast-all-symbols', '-print-symbols', '-'], ast, timeout_ms=60000))
        u = shown(r)
        if isinstance(u, str):
            ctx.violation('a dump of %d declarations is %s' % (len(c), u), {'header': PRE + '\n'.join(texts[i] for i in c)[:3000], 'stderr': r.err[:1000].decode('latin-1')})
            continue
        one = {}
        for d in u:
            hit = [n for n in toks(' '.join(d) if isinstance(d, tuple) else str(d)) if re.fullmatch(r's\d+_', n)]
            for n in hit:
                one.setdefault(n, []).append(d)
        for i in c:
            got = one.get(names[i], [])
            if len(got) != 1:
                ctx.violation('declared once, listed %d times: %s' % (len(got), texts[i]), {'declaration': texts[i], 'dump': [x.decode('latin-1') for b in segs[i][col] for x in b]}, 'count ' + texts[i])
                continue
            if expect.setdefault(i, got[0]) != got[0]:
                ctx.violation('colours change what is read: %s' % texts[i], {'declaration': texts[i]})
        if len(u) != len(c):
            ctx.violation('%d declarations gave %d symbols' % (len(c), len(u)), {'header': PRE + '\n'.join(texts[i] for i in c)[:3000]})
        if not col:
            types(ctx, sv[0], c, ast, texts, names, r, scratch)
        ctx.add('evaluations', len(c))
    ctx.log('large dumps: %d declarations in %d dumps, twice' % (len(ok), len(chunks)))

    # --- B. every declaration alone, in every encoding
    def judge(info, rs):
        i = info[0]
        for enc, r in zip(EXTC, rs):
            u = shown(r)
            if u != [expect.get(i)]:
                return '+', ('%s alone in a dump (%s) is read as %s, not as %s' % (texts[i], enc[1:] or 'plain', str(u)[:300], str(expect.get(i))[:300]), 'alone ' + enc + ' ' + texts[i])
        return '+same', None

    def make(info):
        i = info[0]
        return [Req(['-ast-all-symbols', '-print-symbols', '-'], assemble(heads['COL' in enc], segs[i]['COL' in enc], enc)) for enc in EXTC]
    good = [i for i in ok if i in expect]
    explore(ctx, path, lambda: ((i,) for i in good), make, judge, batch=32, name='alone, %d encodings' % len(EXTC))

    # --- parameter names
    def judge_n(info, rs):
        r = rs[0]
        i = info[0]
        if r.code != 0:
            return '+', '%s: refused: %s' % (texts[i], r.err[:200])
        m = re.search(rb'\x01F (.*?) \x02 (.*?) \x02 (.*?) \x03', r.out, re.S)
        if not m:
            return 'object', None
        args, pn = m.group(2).decode(), [x.strip() for x in m.group(3).decode().split(',') if x.strip()]
        ts = toks(args)
        parts, depth, cur = [], 0, []
        for t in ts:
            depth += t in '([{'
            depth -= t in ')]}'
            if t == ',' and depth == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            parts.append(cur)
        parts = [p for p in parts if p not in (['...'], ['void'], ['.', '.', '.'])]
        if len(parts) != len(pn) or len(set(pn)) != len(pn):
            return '+', '%s: parameter names %s do not belong to parameters %s' % (texts[i], pn, args)
        for p, n in zip(parts, pn):
            if p.count(n) != 1 or not IDENT.match(n):
                return '+', '%s: parameter name %s is not the one of %s' % (texts[i], n, ' '.join(p))
        return '+%d parameters' % len(pn), None
    explore(ctx, path, lambda: ((i,) for i in good), lambda info: Req(['-ast-all-symbols', '-template=t', '-'], assemble(heads[False], segs[info[0]][False], ''), files=[(0, 't', TPL.encode())]), judge_n, batch=64, name='parameter names')

    # --- C. lists with unrelated nodes in between
    reps_src = ['int %s(int a);', 'void %s(void);', 'int %s();', 'const char *%s(const char *a, int (*b)(int, char *), int c[3], ...);', 'int %s;', 'T %s[2][3];', 'void (*%s)(int);', 'extern CB %s[2];'] + \
        [EXTRA[k] for k in (0, 5, 11, 23, 24, 31, 34, 35, 37, 39, 40, 41, 43, 48, 50)]
    n = len(reps_src)
    head = heads[False]
    lists = {}
    encs = ('', '|CRLF', '|COL|BOM')

    def nodes_of(text, col):
        h, bl = nodes(dump(PRE + '\nint marker_;\n' + text + '\n', scratch, col, 'r%d/%s.h' % (col, abs(hash(text)))))
        k = [j for j, b in enumerate(bl) if block_name(b) == 'marker_'][0]
        return bl[k + 1:]
    rep = {}
    jobs = [(k, p, col) for k in range(n) for p in range(3) for col in (False, True)]
    for (k, p, col), bl in zip(jobs, build.pmap(lambda j: nodes_of(reps_src[j[0]].replace('%s', 'nm%d_' % j[1]), j[2]), jobs)):
        rep[k, p, col] = bl
    fjobs = [(k, p, col) for k in range(len(FILL)) for p in range(2) for col in (False, True)]
    fill = {}
    for (k, p, col), bl in zip(fjobs, build.pmap(lambda j: nodes_of(FILL[j[0]].replace('%s', 'f%d' % j[1]), j[2]), fjobs)):
        fill[k, p, col] = bl
    ujobs = [(k, col) for k in range(len(UNSUP)) for col in (False, True)]
    uns = {}
    for (k, col), bl in zip(ujobs, build.pmap(lambda j: nodes_of(UNSUP[j[0]].replace('%s', 'uns_'), j[1]), ujobs)):
        uns[k, col] = bl
    want = {}
    for k in range(n):
        for p in range(3):
            r = sv[0].one(Req(['-ast-all-symbols', '-print-symbols', '-'], assemble(head, rep[k, p, False], '')))
            want[k, p] = shown(r)
            if isinstance(want[k, p], str) or len(want[k, p]) != 1:
                ctx.violation('%s alone is read as %s' % (reps_src[k], want[k, p]), {'declaration': reps_src[k]}, 'rep ' + reps_src[k])
                return

    def items_c():
        nf = len(FILL)
        for t in itertools.product(range(n), repeat=2):
            for f in range(-1, nf + len(UNSUP)):
                yield t, f
        for t in itertools.product(range(n), repeat=3):
            if T or (sum(t) % 3 == 0):
                yield t, -1
        for t in range(n):
            for f in itertools.product(range(nf), repeat=2):
                yield (t,), f

    def blocks_c(info, col):
        t, f = info
        out = []

        def filler(x, p):
            return [] if x < 0 else fill[x, p, col] if x < len(FILL) else uns[x - len(FILL), col]
        if isinstance(f, tuple):
            return filler(f[0], 0) + rep[t[0], 0, col] + filler(f[1], 1)
        for p, k in enumerate(t):
            if p == 1:
                out = out + filler(f, 0)
            out = out + rep[k, p, col]
        return out + (filler(f, 1) if 0 <= f < len(FILL) else [])

    def make_c(info):
        return [Req(['-ast-all-symbols', '-print-symbols', '-'], assemble(heads['COL' in e], blocks_c(info, 'COL' in e), e)) for e in encs]

    def judge_c(info, rs):
        t, f = info
        w = sorted(x for p, k in enumerate(t) for x in want[k, p])
        for e, r in zip(encs, rs):
            u = shown(r)
            if u != w:
                return '+', ('the list %s with unrelated node %s (%s) is read as %s' % ([reps_src[k] for k in t], f, e[1:] or 'plain', str(u)[:400]), 'list %s %s' % ([reps_src[k] for k in t], f))
            if isinstance(f, int) and f >= len(FILL) and b'uns_' not in r.err:
                return '+', 'no word about the function whose type is not supported: %s' % UNSUP[f - len(FILL)]
        return '+%d' % len(t), None
    explore(ctx, path, items_c, make_c, judge_c, batch=32, name='lists')

    # --- D. filters: lists of two, by name and by prefix; the order of the whole dump is kept
    def items_d():
        for t in itertools.product(range(n), repeat=2):
            for flt in range(6):
                yield t, flt
    FLT = [(['-Snm0_'], (0,)), (['-Snm1_'], (1,)), (['-Pnm0'], (0,)), (['-Pnm'], (0, 1)), (['-Pnm1', '-Snm0_'], (0, 1)), (['-Snm1_', '-Snm0_'], (0, 1))]

    def make_d(info):
        t, k = info
        return Req(FLT[k][0] + ['-print-symbols', '-'], assemble(head, fill[1, 0, False] + rep[t[0], 0, False] + uns[1, False] + rep[t[1], 1, False] + rep[4, 2, False][:0], ''))

    def judge_d(info, rs):
        t, k = info
        w = sorted(x for p in FLT[k][1] for x in want[t[p], p])
        u = shown(rs[0])
        if u != w:
            return '+', 'with %s the list %s is read as %s' % (FLT[k][0], [reps_src[x] for x in t], str(u)[:300])
        return '+filtered', None
    explore(ctx, path, items_d, make_d, judge_d, batch=64, name='filters')

    # --- E. a function that cannot be used is never half used
    def items_e():
        return itertools.product(range(len(UNSUP)), range(4))

    def make_e(info):
        a = [['-ast-all-symbols'], ['-Suns_'], ['-Puns'], ['-Suns_', '-Pnm']][info[1]]
        return Req(a + ['-print-symbols', '-'], assemble(head, uns[info[0], False], ''))

    def judge_e(info, rs):
        if rs[0].code in (0, None) or not rs[0].err:
            return '+', 'a dump with nothing but %s gives %s' % (UNSUP[info[0]], shown(rs[0]))
        return '+refused', None
    explore(ctx, path, items_e, make_e, judge_e, batch=4, name='unsupported alone')

    # --- F. the path of the header is of no importance
    for name in ('with space/h.h', "it's/h.h", 'FunctionDecl 0x1/h.h', 'ünï/(x)/h.h'):
        tx = '\n'.join(reps_src[k].replace('%s', 'pp%d_' % k) for k in range(n))
        u = shown(sv[0].one(Req(['-Ppp', '-print-symbols', '-'], dump(PRE + tx, scratch, False, name))))
        v = shown(sv[0].one(Req(['-Ppp', '-print-symbols', '-'], dump(PRE + tx, scratch, False, 'h.h'))))
        ctx.add('evaluations', 2)
        if u != v or isinstance(u, str) or len(u) != n:
            ctx.violation('a header in the directory %r is read as %s' % (name, str(u)[:300]), {'directory': name, 'header': PRE + tx}, 'dir ' + name)
    ctx.cov['rule'] = 'a distinct dump (bytes) and command line'
    ctx.assumptions.append('dumps of clang 18; declarations whose type holds the symbols of an unnamed record, an attribute changing the calling convention, or a return type written with parentheses (_Atomic(), typeof()) are outside: the text form of them is not accepted either')


def types(ctx, sv, c, ast, texts, names, listing, scratch):
    r = sv.one(Req(['-ast-all-symbols', '-template=t.txt', '-'], ast, files=[(0, 't.txt', CHECK.encode())], timeout_ms=60000))
    if r.code:
        ctx.violation('a dump is refused with a template: %s' % r.err[:300], {})
        return
    l = parse_symbols(listing.out)
    d = tempfile.mkdtemp(dir=scratch)
    with open(d + '/t.c', 'wb') as fh:
        fh.write((PRE + ''.join(texts[i] + '\n' for i in c)).encode())
        fh.write(b'struct s { int q; }; union u { int q; }; struct tt { int q; };\n#define GDO_CHECK(n) _Static_assert(__builtin_types_compatible_p(__typeof__(&n), __typeof__(P_##n)), "TYPE of " #n);\n')
        for t in l.typedefs:
            fh.write(('typedef %s;\n' % ' '.join(t)).encode())
        fh.write(r.out)
    p = subprocess.run(['clang', '-std=gnu17', '-w', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=incompatible-function-pointer-types', '-Werror=incompatible-pointer-types-discards-qualifiers', '-fsyntax-only', '-ferror-limit=20', d + '/t.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    n = len(re.findall(rb'^GDO_CHECK\(', r.out, re.M))
    if p.returncode:
        out = p.stdout.decode(errors='replace')
        m = re.search(r'\b(?:TYPE of |[PW]_)?(s\d+_)\b', out)
        bad = [texts[i] for i in c if m and names[i] == m.group(1)]
        ctx.violation('the type read from a dump differs from the declared one: %s\n%s' % (bad[:1], out[:600]), {'declaration': bad[:1], 'compiler': out[:3000]}, 'type %s' % bad[:1])
    if n != len(c):
        ctx.violation('%d declarations gave %d entries' % (len(c), n), {})
    ctx.add('distinct_nontrivial', n)
