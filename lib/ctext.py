"""C tokens and the output of -print-symbols."""
import re

TOK = re.compile(r'\.\.\.|[A-Za-z_]\w*|\d\w*|"(?:[^"\\]|\\.)*"|\S')
IDENT = re.compile(r'[A-Za-z_]\w*\Z')


def toks(text):
    if isinstance(text, bytes):
        text = text.decode('latin-1')
    return TOK.findall(text)


class Symbols:
    """parsed -print-symbols output"""
    __slots__ = ('typedefs', 'protos', 'count', 'raw', 'tdnames')


MATCH = re.compile(r'/\*\*\*\s+(\d+) matches\s+\*\*\*/')


def parse_symbols(out):
    """None when the text is not such an output"""
    if isinstance(out, bytes):
        out = out.decode('latin-1')
    m = MATCH.search(out)
    if not m:
        return None
    s = Symbols()
    s.count = int(m.group(1))
    s.raw = out
    body = out[:m.start()] + out[m.end():]
    body = re.sub(r'/\*.*?\*/', ' ', body, flags=re.S)
    cur = []
    stm = []
    for t in toks(body):
        if t == ';':
            stm.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        return None
    s.typedefs = [x[1:] for x in stm if x and x[0] == 'typedef']
    s.protos = [x for x in stm if not x or x[0] != 'typedef']
    return s


def unfold(s):
    """the declarations with the generated typedefs expanded: `ALIAS name` -> the declarator of ALIAS around name.
    None when a generated typedef is unused or used twice."""
    res = []
    used = set()
    for p in s.protos:
        if len(p) == 2 and IDENT.match(p[0]) and p[1] in p[0] and p[0] != p[1]:
            for k, t in enumerate(s.typedefs):
                if k not in used and p[0] in t[1:]:
                    i = t.index(p[0], 1)
                    used.add(k)
                    res.append(t[:i] + [p[1]] + t[i + 1:])
                    break
            else:
                res.append(p)
        else:
            res.append(p)
    if len(used) != len(s.typedefs):
        return None
    return res


def split_decls(tokens):
    """token list -> list of declarations (without ;), empty ones removed"""
    res = []
    cur = []
    for t in tokens:
        if t == ';':
            if cur:
                res.append(cur)
            cur = []
        else:
            cur.append(t)
    return res, cur
