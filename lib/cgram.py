"""A recogniser of C declarations by their structure: words may be anything (type names are unknown to the generator),
but pointers, parentheses, brackets, commas and parameter lists must be where C allows them."""
import re

WORD = re.compile(r'\w+\Z', re.A)
NAME = re.compile(r'[A-Za-z_]\w*\Z', re.A)


class _No(Exception):
    pass


def match_close(t, i):
    """index of the token closing the one at i"""
    st = []
    for k in range(i, len(t)):
        if t[k] in '([':
            st.append(t[k])
        elif t[k] in ')]':
            if not st or st.pop() + t[k] not in ('()', '[]'):
                return None
            if not st:
                return k
    return None


def brackets_ok(t, i):
    """[ ... ][ ... ] from i to the end"""
    while i < len(t):
        if t[i] != '[':
            return False
        j = match_close(t, i)
        if j is None:
            return False
        i = j + 1
    return True


def params_ok(t, abstract):
    """what is inside of a parameter list only has to nest"""
    return True


def declarator_ok(t, abstract, nested=True):
    """words, pointers, then a (possibly abstract) declarator; nested: a parameter"""
    if not t or not WORD.match(t[0]):
        return False
    i = 0
    while i < len(t) and (t[i] == '*' or WORD.match(t[i])):
        i += 1
    if i == len(t):
        return True
    return direct_ok(t, i, nested, lead=i)


def direct_ok(t, i, abstract, lead):
    """t[i] is ( or [ : what follows the leading words and pointers"""
    if t[i] == '[':
        return brackets_ok(t, i)
    if t[i] != '(':
        return False
    j = match_close(t, i)
    if j is None:
        return False
    inner = t[i + 1:j]
    rest = t[j + 1:]
    # a parameter list directly after a word
    if not rest:
        if WORD.match(t[i - 1]) and params_ok(inner, True):
            return True
        # parentheses around a declarator
        return inner_ok(inner)
    if rest[0] not in '([':
        return False
    if not inner_ok(inner):
        return False
    return suffix_ok(rest)


def suffix_ok(t):
    i = 0
    while i < len(t):
        j = match_close(t, i) if t[i] in '([' else None
        if j is None:
            return False
        if t[i] == '(' and not params_ok(t[i + 1:j], True):
            return False
        i = j + 1
    return True


def inner_ok(t):
    """what is inside of the parentheses of a declarator: pointers and words, then a direct declarator"""
    i = 0
    while i < len(t) and (t[i] == '*' or WORD.match(t[i])):
        i += 1
    if i == len(t):
        return bool(t)
    if t[i] == '[':
        return brackets_ok(t, i)
    if t[i] != '(':
        return False
    if i and WORD.match(t[i - 1]):
        j = match_close(t, i)
        return j is not None and params_ok(t[i + 1:j], True) and suffix_ok(t[j + 1:])
    j = match_close(t, i)
    return j is not None and inner_ok(t[i + 1:j]) and suffix_ok(t[j + 1:])


def nested(t):
    st = []
    for x in t:
        if x in '([':
            st.append(x)
        elif x in ')]':
            if not st or st.pop() + x not in ('()', '[]'):
                return False
    return not st


def declaration_ok(t):
    return nested(t) and declarator_ok(t, False, False)
