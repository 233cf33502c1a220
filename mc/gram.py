"""reference parser of the grammar notation, giving parser terms"""
from universe import *
class Bad(Exception):
    pass
ESC = {'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', "'": "'"}
NAMECH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')

def tokens(t):
    """token list of a text (layout: whitespace after a token), or Bad"""
    i, r = 0, []
    while i < len(t):
        c = t[i]
        if c in '|*+()':
            r.append(c); i += 1
        elif t.startswith('::=', i):
            r.append('::='); i += 3
        elif c in NAMECH:
            j = i
            while j < len(t) and t[j] in NAMECH:
                j += 1
            r.append(('name', t[i:j])); i = j
        elif c == "'":
            if i + 1 < len(t) and t[i + 1] == '\\':
                if i + 2 < len(t) and t[i + 2] in ESC:
                    ch, j = ESC[t[i + 2]], i + 3
                else:
                    ch, j = '\\', i + 2
            elif i + 1 < len(t) and t[i + 1] != "'":
                ch, j = t[i + 1], i + 2
            else:
                raise Bad()
            if j >= len(t) or t[j] != "'":
                raise Bad()
            r.append(('char', ch)); i = j + 1
        else:
            raise Bad()
        while i < len(t) and is_space(t[i]):
            i += 1
    return r

def parse_rule(t, env):
    """(name, term); env: name -> term or function without arguments"""
    k = tokens(t)
    if len(k) < 3 or not isinstance(k[0], tuple) or k[0][0] != 'name' or k[1] != '::=':
        raise Bad()
    pos = [2]
    def peek():
        return k[pos[0]] if pos[0] < len(k) else None
    def prim():
        p = peek()
        if p == '(':
            pos[0] += 1
            r = expr()
            if peek() != ')':
                raise Bad()
            pos[0] += 1
            return r
        if isinstance(p, tuple):
            pos[0] += 1
            if p[0] == 'char':
                return T('lit', p[1])
            return env(p[1])
        raise Bad()
    def rep():
        r = prim()
        while peek() in ('*', '+'):
            r = T('repeated' if peek() == '*' else 'repeated1', r)
            pos[0] += 1
        return r
    def seq():
        r = rep()
        while peek() is not None and (peek() == '(' or isinstance(peek(), tuple)):
            r = SEQ(r, rep())
        return r
    def expr():
        r = seq()
        while peek() == '|':
            pos[0] += 1
            r = ONE(r, seq())
        return r
    r = expr()
    if pos[0] != len(k):
        raise Bad()
    return k[0][1], r
