"""Runs a Python 2 (or 2/3) script with this Python 3: tools/string_headers.py and tools/build_environment.py need it, and there is
no Python 2 in the sandbox.  A script that is valid Python 3 is taken as it is, apart from the builtins below."""
import ast, builtins, re, subprocess, sys, types

def match_paren(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] in '([{':
            d += 1
        elif s[j] in ')]}':
            d -= 1
            if d == 0:
                return j
    raise SyntaxError('unbalanced')

def tuple_params(src):
    """def f(a, (b, c)): -> def f(a, _t0): (b, c) = _t0"""
    out, i = '', 0
    for m in iter(lambda: re.compile(r'^([ \t]*)def\s+\w+\s*\(', re.M).search(src, i), None):
        o = m.end() - 1
        c = match_paren(src, o)
        args, unp, k = src[o + 1:c], [], 0
        depth, res, start = 0, '', 0
        j = 0
        while j < len(args):
            if args[j] == '(' and re.search(r'(^|,)\s*$', args[:j]):
                e = match_paren(args, j)
                unp.append('%s = _t%d' % (args[j:e + 1], k))
                res += '_t%d' % k
                k += 1
                j = e + 1
                continue
            if args[j] in '([{':
                e = match_paren(args, j)
                res += args[j:e + 1]
                j = e + 1
                continue
            res += args[j]
            j += 1
        if not unp:
            out += src[i:c + 1]
            i = c + 1
            continue
        colon = src.index(':', c)
        nl = src.index('\n', colon)
        body = re.compile(r'[^\n]*\n', re.S)
        rest = src[nl + 1:]
        ind = re.match(r'(?:[ \t]*(?:#[^\n]*)?\n)*([ \t]+)', rest).group(1)
        out += src[i:o + 1] + res + src[c:nl + 1] + ''.join(ind + u + '\n' for u in unp)
        i = nl + 1
    return out + src[i:]

class Div(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(func=ast.Name(id='__py2_div', ctx=ast.Load()), args=[n.left, n.right], keywords=[]), n)
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ('iteritems', 'itervalues', 'iterkeys'):
            n.attr = n.attr[4:]
        return n

Popen0 = subprocess.Popen

class Popen2(Popen0):
    """output of commands is text, as in Python 2"""
    def __init__(self, *a, **k):
        if 'universal_newlines' not in k and 'text' not in k:
            k['universal_newlines'] = True
        Popen0.__init__(self, *a, **k)

def load(path, name='__shimmed__'):
    src = open(path, encoding='utf-8').read()
    py3 = True
    try:
        tree = ast.parse(src)
    except SyntaxError:
        py3 = False
        s = tuple_params(src)
        s = re.sub(r'^(\s*)print (?!\()(.*)$', r'\1print(\2)', s, flags=re.M)
        s = re.sub(r'^(\s*except\s+[\w., ()]+?)\s*,\s*(\w+)\s*:', r'\1 as \2:', s, flags=re.M)
        tree = ast.parse(s)
    two = (not py3) or 'xrange' in src or 'iteritems' in src
    if two:
        tree = ast.fix_missing_locations(Div().visit(tree))
    m = types.ModuleType(name)
    sys.modules[name] = m
    m.__file__ = path
    def open_(p, mode='r', *a, **k):
        if 'b' in mode and two:
            return Both(p, mode)
        return open(p, mode, *a, **k)
    m.__dict__.update(xrange=range, unicode=str, long=int, __py2_div=lambda a, b: a // b if isinstance(a, int) and isinstance(b, int) else a / b)
    if two:
        m.__dict__['open'] = open_
    if two or not re.search(r'\bdecode\b|universal_newlines|\b(text|encoding)\s*=\s*(True|.utf)', src):
        subprocess.Popen = Popen2
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m

class Both(object):
    """binary file that takes text, as in Python 2"""
    def __init__(self, p, mode):
        self.f = builtins.open(p, mode)
    def write(self, s):
        self.f.write(s.encode('latin-1') if isinstance(s, str) else s)
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def __getattr__(self, n): return getattr(self.f, n)

if __name__ == '__main__':
    sys.argv = sys.argv[1:]
    load(sys.argv[0], '__main__')
