"""C26 realistic expression parsers compute the right answer for every input"""
from compose import *
from engine import Cfg, Case, ALL_STDS

def ar(op, x, y):
    if op == '/':
        if y == 0:
            raise ZeroDivisionError()
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    r = x + y if op == '+' else x - y if op == '-' else x * y
    if abs(r) > 10 ** 9:
        raise OverflowError()
    return r
def two(c): return c[1:-1].rstrip(',').split(',')
def f_bin(st, c):
    o, v = two(c)
    return str(ar(chr(int(o)), int(st), int(v)))
def f_rbin(st, c):
    v, o = two(c)
    return str(ar(chr(int(o)), int(v), int(st)))
BIN, RBIN = F('binop', f_bin), F('rbinop', f_rbin)
SIGN = F('sign', lambda st, c: str(-int(st) if c == '45' else int(st)))
TWICE = F('twice', lambda st, c: str(2 * int(st) + int(c)))
TOI = F('util::digit_to_int<>', lambda c: str(int(c) - 48))
MISSING = M('missing_primary')
class MM(M):
    text = property(lambda s: 'Missing primary expression')
MISSING = MM('missing_primary')
def Tk(c): return T('token', L(c))
def Rf(n): return T('ref', n)
INT = T('token', T('int_'))
WS = T('repeated', T('space'))

# ---- the languages once more, as plain recursive descent on the text (no combinators): value or None
class RD(object):
    def __init__(self, s): self.s, self.i = s, 0
    def peek(self): return self.s[self.i:self.i + 1]
    def ws(self):
        while self.peek() and self.peek() in ' \t\n\r': self.i += 1
    def tok(self, cs):
        if self.peek() and self.peek() in cs:
            c = self.peek(); self.i += 1; self.ws(); return c
        return None
    def num(self):
        j = self.i
        while self.peek().isdigit(): self.i += 1
        if j == self.i: raise SyntaxError()
        v = int(self.s[j:self.i]); self.ws(); return v
    def level(self, ops, sub):
        v = sub()
        while True:
            o = self.tok(ops)
            if not o: return v
            v = ar(o, v, sub())
    def end(self, v):
        if self.i != len(self.s): raise SyntaxError()
        return v
    def prim(self, expr):
        if self.tok('('):
            v = expr()
            if not self.tok(')'): raise SyntaxError()
            return v
        return self.num()
def lead(s):
    p = RD(s); p.ws(); return p
def sums(s):
    p = RD(s); return p.end(p.level('+-', p.num))
def prec(s):
    p = lead(s); return p.end(p.level('+-', lambda: p.level('*/', p.num)))
def parens(s):
    p = lead(s)
    def ex(): return p.level('+-', lambda: p.level('*/', lambda: p.prim(ex)))
    return p.end(ex())
def unarys(s, signs='+-'):
    p = lead(s)
    def un():
        o = p.tok(signs)
        if o:
            v = un(); return -v if o == '-' else v
        return p.prim(ex)
    def ex(): return p.level('+-', lambda: p.level('*/', un))
    return p.end(ex())
def rights(s):
    p = RD(s)
    def ex():
        v = p.num()
        if p.tok('-'): return ar('-', v, ex())
        return v
    return p.end(ex())
def binary(s):
    if not s or set(s) - set('01'): raise SyntaxError()
    return int(s, 2)

FI = 'foldl_reject_incomplete_start_with_parser'
def lv(kind, ops, sub): return T(kind, SEQ(ONE(*[Tk(o) for o in ops]), sub), sub, BIN)

def langs():
    out = []
    # (name, refs, root, oracle, alphabet, (quick, thorough) length)
    out.append(('sum', {}, T('entire_input', lv(FI, '+-', INT)), sums, '12+-', (5, 6)))
    out.append(('sum with spaces', {}, T('entire_input', lv(FI, '+-', INT)), sums, '1+ \n', (5, 6)))
    out.append(('precedence', {}, T('entire_input', T('last_of', WS, lv(FI, '+-', lv(FI, '*/', INT)))), prec, '23+*', (5, 6)))
    out.append(('precedence, all operators', {}, T('entire_input', T('last_of', WS, lv(FI, '+-', lv(FI, '*/', INT)))), prec, '7-+*/', (5, 6)))
    d = {'plus_exp': None}
    paren = T('middle_of', Tk('('), Rf('plus_exp'), Tk(')'))
    d = {'plus_exp': lv(FI, '+-', lv(FI, '*/', ONE(INT, paren)))}
    out.append(('parens', d, T('entire_input', T('last_of', WS, Rf('plus_exp'))), parens, '2+*()', (5, 6)))
    paren = T('middle_of', Tk('('), Rf('plus_exp2'), Tk(')'))
    un = T('foldr_start_with_parser', ONE(Tk('+'), Tk('-')), ONE(INT, paren), SIGN)
    d = {'plus_exp2': lv(FI, '+-', lv(FI, '*/', un))}
    out.append(('unary', d, T('entire_input', T('last_of', WS, Rf('plus_exp2'))), unarys, '3-*()', (5, 6)))
    out.append(('unary, both signs', d, T('entire_input', T('last_of', WS, Rf('plus_exp2'))), unarys, '3-+ ', (5, 6)))
    paren = T('middle_of', Tk('('), Rf('plus_exp3'), Tk(')'))
    un = T('foldr_start_with_parser', Tk('-'), ONE(INT, paren, T('fail', MISSING)), SIGN)
    d = {'plus_exp3': lv(FI, '+-', lv(FI, '*/', un))}
    out.append(('getting started', d, T('entire_input', Rf('plus_exp3')), lambda s: unarys(s, '-') if s[:1] not in tuple(' \t\n\r') else None, '1-*()', (5, 6)))
    # getting started 11.3.1: lenient fold followed by a check that the rest does not start another element
    elem = SEQ(ONE(Tk('+'), Tk('-')), INT)
    out.append(('first char expected', {}, T('entire_input', T('first_of', T('foldl_start_with_parser', elem, INT, BIN), T('fail_at_first_char_expected', elem))), sums, '1+-a', (5, 6)))
    out.append(('right associative', {}, T('entire_input', T('foldr_start_with_parser', SEQ(INT, Tk('-')), INT, RBIN)), rights, '12- ', (5, 7)))
    out.append(('binary number', {}, T('entire_input', T('foldl1', T('transform', T('one_of_c', '0', '1'), TOI), VI(0), TWICE)), binary, '012', (5, 7)))
    out.append(('binary number, right', {}, T('entire_input', T('foldr1', T('transform', T('range_c', '0', '1'), TOI), VI(0), TWICE)), lambda s: binary(s[::-1]), '012', (5, 7)))
    return out

def others():
    """languages whose results are not numbers: checked against the model only"""
    out = []
    rat = T('sequence_apply', INT, ONE(T('last_of', L('/'), INT), T('empty', VI(1))))
    out.append(('rational', {}, T('entire_input', rat), '13/ ', (5, 6)))
    item = T('token', T('repeated1', T('letter')))
    csv = T('foldl_reject_incomplete_start_with_parser', T('last_of', Tk(','), item), item, NODE)
    out.append(('list', {}, T('entire_input', T('middle_of', Tk('['), T('optional', csv, S0), Tk(']'))), '[],a', (5, 6)))
    kw = T('repeated_one_of1', T('token', T('keyword', 'if', VI(1))), T('token', T('keyword', 'in', VI(2))), T('token', T('keyword', 'i', VI(3))))
    out.append(('keywords', {}, T('entire_input', kw), 'ifn ', (5, 6)))
    ident = T('sequence_apply', T('letter'), T('repeated', ONE(T('alphanum'), L('_'))))
    asg = T('sequence_apply', T('token', ident), T('last_of', Tk('='), INT))
    out.append(('assignment', {}, T('entire_input', T('repeated_reject_incomplete1', T('first_of', asg, Tk(';')))), 'a=1;', (5, 6)))
    d = {'re_alt': T('foldl_reject_incomplete_start_with_parser', T('last_of', L('|'), Rf('re_seq')), Rf('re_seq'), NODE),
         're_seq': T('foldl_reject_incomplete1', Rf('re_item'), S0, NODE2),
         're_item': T('sequence_apply', ONE(T('letter'), T('middle_of', L('('), Rf('re_alt'), L(')'))), T('optional', T('always_c', '*', VI(1)), VI(0)))}
    out.append(('regular expressions', d, T('entire_input', Rf('re_alt')), 'a|*()', (4, 5)))
    d = {'lisp': ONE(T('token', T('int_')), T('middle_of', Tk('('), T('foldl', Rf('lisp'), S0, NODE), Tk(')')))}
    out.append(('s-expressions', d, T('entire_input', Rf('lisp')), '1() ', (5, 6)))
    return out

def pumped(alpha, k):
    """long sentences: every way of repeating one construct 1..k times, every kind of white space in every gap"""
    ops = [c for c in alpha if c in '+-*/']
    d = [c for c in alpha if c.isdigit()]
    out = []
    for i in range(1, k + 1):
        for c in d + (['0'] if ops else []):
            out += [c * min(i, 9), (c + '1') * min(i, 4)]
        for o in ops:
            out += [o * i + d[0], d[0] + o * i + d[0], (d[0] + o) * i + d[0], (d[0] + o) * i, d[0] + o + o * i]
        if '(' in alpha:
            for o in ops[:2]:
                x = d[0] + o + d[0]
                out += ['(' * i + x + ')' * i, '(' * i + d[0] + (')' + o + d[0]) * i, (d[0] + o + '(') * i + d[0] + ')' * i,
                        '(' * i + x + ')' * (i - 1), '(' * (i - 1) + x + ')' * i, '(' * i, '(' * i + ')' * i]
                if o == '-':
                    out += ['-(' * i + d[0] + ')' * i, '(-' * i + d[0] + ')' * i]
    if ops:
        o = ops[0]
        toks = [d[0], o, d[0], ops[-1], d[0]]
        if '(' in alpha:
            toks = ['(', d[0], o, d[0], ')', ops[-1], d[0]]
        for w in (' ', '\t', '\n', '\r', '\r\n', '\n\r', '  ', ' \n ', '\v', '\f'):
            for g in range(len(toks) + 1):
                for bad in ('', 'x'):
                    out.append(''.join(toks[:g]) + w + ''.join(toks[g:]) + bad)
            out += [w.join(toks), w.join(toks) + w, w.join(toks[:-1]) + w, w.join(toks) + w + 'x']
    return [x for x in out if len(x) <= 32]   # the documented default length limit

def check(e, thorough):
    u = U()
    agreed = 0
    def use(name, defs, root, alpha, n, oracle):
        nonlocal agreed
        u.m.refs.update(defs)
        decls = tuple('struct %s; ' % k for k in defs) + tuple('struct %s : %s {};' % (k, t.cpp()) for k, t in defs.items())
        extra = []
        if oracle:
            # longer sentences: everything the grammar derives from chains of operators
            ops = [c for c in alpha if c in '+-*/']
            nums = [c for c in alpha if c.isdigit()][:1] or ['1']
            if ops:
                for k in (3, 4):
                    for w in itertools.product(ops[:3], repeat=k):
                        x = '9'
                        for j, o in enumerate(w):
                            x += o + str(j + 2)
                        extra.append(x)
                        if '(' in alpha:
                            extra += ['9%s(%s)' % (w[0], x[2:]), '(%s)%s' % (x[:3], x[3:]), '(%s' % x, '%s)' % x, '9%s(%s' % (w[0], x[2:])]
                extra += ['12 + 34'.replace('+', ops[0]), '12\n%s\n34' % ops[0], '12\n%s\n' % ops[0], '1%s2\n x' % ops[0], '2147483%s1' % ops[0]]
        if oracle:
            extra += pumped(alpha, 12 if thorough else 8)
        for s in itertools.chain(words(alpha, n), extra):
            try:
                want = None
                if oracle:
                    try:
                        want = oracle(s)
                    except SyntaxError:
                        want = None
                r = u.m.run(root, s, START)
            except (ZeroDivisionError, OverflowError):
                for k in [k for k, v in u.m.memo.items() if v == 'open']:
                    del u.m.memo[k]
                continue
            if oracle:
                # two independent readings of the language have to agree before the implementation is asked
                assert (r[0] == 'A') == (want is not None) and (want is None or r[1] == str(want)), (name, s, r, want)
                agreed += 1
            u.add(root, s, START, None, decls)
    for name, defs, root, oracle, alpha, ln in langs():
        use(name, defs, root, alpha, ln[thorough] - (not thorough and len(alpha) > 4), oracle)
    for name, defs, root, alpha, ln in others():
        use(name, defs, root, alpha, ln[thorough] - (not thorough), None)
    e.notes['sentences_where_both_oracles_agree'] = agreed
    u.into(e)
    e.run(u.cases, cfgs=[Cfg(s, prelude='prelude_calc.hpp') for s in ALL_STDS], batch=300)
    return dict(assumptions=['18 small languages, every text over a 3-5 letter alphabet up to length 4-7 and operator chains of 4-5 operands; divisions by zero are outside the languages'])
