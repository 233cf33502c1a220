"""Reference model of the documented semantics of the parser combinators.

A configuration (state) is (parser term, remaining input, source position).  Evaluating a term is a small
step machine whose steps are evaluations of the sub-parsers; `Model` memoises configurations, so
len(model.memo) is the number of distinct states explored and model.transitions the number of edges
between them.  The model is written from doc/*.qbk and shares nothing with the headers."""

def sc(c):
    """value of a character (char is signed here)"""
    o = ord(c)
    return o - 256 if o > 127 else o

def lit(c):
    o = ord(c)
    if c.isascii() and c.isalnum() or c in ' _+-*/(){}[]<>=.,;:!#%&|~^@?':
        return "'%s'" % c
    return "'\\x%02x'" % o

def cpp_string(s):
    return 'string<%s>' % ','.join(lit(c) for c in s)

def cpp_pos(p):
    if p == START:
        return 'start'
    return 'source_position<mi<%d>,mi<%d>,ch<%s> >' % (p[0], p[1], lit(chr(p[2] & 255)))

START = (1, 1, 0)

class Diverges(Exception):
    pass

class T(object):
    """parser term"""
    __slots__ = ('name', 'args', '_h', '_cpp')
    pool = {}
    def __new__(cls, name, *args):
        k = (name, args)
        t = cls.pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.name = name
            t.args = args
            t._cpp = None
            cls.pool[k] = t
        return t
    def cpp(self):
        if self._cpp is None:
            self._cpp = render(self)
        return self._cpp
    def __repr__(self):
        return self.cpp()

# ---- values -----------------------------------------------------------------------------------------
class V(object):
    """user supplied value: how it is written in C++ and how it is observed"""
    __slots__ = ('cpp', 'obs')
    def __init__(self, cpp, obs):
        self.cpp, self.obs = cpp, obs
    def __hash__(self):
        return hash(self.cpp)
    def __eq__(self, o):
        return isinstance(o, V) and o.cpp == self.cpp
S0, S1, S2 = V('S0', 'S0'), V('S1', 'S1'), V('S2', 'S2')
def VI(n):
    return V('mi<%d>' % n, str(n))

class M(object):
    """user defined error message"""
    __slots__ = ('n',)
    def __init__(self, n):
        self.n = n
    cpp = property(lambda s: s.n)
    text = property(lambda s: s.n)
    def __hash__(self):
        return hash(self.n)
    def __eq__(self, o):
        return isinstance(o, M) and o.n == self.n
M0, M1, M2 = M('m0'), M('m1'), M('m2')

class F(object):
    """user defined metafunction class: name in C++ and python function on observations"""
    __slots__ = ('cpp', 'fn')
    def __init__(self, cpp, fn):
        self.cpp, self.fn = cpp, fn
    def __hash__(self):
        return hash(self.cpp)
    def __eq__(self, o):
        return isinstance(o, F) and o.cpp == self.cpp
NODE = F('op', lambda st, it: 'nd(%s %s)' % (st, it))
NODE2 = F('op2', lambda st, it: 'ne(%s %s)' % (st, it))
WRAP = F('wr', lambda a: 'w(%s)' % a)
WRAP2 = F('wr2', lambda a: 'x(%s)' % a)
SUM = F('op_sum', lambda a, b: str(int(a) + int(b)))
POLY = F('op_poly', lambda a, b: str(int(a) * 3 + int(b)))
SUB = F('op_sub', lambda a, b: str(int(a) - int(b)))
MWRAP = F('mwrap', lambda m: 'mw(%s)' % m)
def PRED(c):
    return F('pred_is<%s>' % lit(c), lambda o: o == str(sc(c)))
def PREDN(c):
    return F('pred_isnt<%s>' % lit(c), lambda o: o != str(sc(c)))
PDIGIT = F('util::is_digit<>', lambda o: 48 <= int(o) <= 57)
PTRUE = F('pred_true', lambda o: True)
PFALSE = F('pred_false', lambda o: False)

EOI = 'Unexpected end of input'
NONE = 'None of the expected cases found'
UNEXP = 'Unexpected character'

def chars(ty, cs):
    return ','.join((lit(c) if ty == 'c' else 'ch<%s>' % lit(c)) for c in cs)

def render(t):
    n, a = t.name, t.args
    if n in ATOMS:
        return n
    if n in ('lit_c',):
        return 'lit_c<%s>' % lit(a[0])
    if n == 'lit':
        return 'lit<ch<%s> >' % lit(a[0])
    if n == 'range_c':
        return 'range_c<%s,%s>' % (lit(a[0]), lit(a[1]))
    if n == 'range':
        return 'range<ch<%s>,ch<%s> >' % (lit(a[0]), lit(a[1]))
    if n in ('one_of_c', 'one_char_except_c'):
        return '%s<%s>' % (n, chars('c', a))
    if n == 'one_char_except':
        return '%s<%s>' % (n, chars('t', a) + (' ' if a else ''))
    if n == 'keyword':
        if len(a) > 1:
            return 'keyword<%s,%s >' % (cpp_string(a[0]), a[1].cpp)
        return 'keyword<%s >' % cpp_string(a[0])
    if n == 'after':
        return 'after<%s>' % lit(a[0])
    if n == 'always_c':
        return 'always_c<%s,%s >' % (lit(a[0]), a[1].cpp)
    if n == 'sequence_apply':
        return 'sequence_apply%d<sa%d,%s >' % (len(a), len(a), ','.join(x.cpp() for x in a))
    if n == 'nth_of':
        return 'nth_of<mi<%d>,%s >' % (a[0], ','.join(x.cpp() for x in a[1:]))
    if n == 'iterate':
        return 'iterate<%s,mi<%d> >' % (a[0].cpp(), a[1])
    if n == 'ref':
        return a[0]
    def r(x):
        if isinstance(x, T):
            return x.cpp()
        if isinstance(x, (V, F, M)):
            return x.cpp
        return str(x)
    if not a:
        return n + '<>'
    return '%s<%s >' % (n, ','.join(r(x) for x in a))

ATOMS = ('where', 'one_char', 'digit', 'digit_val', 'letter', 'space', 'spaces', 'alphanum', 'int_')

def is_digit(c): return '0' <= c <= '9'
def is_letter(c): return 'a' <= c <= 'z' or 'A' <= c <= 'Z'
def is_space(c): return c in ' \t\n\r'

def advance(pos, c):
    line, col, prev = pos
    if c == '\r' or (c == '\n' and prev != 13):
        return (line + 1, 1, sc(c))
    return (line, col + 1, sc(c))

def key(pos):
    return pos

class Model(object):
    def __init__(self):
        self.memo = {}
        self.transitions = 0
        self.depth = 0
        self.refs = {}

    def run(self, t, s, pos=START):
        k = (t, s, pos)
        r = self.memo.get(k)
        if r is not None:
            if r == 'open':
                raise Diverges()
            return r
        self.memo[k] = 'open'
        try:
            r = getattr(self, 'p_' + t.name)(t.args, s, pos)
        except BaseException:
            del self.memo[k]
            raise
        if r[0] == 'R':
            assert isinstance(r[1], frozenset) and r[1]
        self.memo[k] = r
        return r

    def sub(self, t, s, pos):
        self.transitions += 1
        return self.run(t, s, pos)

    # -- parsers of the user's own (harness), which look at the position
    def p_where(self, a, s, pos): return ('A', str(pos[0] * 1000 + pos[1]), s, pos)
    def p_at_col(self, a, s, pos): return ('A', 'S2', s, pos) if pos[1] == a[0] else self.rej('m2', pos)
    def p_after(self, a, s, pos): return ('A', 'S1', s, pos) if pos[2] == sc(a[0]) else self.rej('m1', pos)
    def p_upto_col(self, a, s, pos): return self.p_one_char((), s, pos) if pos[1] <= a[0] else self.rej('m2', pos)

    # -- elementary
    def rej(self, msg, pos):
        return ('R', frozenset([msg]), pos)

    def char(self, s, pos, pred, msg, eoi=EOI, val=None):
        if not s:
            return self.rej(eoi, pos)
        c = s[0]
        if not pred(c):
            return self.rej(msg, pos)
        return ('A', val(c) if val else str(sc(c)), s[1:], advance(pos, c))

    def p_one_char(self, a, s, pos): return self.char(s, pos, lambda c: True, '')
    def p_lit_c(self, a, s, pos):
        m = 'Expected: ' + a[0]
        return self.char(s, pos, lambda c: c == a[0], m, m)
    p_lit = p_lit_c
    def p_digit(self, a, s, pos): return self.char(s, pos, is_digit, 'Digit expected', 'Digit expected')
    def p_digit_val(self, a, s, pos):
        return self.char(s, pos, is_digit, 'Digit expected', 'Digit expected', lambda c: str(ord(c) - 48))
    def p_letter(self, a, s, pos): return self.char(s, pos, is_letter, 'Letter expected')
    def p_space(self, a, s, pos): return self.char(s, pos, is_space, 'Whitespace expected')
    def p_alphanum(self, a, s, pos):
        r = self.choice((T('letter'), T('digit')), s, pos)
        return r
    def p_range_c(self, a, s, pos):
        return self.char(s, pos, lambda c: sc(a[0]) <= sc(c) <= sc(a[1]), UNEXP)
    p_range = p_range_c
    def p_one_of_c(self, a, s, pos):
        """docs: accepts a character of the list; C++98 implements it as a choice of literals"""
        if s and s[0] in a:
            return ('A', str(sc(s[0])), s[1:], advance(pos, s[0]))
        return ('R', frozenset([NONE, EOI] + ['Expected: ' + c for c in a]), pos)
    def p_one_char_except_c(self, a, s, pos):
        return self.char(s, pos, lambda c: c not in a, UNEXP)
    p_one_char_except = p_one_char_except_c
    def p_return_(self, a, s, pos): return ('A', a[0].obs, s, pos)
    def p_fail(self, a, s, pos): return self.rej(a[0].text, pos)
    def p_empty(self, a, s, pos):
        return self.rej('End of input expected', pos) if s else ('A', a[0].obs, s, pos)
    def p_int_(self, a, s, pos):
        n = 0
        while n < len(s) and is_digit(s[n]):
            n += 1
        if not n:
            return self.rej('Digit expected', pos)
        p = pos
        for c in s[:n]:
            p = advance(p, c)
        return ('A', str(int(s[:n])), s[n:], p)
    def p_spaces(self, a, s, pos):
        r = self.loop(T('space'), s, pos)
        if not r[0]:
            return r[3]
        return ('A', '?', r[1], r[2])

    # -- sequencing
    def seq(self, ps, s, pos):
        vs = []
        for p in ps:
            r = self.sub(p, s, pos)
            if r[0] == 'R':
                return r
            vs.append(r[1]); s, pos = r[2], r[3]
        return ('A', vs, s, pos)
    def p_sequence(self, a, s, pos):
        r = self.seq(a, s, pos)
        return r if r[0] == 'R' else ('A', '[%s]' % ''.join(v + ',' for v in r[1]), r[2], r[3])
    def p_nth_of_c(self, a, s, pos):
        n, ps = a[0], a[1:]
        if not 0 <= n < len(ps):
            return self.rej('index (%d) out of range [0-%d]' % (n, len(ps) - 1), pos)
        r = self.seq(ps, s, pos)
        return r if r[0] == 'R' else ('A', r[1][n], r[2], r[3])
    p_nth_of = p_nth_of_c
    def p_first_of(self, a, s, pos): return self.p_nth_of_c((0,) + a, s, pos)
    def p_last_of(self, a, s, pos):
        if not a:      # which index the message names is not documented
            return ('R', frozenset('index (%d) out of range [0--1]' % i for i in (0, -1)), pos)
        return self.p_nth_of_c((len(a) - 1,) + a, s, pos)
    def p_middle_of(self, a, s, pos):
        r1 = self.seq(a[:2], s, pos)
        if r1[0] == 'R':
            return r1
        r = self.sub(a[2], r1[2], r1[3])
        if r[0] == 'R':
            return ('R', frozenset('%s (see %d:%d)' % (m, pos[0], pos[1]) for m in r[1]), r[2])
        return ('A', r1[1][1], r[2], r[3])
    def p_sequence_apply(self, a, s, pos):
        r = self.seq(a, s, pos)
        return r if r[0] == 'R' else ('A', 'sa(%s)' % ' '.join(r[1]), r[2], r[3])
    def p_keyword(self, a, s, pos):
        for c in a[0]:
            if not s or s[0] != c:
                return self.rej('Expected: ' + c, pos)
            pos = advance(pos, c); s = s[1:]
        return ('A', a[1].obs if len(a) > 1 else '?', s, pos)
    def p_token(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        if r[0] == 'R':
            return r
        s, pos = r[2], r[3]
        while s and is_space(s[0]):
            pos = advance(pos, s[0]); s = s[1:]
        return ('A', r[1], s, pos)
    def p_always(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'R' else ('A', a[1].obs, r[2], r[3])
    def p_always_c(self, a, s, pos):
        m = 'Expected: ' + a[0]
        return self.char(s, pos, lambda c: c == a[0], m, m, lambda c: a[1].obs)
    def p_transform(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'R' else ('A', a[1].fn(r[1]), r[2], r[3])

    # -- choice
    def choice(self, ps, s, pos):
        errs = []
        for p in ps:
            r = self.sub(p, s, pos)
            if r[0] == 'A':
                return r
            errs.append(r)
        far = max([e[2] for e in errs] + [pos])
        ms = set()
        for e in errs:
            if e[2] == far:
                ms |= e[1]
        if far == pos:
            ms.add(NONE)
        return ('R', frozenset(ms), far)
    def p_one_of(self, a, s, pos): return self.choice(a, s, pos)
    def p_optional(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'A' else ('A', a[1].obs if len(a) > 1 else '?', s, pos)
    def p_if_(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return ('A', (a[1] if r[0] == 'A' else a[2]).obs, s, pos)
    def p_except(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return self.rej(a[2].text, pos) if r[0] == 'A' else ('A', a[1].obs, s, pos)
    def p_look_ahead(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'R' else ('A', r[1], s, pos)

    # -- repetition
    def loop(self, p, s, pos):
        """(results, rest, position, final rejection)"""
        vs = []
        while True:
            r = self.sub(p, s, pos)
            if r[0] == 'R':
                return vs, s, pos, r
            if len(r[2]) == len(s):
                raise Diverges()
            vs.append(r[1]); s, pos = r[2], r[3]
    def fold(self, vs, st, op, right):
        for v in (reversed(vs) if right else vs):
            st = op.fn(st, v)
        return st
    def any_fold(self, p, state, op, s, pos, right, one, strict):
        vs, s2, pos2, err = self.loop(p, s, pos)
        if one and not vs:
            return err
        if strict and err[2] != pos2:
            return err
        return ('A', self.fold(vs, state, op, right), s2, pos2)
    def p_foldl(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 0, 0, 0)
    def p_foldl1(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 0, 1, 0)
    def p_foldr(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 1, 0, 0)
    def p_foldr1(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 1, 1, 0)
    def p_foldl_reject_incomplete(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 0, 0, 1)
    def p_foldl_reject_incomplete1(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 0, 1, 1)
    def p_foldr_reject_incomplete(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 1, 0, 1)
    def p_foldr_reject_incomplete1(self, a, s, pos): return self.any_fold(a[0], a[1].obs, a[2], s, pos, 1, 1, 1)
    def p_foldl_start_with_parser(self, a, s, pos, strict=0):
        r = self.sub(a[1], s, pos)
        if r[0] == 'R':
            return r
        return self.any_fold(a[0], r[1], a[2], r[2], r[3], 0, 0, strict)
    def p_foldl_reject_incomplete_start_with_parser(self, a, s, pos):
        return self.p_foldl_start_with_parser(a, s, pos, 1)
    def p_foldr_start_with_parser(self, a, s, pos):
        vs, s, pos, err = self.loop(a[0], s, pos)
        r = self.sub(a[1], s, pos)
        if r[0] == 'R':
            return r
        return ('A', self.fold(vs, r[1], a[2], 1), r[2], r[3])
    def rep(self, p, s, pos, one, strict):
        vs, s2, pos2, err = self.loop(p, s, pos)
        if one and not vs:
            return err
        if strict and err[2] != pos2:
            return err
        return ('A', '[%s]' % ''.join(v + ',' for v in vs), s2, pos2)
    def p_repeated(self, a, s, pos): return self.rep(a[0], s, pos, 0, 0)
    def p_repeated1(self, a, s, pos): return self.rep(a[0], s, pos, 1, 0)
    def p_repeated_reject_incomplete(self, a, s, pos): return self.rep(a[0], s, pos, 0, 1)
    def p_repeated_reject_incomplete1(self, a, s, pos): return self.rep(a[0], s, pos, 1, 1)
    def p_repeated_one_of(self, a, s, pos): return self.rep(T('one_of', *a), s, pos, 0, 0)
    def p_repeated_one_of1(self, a, s, pos): return self.rep(T('one_of', *a), s, pos, 1, 0)
    def p_iterate_c(self, a, s, pos):
        r = self.seq([a[0]] * a[1], s, pos)
        return r if r[0] == 'R' else ('A', '[%s]' % ''.join(v + ',' for v in r[1]), r[2], r[3])
    p_iterate = p_iterate_c

    # -- error shaping
    def p_change_error_message(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'A' else self.rej(a[1].text, pos)
    def p_transform_error_message(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'A' else ('R', frozenset(a[1].fn(m) for m in r[1]), r[2])
    def p_transform_error(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        return r if r[0] == 'A' else a[1].fn(r)
    def p_accept_when(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        if r[0] == 'R' or a[1].fn(r[1]):
            return r
        return self.rej(a[2].text, pos)
    def p_fail_at_first_char_expected(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        if r[0] == 'A':
            return self.rej('Parser expected to fail', pos)
        return ('A', '?', s, pos) if r[2] == pos else r
    def p_entire_input(self, a, s, pos):
        r = self.sub(a[0], s, pos)
        if r[0] == 'R':
            return r
        if r[2]:
            return self.rej(a[1].text if len(a) > 1 else 'End of input expected', r[3])
        return r
    # -- recursion through a named parser (struct declared in the harness)
    def p_ref(self, a, s, pos): return self.sub(self.refs[a[0]], s, pos)

TE_MSG = F('te_msg', lambda r: ('R', frozenset('te(%s)' % m for m in r[1]), r[2]))
TE_CONST = F('te_const', lambda r: ('R', frozenset(['m9']), (77, 7, 0)))

def esc(s):
    o = ''
    for c in s:
        n = ord(c)
        o += c if 32 <= n < 127 and c != '\\' else '\\x%02x' % n
    return o

def show_pos(p):
    return '%d:%d:%d' % p

def observe(r):
    """the set of observation strings the model allows"""
    if r[0] == 'A':
        return frozenset(['A %s | %s | %s' % (r[1], '[%s]' % ''.join('%d,' % sc(c) for c in r[2]), show_pos(r[3]))])
    return frozenset('R %s | %s' % (esc(m), show_pos(r[2])) for m in r[1])
