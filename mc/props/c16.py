"""C16 meaning of grammar rule text"""
import itertools
from gram import *
from engine import Case, Cfg, ALL_STDS
TOK = ["'a'", "'b'", '|', '*', '+', '(', ')']

class GU(object):
    def __init__(self):
        self.m, self.cases, self.bad, self.seen, self.n = Model(), [], [], set(), 0
    def rule(self, text, inputs, cfgs=None, imports=(), poss=(START,)):
        """classifies text; well-formed: cases for the inputs; malformed: to be rejected by the compiler"""
        if text in self.seen:
            return
        self.seen.add(text)
        g = 'grammar<>' + ''.join('::import<%s,%s >::type' % (cpp_string(n), p.cpp()) for n, p in imports) + '::rule<%s >::type' % cpp_string(text)
        unknown = []
        def env(n):
            if n not in dict(imports):
                unknown.append(n)
            return dict(imports).get(n, ANY)
        try:
            _, p = parse_rule(text, env)
            if unknown:
                return
        except Bad:
            self.bad.append((text, g))
            return
        self.n += 1
        d = ('typedef %s G%d;' % (g, self.n),)
        for s in inputs:
            for pos in poss:
                try:
                    r = self.m.run(p, s, pos)
                except Diverges:
                    continue
                self.cases.append(Case('rule "%s" on "%s" at %s' % (esc(text), esc(s), show_pos(pos)), d, 'o<G%d,%s,%s >(@ID@);' % (self.n, cpp_string(s), cpp_pos(pos)), observe(r), cfgs))

def check(e, thorough):
    u = GU()
    BIG = ('11', '14', '17')
    W3 = list(words('ab', 2)) + ['aab', 'aba', 'abab', 'bba', 'ac', 'c']
    for n in range(1, 6 if thorough else 5):
        for ts in itertools.product(TOK, repeat=n):
            text = 'S ::= ' + ' '.join(ts)
            if n <= 3 or (thorough and n == 4):
                u.rule(text, W3)
            else:
                try:
                    parse_rule(text, None)
                except Bad:
                    continue
                u.rule(text, W3 if n == 4 else W3[:9], None if n == 4 else BIG)
    # choice, sequence, repetition, brackets: all shapes with five operands
    X = ["'a'", "'b'", "'a'", "'c'"]
    for ops in itertools.product(['', '|'], repeat=3):
        for sfx in itertools.product(['', '*', '+'], repeat=4) if thorough else itertools.product(['', '*'], repeat=4):
            t = ''.join(x + f + o for x, f, o in zip(X, sfx, ops + ('',)))
            u.rule('S::=' + t, ['', 'a', 'b', 'c', 'abac', 'ab', 'aab', 'bac', 'ac', 'abc', 'aaac', 'abbac'], BIG)
    for br in ["('a'|'b')'c'", "'a'|('b''c')", "'a'('b'|'c')", "('a''b')*'c'", "('a'|'b')+'c'", "'a'('b''c')+", "(('a'))", "('a'('b'))", "('a'|('b'|'c'))", "('a'*)('b'+)", "('a'|'b''c')*", "(('a'|'b')'c')*",
               "'a'('b'('c'|'a')*)+", "('a''b')|('a''c')", "'a'('b'|'a''c')'b'"]:
        u.rule('S ::= ' + br, list(words('abc', 2)) + ['abc', 'aac', 'aca', 'bca', 'ababc', 'abac', 'abab', 'aacb', 'bcbc', 'acbc'])
    # long choices and sequences
    al = 'abcdefghijkl'
    for k in range(2, 12):
        cf = None if k <= 6 else BIG
        lits = ["'%s'" % x for x in al[:k]]
        u.rule('S::=' + '|'.join(lits), list(al[:k + 1]) + [''], cf)
        u.rule('S::=' + ''.join(lits), [al[:j] for j in range(k + 1)] + [al[:k] + 'x', al[:k - 1] + 'x'], cf)
        if k >= 3:
            u.rule('S::=' + ''.join(lits[:-1]) + '|' + lits[-1], [al[:k - 1], al[k - 1], al[:k], al[:k - 2], ''], cf)
            u.rule('S::=' + lits[0] + '|' + ''.join(lits[1:]), [al[:k - 1], al[k - 1], al[1:k], al[1:k - 1], 'a', ''], cf)
    for k in range(1, 6):
        u.rule('S::=' + '(' * k + "'a'" + ')' * k, ['', 'a', 'b', 'aa'])
        u.rule('S::=' + '(' * k + "'a'" + '|\'b\')' * k if k < 4 else 'S::=' + '(' * k + "'a'" + ')*' * 1 + ')' * (k - 1), ['', 'a', 'b', 'ba', 'aa'])
    # layout: every gap empty, space, newline, tab, several
    GAPS = ['', ' ', '\n', '\t', '\r\n', '  ']
    for ts in (['S', '::=', "'a'"], ['S', '::=', 'I'], ['S', '::=', "'a'", '*'], ['S', '::=', "'a'", "'b'"], ['S', '::=', "'a'", '|', "'b'"], ['S', '::=', '(', "'a'", ')'], ['S', '::=', '(', "'a'", ')', '+'], ['S', '::=', 'I', "'a'"], ['S', '::=', "'a'", '+', 'I']):
        for gaps in itertools.product(GAPS[:3] if len(ts) > 3 else GAPS, repeat=len(ts)):
            if len(ts) > 4 and not thorough and sum(g != ' ' for g in gaps) > 2:
                continue
            u.rule(''.join(t + g for t, g in zip(ts, gaps)), ['', 'a', 'ab', 'aa', 'b', 'aab', 'aaa'], None, (('I', L('a')),))
    # characters: every value as a literal, every escape
    for i in range(256):
        c = chr(i)
        if c not in "'\\":
            u.rule("S ::= '%s'" % c, [c, '', c + c, 'a' if c != 'a' else 'b'])
    for i in list(range(32, 127)) + [9, 10, 0, 255]:
        c = chr(i)
        u.rule("S ::= '\\%s'" % c, sorted({'\n', '\r', '\t', '\\', "'", c, ESC.get(c, c), 'a', ''}))
    for t in ("'\\n''\\r'", "'\\\\'*", "('\\''|'\\t')+'n'", "'\"''\\\\''n'", "'n'|'\\n'", "'|'", "'*''+'", "'(' ')'", "':'':''='", "' ' '\t'", "' '*'a'"):
        u.rule('S ::= ' + t, [x + y for x in ('', '\n', '\\', "'", 'n', '|', '*', '(', ' ', '\t', '"', ':') for y in ('', '\r', 'n', '+', ')', 'a', '\t', '\\', ' ', ':=')])
    # names
    for nm in ['I', 'Ix', 'xI', 'I1', '1', '_', 'I_', 'a', 'I_x9', 'Z', '0a']:
        imp = ((nm, L('a')), ('J', L('b')), ('II', T('last_of', ANY, L('c'))))
        for t in ('%s', '%s*', '%s J', 'J %s', '%s|J', "'c' %s", '(%s)', 'J*%s+'):
            u.rule('S ::= ' + t % nm, ['', 'a', 'b', 'ab', 'ba', 'ca', 'c', 'aab', 'bbaa'], None, imp)
    # other rule heads and texts that are not rules
    for t in ['', 'S', 'S ::=', 'S ::= ', "::= 'a'", "S = 'a'", "S : := 'a'", "S ::='a", "S ::= a'", "S ::= ''", "S ::= 'ab'", "S S ::= 'a'", "'S' ::= 'a'", "S ::= 'a' ::= 'b'", "S ::= 'a';", "S ::= 'a' ]", "S ::= [a]", "S := 'a'",
              "S ::= 'a'?", "S ::= \"a\"", "S ::= 'a'-", "S-x ::= 'a'", "S ::= '\\'", "S ::= '\\n", "S ::= '''", "S ::= 'a''", "S ::= ('a'", "S ::= 'a')", "S ::= ()", "S ::= ('a'|)", "S ::= (|'a')", "S ::= (*)", "S ::= 'a'||'b'", "S ::= *'a'",
              "S ::=| 'a'", "S ::= 'a'|*", "S ::= 'a' , 'b'"]:
        u.rule(t, ['a'])
    # strings over the raw characters
    for w in words("'\\na| ", 4 if thorough else 3, 1):
        if w[0] == ' ':
            continue
        u.rule('S ::= ' + w, ['', 'a', 'n', '\\', "'", '\n', 'aa', 'na', ' ', '|', '\\n'])
    e.states += len(u.m.memo); e.transitions += u.m.transitions
    e.run(u.cases, batch=160)
    e.notes['rules_well_formed'] = u.n
    if not e.violations:
        items = []
        for i, (text, g) in enumerate(u.bad):
            for std in (('98', '11') if thorough else (('11',) if i % 3 else ('98',))):
                items.append(('malformed rule "%s"' % esc(text), 'namespace vf { typedef %s G; typedef G::apply<%s,start>::type R; enum { x = is_error<R>::type::value }; }' % (g, cpp_string('a')), Cfg(std), None))
        e.must_fail(items)
        e.notes['rules_malformed'] = len(u.bad)
    return dict(assumptions=['all token sequences over {\'a\',\'b\',|,*,+,(,)} up to length %d (malformed ones up to %d); rule texts up to 32 characters on C++98' % ((5, 4) if thorough else (4, 3))])
