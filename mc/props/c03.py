"""C03 sequencing"""
from universe import *

def check(e, thorough):
    u = U()
    c, n, o, f, k = L('a'), T('return_', S0), ANY, T('fail', M0), SEQ(L('a'), L('b'))
    five = [c, n, o, f, k]
    four = [c, n, o, f]
    def tuples(al, n): return itertools.product(al, repeat=n)
    W3, W4 = list(words('ab', 3)), list(words('ab', 4))
    u.cross([SEQ()], W3)
    for ar in (1, 2, 3):
        for ps in tuples(five, ar):
            u.cross([SEQ(*ps)], W4 if (ar < 3 or thorough) else ['', 'a', 'b', 'ab', 'aa', 'aab', 'aba', 'aaa', 'abab', 'aabb'])
    for ar in (1, 2, 3):
        for ps in tuples(four, ar):
            ins = W3 if (ar < 3 or thorough) else ['', 'a', 'b', 'aa', 'ab', 'aab', 'aaa', 'baab']
            for i in range(-1, ar + 1):
                u.cross([T('nth_of_c', i, *ps)], ins)
            u.cross([T('first_of', *ps), T('last_of', *ps), T('sequence_apply', *ps)], ins)
            if ar == 3:
                u.cross([T('middle_of', *ps)], W3 if thorough else ins)
    for ps in tuples([o, n], 4):
        u.cross([T('sequence_apply', *ps), SEQ(*ps)], ['', 'abcd', 'ab', 'abcde'])
    # every selector on every arity, each parser recognisable by its own result; failures at every place
    big = ('11', '14', '17')
    al = 'abcdefghijklmno'
    for ar in range(1, 13 if thorough else 11):
        cf = None if ar <= 5 else big
        lits = [L(x) for x in al[:ar]]
        ins = [al[:k] for k in range(ar + 2)] + [al[:k] + 'X' + al[k + 1:ar] for k in range(ar)]
        u.cross([SEQ(*lits), T('first_of', *lits), T('last_of', *lits)], ins, (START, (3, 7, 10)), cf)
        for i in range(-2, ar + 2):
            u.cross([T('nth_of_c', i, *lits)], [al[:ar], al[:ar] + 'zz', al[:ar - 1], '', 'X'], (START,), cf)
            u.cross([T('nth_of', i, *lits)], [al[:ar], al[:ar - 1]], ((2, 2, 13),), cf)
    for ar in range(1, 5):
        lits = [L(x) for x in al[:ar]]
        u.cross([T('sequence_apply', *lits)], [al[:k] for k in range(ar + 2)] + [al[:k] + 'X' + al[k + 1:ar] for k in range(ar)], (START, (3, 7, 10)))
    # brackets opened at various places, missing closing part after various contents
    mid = T('middle_of', L('('), T('repeated', T('one_char_except_c', ')')), L(')'))
    mid2 = T('middle_of', T('token', L('(')), T('token', L('a')), T('token', L(')')))
    nest = T('middle_of', L('('), T('optional', mid, S0), L(')'))
    far = T('middle_of', L('('), L('a'), SEQ(L(')'), L(')')))
    u.cross([mid, mid2, nest, far, T('last_of', T('repeated', T('space')), mid2)], words('(a)', 4 if thorough else 3))
    u.cross([mid, mid2, nest, far, T('last_of', T('repeated', T('space')), mid2)],
            ['(a', '(a\n', '(\na', '(\na\n)', '\n(a', ' \r\n (a \n', '(', '', '((a)', '(a)x', '\n\n (a', '(a)', '(a))'], (START, (12, 34, 13)))
    # keywords
    kws = list(words('ab', 3))
    u.cross([T('keyword', w, S1) for w in kws], W4)
    u.cross([T('keyword', w) for w in ('', 'a', 'ab')], W3)
    for ln in range(1, 26, 1 if thorough else 3):
        kw = 'abcdefghijklmnopqrstuvwxyz'[:ln]
        u.cross([T('keyword', kw, S0)], [kw[:j] + 'Z' + kw[j + 1:] for j in range(ln)] + [kw[:j] for j in range(ln + 1)] + [kw + 'x'])
    u.cross([T('keyword', w, S0) for w in ('a\nb', '\r\n', '\n\r', '\xff\0')], ['a\nb', 'a\n', 'a\rb', '\r\n', '\r', '\n\r', '\n', '\xff\0', '\xff', '\xff\1'], (START, (5, 5, 13)))
    # token: trailing whitespace only, of every kind
    toks = [T('token', L('a')), T('token', T('repeated1', L('a'))), T('token', T('token', L('a'))), SEQ(T('token', L('a')), T('token', L('a'))),
            T('token', T('return_', S0)), T('token', k), T('token', T('space')), T('token', T('int_'))]
    u.cross(toks, words('a \n', 4 if thorough else 3))
    u.cross(toks[:3], ['a' + x + 'a' for x in words(' \t\n\r', 2)] + ['a' + chr(x) for x in range(256)])
    u.cross([T('token', L('a'))], ['a' + ' ' * i + 'b' for i in range(28)])
    # always / transform
    inner = five + [T('one_of', c, k), T('repeated1', c), T('optional', k, S2)]
    for p in inner:
        ts = [T('always', p, S1), T('transform', p, WRAP), T('transform', T('transform', p, WRAP), WRAP2), T('always', T('transform', p, WRAP), VI(7)),
              T('transform', T('always', p, S1), WRAP2), T('first_of', p, T('repeated', L('b'))), T('last_of', T('transform', p, WRAP), T('always', p, S0))]
        u.cross(ts, W3, (START, (4, 5, 10)))
    u.cross([T('always_c', 'a', S0), T('always_c', '\n', VI(3))], ['', 'a', 'b', 'ab', '\n', '\na'], (START, (4, 5, 13)))
    # parsers that look at where they are: each is applied exactly where the previous one stopped
    wh, upto, aft = T('where'), T('upto_col', 2), T('after', 'a')
    for ps in tuples([wh, upto, aft, o], 3):
        u.cross([SEQ(*ps), T('first_of', *ps), T('last_of', *ps), T('nth_of_c', 1, *ps), T('nth_of_c', 3, *ps), T('middle_of', *ps), T('sequence_apply', *ps)], ['', 'ab', 'ba', 'aaa', 'a\na', '\r\n\n'], (START, (1, 3, 97)))
    for p in (wh, upto, aft, T('at_col', 1), SEQ(o, upto)):
        u.cross([T('token', p), T('always', p, S1), T('transform', p, WRAP), SEQ(T('token', p), wh), T('sequence_apply', wh, p), T('sequence_apply', p), T('sequence_apply', p, p, p, p),
                 SEQ(p), T('last_of', T('keyword', 'ab', S0), p), T('middle_of', T('token', o), p, p)], ['', 'a', 'ab', ' a', 'a b', 'a  \nb', 'ab a', 'aaaa'], (START, (4, 2, 97), (4, 1, 13)))
    # nothing to select from: any index is out of range
    u.cross([T('first_of'), T('last_of')], ['', 'a'], (START, (3, 7, 10)), big)
    u.cross([T('nth_of_c', i) for i in (-1, 0, 1, 5)], ['', 'a'], (START, (3, 7, 10)), big)
    # more parsers than any limit
    for ar in (13, 16, 20, 21, 26):
        al2 = 'abcdefghijklmnopqrstuvwxyz'
        lits = [L(x) for x in al2[:ar]]
        u.cross([SEQ(*lits), T('first_of', *lits), T('last_of', *lits)] + [T('nth_of_c', i, *lits) for i in (0, 1, ar // 2, ar - 2, ar - 1, ar)], [al2[:ar], al2[:ar] + 'x', al2[:ar - 1], 'X' + al2, al2[:ar // 2] + 'X', al2[:ar - 1] + 'X', ''], (START,), big)
    # nested selectors
    nestt = [SEQ(SEQ(c, o), n), SEQ(T('last_of', c, o), T('first_of', o, o)), T('nth_of_c', 1, SEQ(c, c), T('nth_of_c', 0, o, o)),
             T('sequence_apply', SEQ(o, o), T('sequence_apply', o)), T('middle_of', o, SEQ(o, o), T('last_of', o, c)),
             SEQ(T('sequence'), T('sequence')), T('first_of', T('iterate_c', o, 2), T('fail', M1))]
    u.cross(nestt, words('ab', 5))
    # every character value, many starting positions
    xa = SEQ(o, L('a'))
    u.sweep([SEQ(o, o), T('first_of', o, o), T('last_of', o, o), T('nth_of_c', 1, o, o), T('nth_of', 0, o, o), T('middle_of', o, o, n), T('sequence_apply', o, o), T('always', o, S0), T('transform', o, WRAP), T('token', o), xa, T('last_of', o, T('where'))])
    for i in range(256):
        w = chr(i)
        u.cross([T('keyword', w + 'b', S0), T('keyword', 'a' + w, S0)], ['', w, w + 'b', 'a', 'a' + w, 'b'])
        u.cross([T('always_c', w, S0)], [w, '', 'a', chr(255 - i)])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['argument counts 1..5 in C++98, 1..10 (12 thorough) otherwise; inputs over {a,b} up to length 4-5 plus the listed families'])
