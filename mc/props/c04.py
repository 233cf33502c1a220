"""C04 ordered choice, optional, look-ahead"""
from universe import *
from universe import L

def alts():
    return [L('a'), SEQ(L('a'), L('b')), SEQ(L('a'), L('a'), L('b')), T('return_', S1), T('fail', M0), T('empty', S2), T('keyword', 'ba', S0)]

def check(e, thorough):
    u = U()
    A = alts()
    W3 = list(words('ab', 3))
    W4 = list(words('ab', 4))
    for ar in (0, 1, 2):
        for ps in itertools.product(A, repeat=ar):
            u.cross([ONE(*ps)], W4)
    for ps in itertools.product(A, repeat=3):
        u.cross([ONE(*ps)], W3 if thorough else ['', 'a', 'b', 'ab', 'aab', 'aaa', 'bab', 'aba'])
    # unary deciders over single parsers and over choices
    inner = A + [ONE(x, y) for x in A[:5] for y in A[:5] if x is not y] + [ANY, T('repeated', L('a')), SEQ(ANY, ANY, L('a')), SEQ(L('\n'), L('a'))]
    for p in inner:
        u.cross([T('optional', p, S0), T('look_ahead', p), T('if_', p, S0, S1), T('except', p, S0, M1)], W3 + ['\n', '\na', '\nb'], (START, (2, 9, 13)) if thorough or p in A else (START,))
    # decide, then continue on the same input
    for p in A + [ANY]:
        for q in (ANY, L('a'), SEQ(L('a'), L('b')), T('repeated', ANY)):
            u.cross([SEQ(T('look_ahead', p), q), SEQ(T('optional', p, S0), q), SEQ(T('if_', p, S0, S1), q), SEQ(T('except', p, S0, M1), q),
                     ONE(T('last_of', T('look_ahead', p), q), ANY), ONE(SEQ(p, q), q)], W3)
    # parsers that look at where they are
    for p in (T('at_col', 1), T('at_col', 2), T('after', 'a'), T('upto_col', 2), T('last_of', ANY, T('at_col', 2)), T('last_of', ANY, T('after', 'a')), T('last_of', ANY, ANY, T('where'))):
        u.cross([T('optional', p, S0), T('look_ahead', p), T('if_', p, S0, S1), T('except', p, S0, M1), ONE(p, T('where')), ONE(T('fail', M0), p, T('where')), ONE(SEQ(ANY, T('at_col', 1)), p, T('where'))], W3 + ['\n', '\na'], (START, (2, 2, 97)))
        u.cross([SEQ(ANY, T('optional', p, S0), T('where')), SEQ(ANY, T('look_ahead', p), T('where')), SEQ(ANY, T('if_', p, S0, S1), T('where')), SEQ(ANY, T('except', p, S0, M1), T('where')), SEQ(ANY, ONE(SEQ(p, L('b')), T('where')))], W3)
    # the default result of optional
    u.cross([T('optional', p) for p in (A[0], A[1], A[4])], W3)
    # nested decisions
    for f in ('optional', 'look_ahead', 'if_', 'except'):
        for g in ('optional', 'look_ahead', 'if_', 'except'):
            for p in (A[0], A[1], A[4]):
                def mk(h, x): return T(h, x, *{'optional': (S0,), 'look_ahead': (), 'if_': (S0, S1), 'except': (S2, M2)}[h])
                u.cross([mk(f, mk(g, p)), ONE(mk(f, SEQ(p, mk(g, p))), ANY)], W3)
    # many alternatives: each of them selected in turn; several able to accept; partial matches before
    al = 'abcdefghijklmnopqrstuvwxyz'
    for ar in range(1, 25):
        cf = None if ar <= 20 else ('11', '14', '17')
        lits = [L(x) for x in al[:ar]]
        u.cross([ONE(*lits)], list(al[:ar]) + ['', 'Z', '\n'], (START,), cf)
        for i in sorted(set([0, 1, ar // 2, ar - 2, ar - 1])):
            if 0 <= i < ar:
                ps = [SEQ(L('x'), ANY, L(c)) for c in al[:ar]]
                ps[i] = T('always', L('x'), VI(i))
                u.cross([ONE(*ps)], ['x', 'xy', 'xxa', 'xx' + al[ar - 1], 'xxZ', ''], (START, (3, 3, 10)), cf)
        if ar % 4 == 1 or thorough:
            u.cross([T('repeated_one_of', *lits), T('repeated_one_of1', *lits)], ['', al[:ar], al[:ar][::-1], 'Z', al[ar - 1] + 'Z'], (START,), cf)
    # abandoned alternatives that crossed line ends
    cross = [ONE(SEQ(ANY, ANY, L('x')), SEQ(ANY, L('x')), ANY), T('optional', SEQ(ANY, ANY, L('x')), S0), T('look_ahead', SEQ(ANY, ANY)),
             SEQ(T('look_ahead', SEQ(ANY, ANY)), ANY), SEQ(T('optional', SEQ(ANY, L('x')), S0), ANY), SEQ(T('if_', SEQ(ANY, ANY), S0, S1), ANY)]
    u.cross(cross, words('a\n\r', 3), (START, (1, 5, 13)))
    # every character value, many starting positions
    xa = SEQ(ANY, L('a'))
    u.sweep([ONE(xa, ANY), ONE(L('a'), SEQ(L('b'), L('b')), ANY), T('optional', xa, S0), T('optional', ANY, S0), T('look_ahead', xa), T('look_ahead', ANY), T('if_', xa, S0, S1), T('if_', ANY, S0, S1), T('except', xa, S0, M1), T('except', ANY, S0, M1)])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['alternatives from a set of 7 parsers in every order up to 3, up to 24 alternatives in the listed families'])
