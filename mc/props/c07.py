"""C07 right folds"""
from folds import *

def check(e, thorough):
    u = U()
    W = list(words('abc', 5 if thorough else 4))
    WS = list(words('abc', 4 if thorough else 3))
    u.cross([T(f, p, S0, NODE) for p in ELEMS for f in ('foldr', 'foldr1')], W)
    u.cross([T('foldr_start_with_parser', p, s, NODE) for p in ELEMS for s in STARTS], WS)
    u.cross([T('foldr_start_with_parser', p, s, NODE) for p in (a, AB, ONE(AB, a)) for s in STARTS], W)
    dv = T('digit_val')
    for op in (POLY, SUB):
        u.cross([T(f, dv, VI(1), op) for f in ('foldr', 'foldr1')] + [T('foldr_start_with_parser', T('first_of', dv, L('-')), dv, op)], words('12-', 4))
    lines = [ONE(L('\n'), L('\r')), T('space'), SEQ(L('\n'), L('a')), T('one_char')]
    u.cross([T(f, p, S1, NODE) for p in lines for f in ('foldr', 'foldr1')] + [T('foldr_start_with_parser', p, T('optional', a, S0), NODE) for p in lines] +
            [T('foldr_start_with_parser', p, SEQ(ANY, ANY), NODE) for p in lines],
            words('a\n\r', 4 if thorough else 3), (START, (6, 3, 13)))
    nested = [T('foldr', T('foldr1', a, S0, NODE), S1, NODE2), T('foldr', T('last_of', b, T('foldr', a, S0, NODE)), S1, NODE2),
              T('foldr_start_with_parser', T('first_of', T('foldr_start_with_parser', a, c, NODE), b), c, NODE2),
              T('foldr', T('last_of', b, T('foldl', a, S0, NODE)), S1, NODE2), T('foldl', T('last_of', b, T('foldr', a, S0, NODE)), S1, NODE2),
              SEQ(T('foldr', a, S0, NODE), T('foldr1', b, S0, NODE)), T('entire_input', T('foldr', ONE(a, b), S0, NODE))]
    u.cross(nested, W)
    for n in range(0, 65 if thorough else 49):
        cf = None if n <= 31 else BIG
        for tail in ('', 'b'):
            u.cross([T('foldr', a, S0, NODE), T('foldr1', a, S0, NODE), T('foldr_start_with_parser', a, T('optional', b, S1), NODE), T('foldr_start_with_parser', a, b, NODE)],
                    ['a' * n + tail], (START,), cf if n + len(tail) <= 32 or cf else BIG)
    # long inputs
    for n in (64, 65, 96, 100) if not thorough else range(64, 111):
        w = ('1234567890' * 20)[:n]
        for op in (SUB,):
            u.cross([T(f, dv, VI(1), op) for f in ('foldr', 'foldr1')] + [T('foldr_start_with_parser', dv, dv, op) if 0 else T('foldr_start_with_parser', dv, T('return_', VI(2)), op)], [w, w + '-'], (START, (2, 3, 13)), BIG)
    # parsers that look at where they are, from several places
    u.cross([T(f, p, S0, NODE) for p in posdep() for f in ('foldr', 'foldr1')] + [T('foldr_start_with_parser', p, s, NODE) for p in [a] + posdep()[3:] for s in posdep()] + [T('foldr_start_with_parser', p, a, NODE) for p in posdep()], ['', 'a', 'b', 'aa', 'ab', 'aab'], POSS)
    # every character value, many starting positions
    xa = SEQ(ANY, T('one_char_except_c', 'b'))
    u.sweep([T(f, p, S0, NODE) for f in ('foldr', 'foldr1') for p in (ANY, xa)] + [T('foldr_start_with_parser', T('one_char_except_c', 'b'), b, NODE), T('foldr_start_with_parser', xa, T('optional', a, S0), NODE), T('foldr_start_with_parser', T('one_char_except_c', 'b'), ANY, NODE)])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['13 element parsers, 9 final parsers, inputs over {a,b,c} up to length 4 (5 thorough); every repetition count up to 48 (64), and some up to 100 (110)'])
