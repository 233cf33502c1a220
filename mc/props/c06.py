"""C06 left folds"""
from folds import *

def check(e, thorough):
    u = U()
    W = list(words('abc', 5 if thorough else 4))
    WS = list(words('abc', 4 if thorough else 3))
    u.cross([T(f, p, S0, NODE) for p in ELEMS for f in ('foldl', 'foldl1')], W)
    u.cross([T('foldl_start_with_parser', p, s, NODE) for p in ELEMS for s in STARTS], WS)
    u.cross([T('foldl_start_with_parser', p, s, NODE) for p in (a, AB) for s in STARTS], W)
    # numeric, non-commutative operations
    dv = T('digit_val')
    for op in (POLY, SUB):
        u.cross([T(f, dv, VI(1), op) for f in ('foldl', 'foldl1')] + [T('foldl_start_with_parser', T('last_of', L('-'), dv), dv, op)], words('12-', 4))
    # starting positions and line ends
    lines = [ONE(L('\n'), L('\r')), T('space'), SEQ(L('\n'), L('a')), T('one_char')]
    u.cross([T(f, p, S1, NODE) for p in lines for f in ('foldl', 'foldl1')] + [T('foldl_start_with_parser', p, T('optional', a, S0), NODE) for p in lines],
            words('a\n\r', 4 if thorough else 3), (START, (6, 3, 13)))
    # nested folds
    nested = [T('foldl', T('foldl1', a, S0, NODE), S1, NODE2), T('foldl', T('last_of', b, T('foldl', a, S0, NODE)), S1, NODE2),
              T('foldl_start_with_parser', T('last_of', b, T('foldl_start_with_parser', a, c, NODE)), T('foldl_start_with_parser', a, c, NODE), NODE2),
              SEQ(T('foldl', a, S0, NODE), T('foldl1', b, S0, NODE)), T('entire_input', T('foldl', ONE(a, b), S0, NODE))]
    u.cross(nested, W)
    # every repetition count
    for n in range(0, 65 if thorough else 49):
        cf = None if n <= 31 else BIG
        for tail in ('', 'b'):
            u.cross([T('foldl', a, S0, NODE), T('foldl1', a, S0, NODE), T('foldl_start_with_parser', a, T('optional', b, S1), NODE)], ['a' * n + tail], (START,), cf if n + len(tail) <= 32 or cf else BIG)
    # long inputs
    for n in (64, 65, 96, 100, 127, 128, 129) if not thorough else list(range(64, 132)) + [150]:
        w = ('1234567890' * 20)[:n]
        for op in (SUB,):
            u.cross([T(f, dv, VI(1), op) for f in ('foldl', 'foldl1')] + [T('foldl_start_with_parser', dv, dv, op)], [w, w + '-'], (START, (2, 3, 13)), BIG)
    # parsers that look at where they are, from several places
    u.cross([T(f, p, S0, NODE) for p in posdep() for f in ('foldl', 'foldl1')] + [T('foldl_start_with_parser', p, s, NODE) for p in [a] + posdep()[3:] for s in posdep()] + [T('foldl_start_with_parser', p, a, NODE) for p in posdep()], ['', 'a', 'b', 'aa', 'ab', 'aab'], POSS)
    # every character value, many starting positions
    xa = SEQ(ANY, T('one_char_except_c', 'b'))
    u.sweep([T(f, p, S0, NODE) for f in ('foldl', 'foldl1') for p in (ANY, xa)] + [T('foldl_start_with_parser', ANY, ANY, NODE), T('foldl_start_with_parser', xa, T('optional', a, S0), NODE), T('foldl_start_with_parser', ANY, T('last_of', a, b), NODE)])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['13 element parsers, 9 starting parsers, inputs over {a,b,c} up to length 4 (5 thorough); every repetition count up to 48 (64), and some up to 129 (150)'])
