"""C08 reject_incomplete variants"""
from folds import *

def variants(p):
    return [T('foldl_reject_incomplete', p, S0, NODE), T('foldl_reject_incomplete1', p, S0, NODE), T('foldr_reject_incomplete', p, S0, NODE),
            T('foldr_reject_incomplete1', p, S0, NODE), T('repeated_reject_incomplete', p), T('repeated_reject_incomplete1', p)]

def check(e, thorough):
    u = U()
    W = list(words('abc', 5 if thorough else 4))
    for p in strict_elems():
        u.cross(variants(p), W)
        for s in (c, T('return_', S1), AB, T('fail', M0), T('optional', c, S2), T('repeated', c)):
            u.cross([T('foldl_reject_incomplete_start_with_parser', p, s, NODE)], list(words('abc', 4 if thorough else 3)))
    for p in line_elems():
        u.cross(variants(p) + [T('foldl_reject_incomplete_start_with_parser', p, T('optional', a, S0), NODE)], words('a\n\r', 4), (START, (3, 8, 13)) if thorough else (START,))
        u.cross(variants(p) + [T('foldl_reject_incomplete_start_with_parser', p, T('optional', a, S0), NODE)], words('a\n\r', 3 if thorough else 2), ((3, 8, 13), (1, 1, 10)))
    # whatever matched before: every number of complete elements followed by every kind of incomplete one
    for p, unit, tails in ((AB, 'ab', ('', 'a', 'ac', 'b', 'aa')), (ABC, 'abc', ('', 'a', 'ab', 'abb', 'c')), (SEQ(L('\n'), a), '\na', ('', '\n', '\nb', 'a', '\r')),
                           (SEQ(L('\r'), L('\n')), '\r\n', ('', '\r', '\r\r', '\n'))):
        for n in range(0, 40 if thorough else 26):
            for t in tails:
                s = unit * n + t
                cf = None if len(s) <= 32 else BIG
                u.cross(variants(p) + [T('foldl_reject_incomplete_start_with_parser', p, T('return_', S1), NODE)], [s], (START,), cf)
    for n in (48, 64, 65) if not thorough else range(40, 70):
        for t in ('', 'a', 'ac', 'b'):
            u.cross([T('repeated_reject_incomplete', AB), T('repeated_reject_incomplete1', AB), T('foldr_reject_incomplete', T('always', AB, VI(1)), VI(0), SUM), T('foldl_reject_incomplete', T('always', AB, VI(1)), VI(0), SUM)], ['ab' * n + t], (START,), BIG)
    # in context: the rejection must reach the outside
    ctx = [SEQ(T('repeated_reject_incomplete', AB), c), ONE(T('foldr_reject_incomplete', AB, S0, NODE), a), T('optional', T('foldl_reject_incomplete', AB, S0, NODE), S1),
           T('entire_input', T('repeated_reject_incomplete', AB)), T('repeated', T('last_of', c, T('repeated_reject_incomplete', AB))),
           T('foldl_reject_incomplete', T('last_of', c, T('foldr_reject_incomplete', AB, S0, NODE)), S1, NODE2), T('look_ahead', T('repeated_reject_incomplete1', AB))]
    u.cross(ctx, W)
    # the test for "fails without consuming" itself
    u.cross([T('always', T('fail_at_first_char_expected', p), S0) for p in strict_elems()], words('abc', 3), (START, (2, 2, 13)))
    # parsers that look at where they are, from several places
    u.cross([t for p in posdep() for t in variants(p)] + [T('foldl_reject_incomplete_start_with_parser', p, s, NODE) for p in [a, AB] + posdep()[3:] for s in posdep()] + [T('foldl_reject_incomplete_start_with_parser', p, a, NODE) for p in posdep()], ['', 'a', 'b', 'aa', 'ab', 'aab'], POSS)
    # every character value, many starting positions
    xa = SEQ(ANY, T('one_char_except_c', 'b'))
    u.sweep([t for p in (ANY, xa) for t in variants(p)] + [T('foldl_reject_incomplete_start_with_parser', xa, T('optional', a, S0), NODE), T('foldl_reject_incomplete_start_with_parser', ANY, ANY, NODE)])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['17 element parsers failing after 0, 1 or 2 consumed characters; inputs over {a,b,c} and {a,\\n,\\r} up to length 4 (5)'])
