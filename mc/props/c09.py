"""C09 repetition and iteration"""
from folds import *

def check(e, thorough):
    u = U()
    W = list(words('abc', 5 if thorough else 4))
    u.cross([T(f, p) for p in ELEMS for f in ('repeated', 'repeated1')], W)
    alts = [a, AB, SEQ(b, c), T('fail', M0), T('token', c)]
    for ar in (1, 2, 3):
        for ps in itertools.permutations(alts, ar):
            u.cross([T('repeated_one_of', *ps), T('repeated_one_of1', *ps)], list(words('abc', 3)) if (ar < 3 or thorough) else ['', 'a', 'ab', 'abc', 'bcab', 'cab', 'c a', 'bb', 'aba'])
    u.cross([T('repeated_one_of')], ['', 'a'])
    u.cross([T('repeated_one_of1')], ['', 'a'])
    # counted iteration: every N, every available number of matches
    for n in range(0, 7):
        u.cross([T('iterate_c', p, n) for p in (a, AB, ONE(a, b), ANY, T('token', a), T('return_', S0), T('fail', M0), ONE(AB, a))], words('ab', 4 if not thorough else 5))
        u.cross([T('iterate', p, n) for p in (a, ANY, AB)], words('ab', 3), (START, (4, 4, 13)))
    for n in range(0, 33):
        for m in sorted(set([0, 1, n - 1, n, n + 1, n // 2, 30, 31, 32])):
            if 0 <= m <= 32:
                u.cross([T('iterate_c', a, n)], ['a' * m] + (['a' * m + 'b'] if m < 32 else []))
    for n in (33, 40, 48) if not thorough else range(33, 70):
        for m in (n - 1, n, n + 1):
            u.cross([T('iterate_c', a, n), T('iterate', ANY, n)], ['a' * m, 'a' * m + 'b'], (START,), BIG)
    for n in (64, 65, 100, 128) if not thorough else range(70, 131):
        w = ('abcdefghijklmnopqrstuvwxyz' * 6)[:n]
        u.cross([T('always', T('repeated', T('letter')), S0), T('always', T('repeated1', T('letter')), S0), T('repeated', T('letter')), T('repeated_one_of', T('letter'), T('digit'))], [w, w + '-', w + '1'], (START,), BIG)
        u.cross([T('iterate_c', T('letter'), n), T('iterate_c', T('letter'), n + 1)], [w, w + '-'], (START,), BIG)
    # every repetition count, order of distinguishable results
    al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    for n in range(0, 52):
        cf = None if n <= 31 else BIG
        for tail in ('', '9'):
            u.cross([T('repeated', T('letter')), T('repeated1', T('letter')), T('repeated_one_of', T('range_c', 'a', 'z'), T('range_c', 'A', 'Z')), T('repeated_one_of1', T('letter'))],
                    [al[:n] + tail], (START,), cf)
    for s in words(' \t\n\ra', 4 if thorough else 3):
        u.add(T('spaces'), s)
        u.add(T('spaces'), s, (3, 3, 13))
    # nesting
    nested = [T('repeated', T('repeated1', a)), T('repeated', T('iterate_c', a, 2)), T('iterate_c', T('repeated', a), 2), T('repeated', T('last_of', b, T('repeated', a))),
              T('iterate_c', T('repeated1', ONE(a, b)), 2), SEQ(T('repeated', a), T('repeated', b)), T('repeated1', T('repeated_one_of1', a, b)), T('entire_input', T('repeated', AB)),
              T('repeated', T('iterate_c', ANY, 3)), T('iterate_c', T('iterate_c', ANY, 2), 2)]
    u.cross(nested, W)
    u.cross(nested[:3] + [T('repeated', SEQ(L('\n'), a)), T('repeated1', ONE(L('\r'), L('\n'))), T('iterate_c', T('space'), 3)], words('a\n\r', 3), ((5, 6, 13),))
    # parsers that look at where they are, from several places
    u.cross([t for p in posdep() for t in (T('repeated', p), T('repeated1', p), T('iterate_c', p, 1), T('iterate_c', p, 2), T('iterate', p, 3), T('repeated_one_of', p, b), T('repeated_one_of1', b, p))], ['', 'a', 'b', 'aa', 'ab', 'aab'], POSS)
    # every character value, many starting positions
    xa = SEQ(ANY, T('one_char_except_c', 'b'))
    u.sweep([t for p in (ANY, xa) for t in (T('repeated', p), T('repeated1', p), T('iterate_c', p, 1), T('iterate_c', p, 2), T('iterate', p, 2), T('repeated_one_of', p), T('repeated_one_of1', L('a'), p))])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['13 element parsers; N and repetition counts 0..32 in C++98, up to 51 otherwise'])
