"""C05 farthest error of a choice"""
from universe import *

def D(k, m):
    """fails with message m after consuming exactly k characters (or at the end of input)"""
    return T('last_of', *([ANY] * k + [T('fail', m)])) if k else T('fail', m)
MS = [M('m0'), M('m1'), M('m2'), M('m9')]

def check(e, thorough):
    u = U()
    W = list(words('a\n\r', 3))
    for ar in (0, 1, 2, 3):
        for ds in itertools.product(range(4), repeat=ar):
            t = ONE(*[D(d, MS[i]) for i, d in enumerate(ds)])
            u.cross([t], W if (ar < 3 or thorough) else ['aaa', '\n\n\n', 'a\na', 'aa', '\ra', '\r\n\r', 'a\n\n', ''])
            if ar < 3:
                u.cross([t], ['aaa', 'a\na', '\n', '\r\na'], [(3, 4, 13), (9, 9, 10), (10, 1, 97)])
    for ds in itertools.product(range(4), repeat=4):
        u.cross([ONE(*[D(d, MS[i]) for i, d in enumerate(ds)])], W if thorough else ['aaa', '\na\n'])
    # errors of ordinary parsers at various depths
    kw = [T('keyword', w, S0) for w in ('a', 'ab', 'aab', 'ba', 'a\nb', '\n\n')]
    for ps in itertools.permutations(kw, 3):
        u.cross([ONE(*ps)], ['', 'a', 'aa', 'a\n', 'b', 'c', '\n', '\na', 'bb', 'a\nc'])
    # the farthest one at every place of a long list; ties at various depths
    for n in range(2, 21):
        for i in range(n):
            if n <= 6 or i in (0, 1, n // 2, n - 2, n - 1) or thorough:
                ps = [D(1 if (j + n) % 2 else 0, MS[1]) for j in range(n)]
                ps[i] = D(3, MS[0])
                u.cross([ONE(*ps)], ['abcd', 'a\n\rb', 'ab'])
    # nested choices, repetitions of choices, choices behind consumed input
    a, b = D(1, MS[0]), D(2, MS[1])
    nest = [ONE(ONE(a, b), D(0, MS[2])), ONE(D(0, MS[2]), ONE(b, a)), ONE(ONE(D(0, MS[0])), ONE(D(0, MS[1]))), SEQ(ANY, ONE(a, b)),
            SEQ(ONE(a, b, T('return_', S0)), ONE(b, a)), T('repeated_one_of1', a, b), T('repeated_one_of1', b, a), T('repeated1', ONE(a, b)),
            T('foldl1', ONE(b, a), S0, NODE), T('repeated_reject_incomplete', ONE(a, D(0, MS[1]))), ONE(T('middle_of', L('('), L('a'), L(')')), T('keyword', '(b', S0)),
            ONE(T('change_error_message', b, MS[2]), a), ONE(T('transform_error_message', b, MWRAP), a), T('look_ahead', ONE(a, b)),
            T('entire_input', ONE(L('a'), b)), T('alphanum'), ONE(T('alphanum'), a), ONE(T('int_'), SEQ(T('letter'), T('digit')))]
    u.cross(nest, words('a(\n', 3), (START, (8, 1, 13)))
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['failure depths 0..3 in every combination for up to 4 alternatives; one deep failure at every place of up to 20 alternatives'])
