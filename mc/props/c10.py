"""C10 error shaping"""
from folds import *

def check(e, thorough):
    u = U()
    inner = [a, AB, T('return_', VI(97)), T('fail', M0), ONE(a, T('last_of', b, c)), T('middle_of', a, ANY, b), T('repeated1', a), ANY, T('token', a),
             T('last_of', L('\n'), a), T('last_of', ANY, ANY, T('fail', M2)), T('look_ahead', ANY), T('optional', AB, VI(5)), T('last_of', a, T('optional', AB, S1)),
             T('where'), T('at_col', 1), T('at_col', 3), T('after', '\r'), T('upto_col', 1), T('last_of', ANY, T('after', 'a')), T('last_of', ANY, T('upto_col', 2))]
    def wraps(p):
        r = [T('change_error_message', p, M1), T('transform_error_message', p, MWRAP), T('transform_error', p, TE_MSG), T('transform_error', p, TE_CONST),
             T('accept_when', p, PTRUE, M1), T('accept_when', p, PFALSE, M1), T('entire_input', p), T('entire_input', p, M1),
             T('always', T('fail_at_first_char_expected', p), S0)]
        return r
    W = list(words('ab\n', 3))
    for p in inner:
        u.cross(wraps(p), W, (START, (7, 3, 13)))
    # predicates looking at the result
    for p in (ANY, a, T('return_', VI(97)), T('last_of', ANY, ANY), T('token', ANY), ONE(a, b), T('look_ahead', ANY), T('last_of', ANY, T('look_ahead', ANY))):
        for pr in (PRED('a'), PREDN('a'), PRED('\n'), PDIGIT):
            u.cross([T('accept_when', p, pr, M1), T('accept_when', T('accept_when', p, pr, M1), PREDN('b'), M2)], list(words('ab\n1', 2)) + ['aab', 'baa'], (START, (2, 5, 10)))
    # wrappers of wrappers, in every order
    base = [a, AB, T('fail', M0), T('last_of', ANY, T('fail', M2))]
    for p in base:
        for q in wraps(p):
            u.cross(wraps(q), ['', 'a', 'b', 'ab', 'aa', 'abb', '\na'] if not thorough else W)
    # in the middle of other parsers: the shaped error surfaces unchanged
    for p in (a, AB, T('fail', M0)):
        for q in wraps(p):
            u.cross([SEQ(ANY, q), T('repeated1', SEQ(q, ANY)), T('last_of', T('repeated', L('\n')), q), T('middle_of', ANY, q, q)], ['', 'a', '\n', 'aa', '\na', '\nab', 'aab', '\n\nb', 'aaba', 'ba'])
    # empty / entire_input
    u.cross([T('empty', S0), T('empty', VI(3)), SEQ(T('empty', S0), T('empty', S1)), SEQ(T('repeated', a), T('empty', S1)), T('entire_input', T('empty', S1)),
             T('entire_input', T('repeated', a)), T('entire_input', T('repeated', a), M2), T('entire_input', T('entire_input', T('token', a))), T('last_of', a, T('entire_input', b)),
             ONE(T('entire_input', a), T('entire_input', AB)), T('optional', T('entire_input', a), S0)], words('ab\n', 3), (START, (9, 9, 13)))
    for i in range(256):
        u.add(T('empty', S0), chr(i))
        u.add(T('entire_input', T('return_', S1)), chr(i), (3, 4, 5))
    for n in range(0, 32):
        u.cross([T('entire_input', T('always', T('repeated', a), S0)), T('change_error_message', T('first_of', T('always', T('repeated', a), S0), b), M1),
                 T('transform_error_message', T('first_of', T('always', T('repeated', a), S0), b), MWRAP)], ['a' * n, 'a' * n + 'c', 'a' * n + 'b'] if n < 32 else ['a' * n])
    # fail / return_ never look at the input
    u.cross([T('fail', M0), T('fail', M1), T('return_', S0), T('return_', VI(-4))], list(words('a\n\r', 2)), (START, (2, 3, 13), (40, 50, 97)))
    # every character value, many starting positions
    xa = SEQ(ANY, T('one_char_except_c', 'b'))
    u.sweep([t for p in (ANY, xa) for t in wraps(p)] + [T('empty', S0), T('last_of', ANY, T('empty', S0))])
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['14 wrapped parsers; inputs over {a,b,newline} up to length 3; wrappers nested to depth 2'])
