from universe import *
a, b, c = L('a'), L('b'), L('c')
AB, ABC = SEQ(a, b), SEQ(a, b, c)
ELEMS = [a, ONE(a, b), AB, T('token', a), ONE(a, SEQ(b, c)), T('one_char_except_c', 'c'), T('last_of', a, ONE(b, c)),
         T('transform', a, WRAP), ONE(ABC, AB), T('repeated1', a), T('foldl1', b, S0, NODE), T('iterate_c', ANY, 2), T('accept_when', ANY, PREDN('b'), M1),
         T('upto_col', 3), T('last_of', a, T('after', 'a')), T('first_of', ANY, T('where'))]
STARTS = [b, T('return_', S1), AB, T('fail', M0), T('repeated', a), T('optional', c, S2), T('empty', S0), T('look_ahead', a), ANY, T('where'), T('after', 'a')]
LONG98 = list(range(0, 33))
BIG = ('11', '14', '17')

def strict_elems():
    r, n = L('\r'), L('\n')
    return [AB, ABC, SEQ(a, a, b), ONE(AB, SEQ(c, c)), T('last_of', a, T('fail', M0)), T('last_of', ANY, b), T('keyword', 'ab', S1), T('token', AB),
            T('transform', AB, WRAP), T('middle_of', a, b, c), a, ONE(a, b), T('first_of', T('repeated1', a), b), ONE(SEQ(a, b, c), SEQ(a, b), SEQ(b, a, a)),
            T('change_error_message', AB, M1), T('transform_error_message', AB, MWRAP), T('look_ahead', AB) if 0 else T('last_of', a, T('look_ahead', b), ANY), T('last_of', a, T('upto_col', 3)), T('last_of', T('upto_col', 2), b)]

def line_elems():
    r, n = L('\r'), L('\n')
    return [SEQ(n, a), SEQ(r, n, a), SEQ(r, a), T('last_of', T('space'), a), ONE(SEQ(n, n), SEQ(r, a)), T('last_of', T('one_of_c', '\n', '\r'), a), n, ONE(n, r), T('last_of', T('upto_col', 2), T('after', '\n')), T('last_of', ANY, T('at_col', 1))]

def posdep():
    """parsers whose success or failure depends on where they start"""
    return [T('at_col', 1), T('at_col', 4), T('upto_col', 4), T('after', 'a'), T('where'), T('last_of', a, T('at_col', 5)), T('last_of', T('at_col', 4), a), T('last_of', T('after', 'a'), ANY), T('last_of', T('at_col', 1), ANY)]
POSS = (START, (1, 4, 97), (2, 1, 10), (1, 5, 98))
