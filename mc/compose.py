"""the composed parser terms: every combinator applied to every (pair of) inner parser(s)"""
from universe import *
a, b = L('a'), L('b')
AB = SEQ(a, b)

def atoms():
    return [a, ANY, T('digit'), T('return_', S1), T('fail', M0), T('spaces'), T('keyword', 'ab', S2), T('empty', S0), T('range_c', 'a', 'b'),
            T('one_of_c', 'a', '\n'), T('one_char_except_c', 'a', 'b'), T('letter'), T('int_'), T('space'), T('alphanum'), T('digit_val'), T('where'), T('at_col', 2), T('after', 'a'), T('upto_col', 2)]

def unary(p):
    return [T('token', p), T('always', p, S0), T('transform', p, WRAP), T('optional', p, S0), T('look_ahead', p), T('if_', p, S0, S1), T('except', p, S0, M1),
            T('repeated', p), T('repeated1', p), T('foldl', p, S0, NODE), T('foldl1', p, S0, NODE), T('foldr', p, S0, NODE), T('foldr1', p, S0, NODE),
            T('foldl_reject_incomplete', p, S0, NODE), T('foldl_reject_incomplete1', p, S0, NODE), T('foldr_reject_incomplete', p, S0, NODE), T('foldr_reject_incomplete1', p, S0, NODE),
            T('repeated_reject_incomplete', p), T('repeated_reject_incomplete1', p), T('repeated_one_of', p), T('repeated_one_of1', p),
            T('iterate_c', p, 0), T('iterate_c', p, 2), T('iterate', p, 1), T('entire_input', p), T('change_error_message', p, M2), T('transform_error_message', p, MWRAP),
            T('accept_when', p, PTRUE, M1), T('accept_when', p, PFALSE, M1), T('transform_error', p, TE_MSG), T('fail_at_first_char_expected', p), SEQ(p), ONE(p),
            T('first_of', p), T('last_of', p), T('nth_of_c', 0, p), T('sequence_apply', p)]

def binary(p, q):
    return [SEQ(p, q), ONE(p, q), T('first_of', p, q), T('last_of', p, q), T('middle_of', p, q, a), T('middle_of', a, p, q),
            T('foldl_start_with_parser', p, q, NODE), T('foldr_start_with_parser', p, q, NODE), T('foldl_reject_incomplete_start_with_parser', p, q, NODE),
            T('nth_of_c', 1, p, q), T('nth_of', 0, p, q), T('sequence_apply', p, q), T('repeated_one_of', p, q), T('repeated_one_of1', p, q), SEQ(p, q, p), ONE(q, p, AB)]

def inner():
    """inner parsers that differ in how much they consume before failing or succeeding"""
    return [a, AB, ONE(AB, T('last_of', a, a)), T('optional', b, S1), T('repeated1', a), T('token', a), T('fail', M0), T('look_ahead', a), ANY, T('middle_of', a, ANY, b), T('upto_col', 2), T('last_of', ANY, T('after', 'a'), T('where'))]
