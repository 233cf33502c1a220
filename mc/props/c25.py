"""C25 composed parsers keep the parsing contract"""
from compose import *
import re

def check(e, thorough):
    u = U()
    W = list(words('ab\n', 3 if thorough else 2)) + (['aab', 'aba', 'abb', 'abab', 'a b', 'ab\n', 'aaa', 'a\r\nb', '1a', '12', 'aab1'] if not thorough else ['a\r\nb', '12', 'a b', 'abab', 'aab1'])
    ws = list(words('ab', 2)) + ['aab', 'aba', 'a\nb', 'abab'] if not thorough else W
    for p in atoms():
        u.cross(unary(p), W)
    I = inner()
    for p in I:
        u.cross(unary(p), W)
        for q in I:
            u.cross(binary(p, q), ws)
    # unary of unary
    for p in (a, AB) if not thorough else (a, AB, T('optional', b, S1), ONE(AB, T('last_of', a, a))):
        for q in unary(p):
            u.cross(unary(q), ['', 'a', 'b', 'ab', 'aa', 'a\n', 'aab', 'abab'])
    # from other places than the start
    for p in I:
        u.cross(unary(p), ['', 'a', 'ab', 'aab', 'b'], [(3, 5, 13)])
    # every character value, many starting positions
    u.sweep(unary(ANY))
    u.into(e)
    # the contract, on every model state (the model itself must keep it)
    n = 0
    for (t, s, pos), r in u.m.memo.items():
        n += 1
        reach, p = [pos], pos
        for ch in s:
            p = advance(p, ch)
            reach.append(p)
        if r[0] == 'A':
            assert s.endswith(r[2]) and r[3] == reach[len(s) - len(r[2])], (t, s, r)
        elif 'te_const' not in t.cpp():
            assert r[2] in reach, (t, s, r)
    e.notes['contract_checked_on_model_states'] = n
    e.run(u.cases, batch=220)
    return dict(assumptions=['37 unary and 16 binary combinator shapes over 16 atoms and 10 inner parsers; nesting depth 2 (3 counting inner parsers); inputs over {a,b,newline} up to length 3'])
