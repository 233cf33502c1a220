"""C01 source positions"""
from universe import *
POS = [START, (1, 1, 13), (1, 1, 10), (7, 9, 10), (11, 13, 120), (9, 99, 13), (10, 100, 0), (99, 255, 97), (127, 127, 32),
       (255, 9, -1), (32767, 65535, 13), (100000, 1, 10)]

def check(e, thorough):
    u = U()
    # every consumption history of every string
    n = 6 if thorough else 5
    for k in range(0, n + 1):
        u.cross([T('iterate_c', ANY, k)], words('a\n\r', n if k < n - 1 else k))
    # one step from every kind of position, every character value
    one = T('one_char')
    for p in POS:
        for c in range(256) if (thorough or p in POS[:5]) else (10, 13, 97, 0, 9, 11, 12, 255):
            u.add(one, chr(c), p)
    # several steps from every kind of position
    for p in POS:
        u.cross([T('repeated', ANY)], words('a\n\r', 4 if thorough else 3), [p])
    # other ways of consuming: the position must not depend on which parser consumed the characters
    eaters = [T('token', L('a')), T('always', T('spaces'), S0), T('keyword', 'a\r\n', S0), T('keyword', '\n\n', S1),
              T('keyword', '\r\na', S0), T('foldl', ANY, S0, NODE), T('foldr', ANY, S0, NODE), T('repeated1', T('space')),
              SEQ(ANY, ANY), T('last_of', ANY, ANY, ANY), T('first_of', T('space'), T('space')),
              T('one_of', SEQ(ANY, ANY, L('x')), SEQ(ANY, L('x')), ANY),
              T('optional', SEQ(ANY, L('a')), S0), T('look_ahead', SEQ(ANY, ANY)), T('if_', SEQ(ANY, ANY), S0, S1),
              SEQ(ANY, ANY, T('fail', M0)), SEQ(T('repeated', T('space')), L('a')), T('entire_input', T('token', ANY)),
              T('one_char_except_c', 'a'), T('range_c', '\t', '\r'), T('one_of_c', '\n', '\r'), L('\n'), L('\r')]
    u.cross(eaters, words('a\n\r ', 4 if thorough else 3))
    # long inputs: line and column counts beyond one digit
    rep = T('always', T('repeated', ANY), S0)
    for unit in ('a', '\n', '\r', '\r\n', 'a\n', '\n\r', 'ab\r\n'):
        for ln in range(0, 33):
            s = (unit * 33)[:ln]
            u.add(rep, s)
            u.add(rep, s, (95, 95, 13))
        for ln in (40, 64, 99, 100, 101, 120) if not thorough else range(33, 140):
            u.add(rep, (unit * 140)[:ln], START, ('11', '14', '17'))
    # the position metafunctions themselves
    for p in POS:
        for c in ('a', '\n', '\r', '\0', '\xff', ' '):
            for f in ('next_char', 'next_line'):
                q = (p[0], p[1] + 1, sc(c)) if f == 'next_char' else (p[0] + 1, 1, sc(c))
                u.cases.append(Case('%s<%s,%s>' % (f, show_pos(p), esc(c)), (),
                    'begin(@ID@); showpos<%s<%s, ch<%s> >::type>::run(); end();' % (f, cpp_pos(p), lit(c)), show_pos(q)))
    u.into(e)
    e.run(u.cases)
    return dict(assumptions=['alphabet {a, space, \\n, \\r} for histories, all 256 character values for single steps; %d starting positions' % len(POS)])
