"""C15 debug_parsing_error"""
from compose import *
from engine import Case, Cfg, ALL_STDS

def text(s, r):
    h = 'Compile-time parsing results\n----------------------------\nInput text:\n%s\n\n' % s
    if r[0] == 'A':
        return [h + 'Parsing was successful. Remaining string is:\n%s\n' % r[2]]
    return [h + 'Parsing failed:\nline %d, col %d: %s\n' % (r[2][0], r[2][1], m) for m in r[1]]

def check(e, thorough):
    m = Model()
    cases, seen = [], set()
    def add(p, s, built=False):
        if (p, s, built) in seen:
            return
        seen.add((p, s, built))
        try:
            r = m.run(p, s)
        except Diverges:
            return
        pp = 'build_parser<%s >' % p.cpp() if built else p.cpp()
        cases.append(Case('debug_parsing_error<%s> on "%s"' % (pp, esc(s)), (), 'dbg<debug_parsing_error<%s,%s > >(@ID@);' % (pp, cpp_string(s)),
                          frozenset(esc(t) + ' exit 0' for t in text(s, r))))
    NL = L('\n')
    P = [a, AB, SEQ(a, a, b), T('entire_input', T('repeated', a)), T('last_of', T('repeated', T('one_of_c', 'a', '\n')), b), ONE(AB, T('last_of', a, a)), T('fail', M0), T('return_', S0),
         T('last_of', ANY, T('fail', M1)), T('middle_of', a, ANY, b), T('last_of', T('spaces'), T('digit')), T('token', T('int_')), T('change_error_message', T('last_of', ANY, a), M2),
         T('transform_error_message', AB, MWRAP), T('foldl_reject_incomplete', SEQ(a, b), S0, NODE), T('keyword', 'a\nb', S0), T('nth_of_c', 3, a, b), T('except', a, S0, M1), T('empty', S1),
         T('optional', AB, S1), T('look_ahead', AB), T('repeated', ANY), T('last_of', NL, NL, ANY), T('iterate_c', ANY, 2)]
    W = list(words('ab\n', 4 if thorough else 3)) + ['\r\na', '\r\n\r\n7', '12 ab', 'abab', 'aaaab'] + ['\n' * 11 + 'a', 'a' * 13, '\n' * 9 + 'a' * 12 + 'c', '\r\n' * 10 + 'ab']
    for p in P:
        for s in W:
            add(p, s)
        for s in W if thorough else W[::2] + W[-4:]:
            add(p, s, True)
    for i in range(1, 256):
        add(ANY, chr(i) + 'x')
        add(a, chr(i))
        add(ANY, 'x' + chr(i) + 'y')
        add(L(chr(i)), 'a' if i != 97 else 'b')
    for k in range(0, 33):
        add(T('repeated', a), 'a' * k)
        add(T('always', T('repeated', a), S0), ('a' * (k // 2) + 'b' * k)[:32])
        add(T('last_of', T('repeated', NL), b), '\n' * k)
    e.states += len(m.memo); e.transitions += m.transitions
    e.run(cases, [Cfg(s, prelude='prelude_dbg.hpp') for s in ALL_STDS])
    return dict(assumptions=['24 parsers, inputs over {a,b,newline} up to length %d; every character value but zero (the input is printed as a C string)' % (4 if thorough else 3)])
