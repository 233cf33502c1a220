"""C14 build_parser"""
from compose import *
from engine import Case, Cfg, ALL_STDS
import re
N = {EOI: 'unexpected_end_of_input', NONE: 'none_of_the_expected_cases_found', UNEXP: 'unexpected_character', 'Digit expected': 'digit_expected',
     'Letter expected': 'letter_expected', 'Whitespace expected': 'whitespace_expected', 'End of input expected': 'end_of_input_expected'}

def mtype(m):
    """regular expression for the type name of an error message in diagnostics"""
    w = re.fullmatch(r'(.*) \(see (\d+):(\d+)\)', m, re.S)
    if w:
        return r'\S*unpaired<\s*%s\s*,\s*%s\s*,\s*' % (w.group(2), w.group(3)) + mtype(w.group(1))
    if m.startswith('Expected: '):
        c = m[10:]
        return r"\S*literal_expected<(\(char\))?('%s'|'\\%s'|'\\%03o'|'\\x%02x'|%d)>" % (re.escape(c), {'\n': 'n', '\r': 'r'}.get(c, re.escape(c)), ord(c), ord(c), sc(c))
    if m in N:
        return r'\S*' + N[m]
    if m.startswith('mw('):
        return r'\S*mwm<\s*' + mtype(m[3:-1])
    w = re.fullmatch(r'index \((-?\d+)\) out of range \[(-?\d+)-(-?\d+)\]', m)
    if w:
        return r'\S*index_out_of_range<\s*%s\s*,\s*%s\s*,\s*%s\s*>' % (w.group(2), w.group(3), w.group(1))
    return r'\S*\b' + m

def names(line, col, msgs):
    def pred(err):
        t = err.replace('\n', ' ')
        if not re.search(r'static assert|incomplete type|BOOST_STATIC_ASSERT', t):
            return 'no static assertion in the diagnostics'
        for m in msgs:
            if re.search(r'<\s*%d\s*,\s*%d\s*,\s*(class |struct )?%s' % (line, col, mtype(m)), t):
                return None
            if re.search(r'Line = %d;.{0,40}Col = %d;.{0,40}Msg = %s' % (line, col, mtype(m)), t):
                return None
        w = re.findall(r'PARSING_FAILED\w*<[^;]{0,120}', t)
        return 'diagnostics do not name %d:%d %s but: %s' % (line, col, ' or '.join(sorted(msgs)), '; '.join(sorted(set(w))[:2]))
    return pred

def check(e, thorough):
    m = Model()
    cases, items, tot = [], [], 0
    NL = L('\n')
    P = [a, AB, SEQ(a, a, b), T('entire_input', T('repeated', a)), T('entire_input', AB), T('last_of', T('repeated', T('one_of_c', 'a', '\n')), b), ONE(AB, T('last_of', a, a)),
         T('fail', M0), T('last_of', ANY, T('fail', M1)), T('middle_of', a, ANY, b), T('last_of', T('spaces'), T('digit')), T('token', T('int_')), T('last_of', ANY, ANY, ANY),
         T('change_error_message', T('last_of', ANY, a), M2), T('transform_error_message', T('last_of', a, b), MWRAP), T('foldl1', a, S0, NODE), T('entire_input', T('foldr', ONE(a, NL), S0, NODE)),
         T('foldl_reject_incomplete', SEQ(a, b), S0, NODE), T('repeated_reject_incomplete', SEQ(NL, a)), T('keyword', 'a\nb', S0), T('accept_when', ANY, PRED('a'), M1), T('nth_of_c', 3, a, b),
         T('except', a, S0, M1), T('empty', S1), T('last_of', T('repeated', NL), T('letter')), T('last_of', NL, T('space')), T('return_', S0), T('optional', AB, S1), T('look_ahead', AB),
         T('if_', a, S0, S1), T('iterate_c', AB, 2), T('last_of', T('repeated', ANY), T('one_char')), T('one_char_except_c', 'a'), T('last_of', a, T('range_c', '0', '9')),
         T('last_of', T('repeated', NL), T('fail_at_first_char_expected', a) if 0 else T('always', T('repeated1', a), S2))]
    W = list(words('ab\n', 3 if thorough else 2)) + ['aab', 'aba', 'aa\n', 'a\nb', '\n\n\n', '\r\na', '\r\r\n\n', '\n\nab', '12', 'ab\n\nab', 'abab', 'aaaab', '\r\n\r\n7']
    LONGW = ['\n' * 11 + 'a', 'a' * 13, '\n' * 9 + 'a' * 12 + 'c', '\r\n' * 10 + 'ab']
    for pi, p in enumerate(P):
        for wi, s in enumerate(W + LONGW):
            r = m.run(p, s)
            tot += 1
            desc = 'build_parser<%s> on "%s"' % (p.cpp(), esc(s))
            code = 'build_parser<%s >::apply<%s >' % (p.cpp(), cpp_string(s))
            if r[0] == 'A':
                cases.append(Case(desc, (), 'begin(@ID@); show<%s::type>::run(); end();' % code, r[1]))
            else:
                stds = ALL_STDS if thorough else (ALL_STDS[(pi + wi) % 4],)
                for std in stds:
                    items.append((desc, 'namespace vf { typedef %s::type X; X* x; }' % code, Cfg(std), names(r[2][0], r[2][1], r[1])))
    # values of all kinds
    for p in unary(AB) + unary(T('optional', b, S1)) + [q for i in inner() for q in binary(a, i)]:
        for s in ('ab', 'abab', 'b', 'a', 'aab'):
            try:
                r = m.run(p, s)
            except Diverges:
                continue
            if r[0] == 'A':
                cases.append(Case('build_parser<%s> on "%s"' % (p.cpp(), s), (), 'begin(@ID@); show<build_parser<%s >::apply<%s >::type>::run(); end();' % (p.cpp(), cpp_string(s)), r[1]))
    e.states += len(m.memo); e.transitions += m.transitions
    e.run(cases)
    if not e.violations:
        e.must_fail(items)
    e.notes['rejected_inputs_compiled'] = len(items)
    return dict(assumptions=['diagnostics of g++; 35 parsers; inputs over {a,b,newline} up to length %d plus longer ones with two-digit lines and columns' % (3 if thorough else 2)])
