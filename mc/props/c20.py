"""C20 error message texts"""
from universe import *
from engine import Case
TXT = {'digit_expected': 'Digit expected', 'end_of_input_expected': 'End of input expected', 'expected_to_fail': 'Parser expected to fail', 'letter_expected': 'Letter expected',
       'none_of_the_expected_cases_found': NONE, 'unexpected_character': UNEXP, 'unexpected_end_of_input': EOI, 'whitespace_expected': 'Whitespace expected'}

def check(e, thorough):
    cases = []
    DECL = ('template <class A> struct lz { typedef typename A::type type; }; template <class R> struct gm { static std::string s() { return get_message<R>::type::get_value(); } };',)
    def add(code, text):
        cases.append(Case('%s' % code, DECL, 'begin(@ID@); esc(%s::get_value()); end();' % code, esc(text)))
        cases.append(Case('%s::type' % code, DECL, 'begin(@ID@); esc(%s::type::get_value()); end();' % code, esc(text)))
        # the same message seen through parsing
        cases.append(Case('fail<%s>' % code, DECL, 'begin(@ID@); esc(gm<fail<%s >::apply<string<>,start> >::s()); esc(gm<reject<%s,start> >::s()); end();' % (code, code), esc(text) * 2))
    for k, v in TXT.items():
        add('error::' + k, v)
    for i in range(256):
        add('error::literal_expected<%s>' % lit(chr(i)), 'Expected: ' + chr(i))
    N = [0, 1, -1, 2, 5, 9, 10, 11, 99, 100, 1000, 12345, 2147483647, -2147483647, -10, -100] if thorough else [0, 1, -1, 9, 10, 100, 1000, 12345, 2147483647, -2147483647]
    for a in N:
        for b in N:
            for c in N if (thorough or a in (0, -1, 1000)) else (0, 7):
                add('error::index_out_of_range<%d,%d,%d>' % (a, b, c), 'index (%d) out of range [%d-%d]' % (c, a, b))
    msgs = [('error::digit_expected', 'Digit expected'), ('m0', 'm0'), ('error::literal_expected<\'a\'>', 'Expected: a'), ('error::index_out_of_range<0,3,-1>', 'index (-1) out of range [0-3]')]
    for l in N:
        for c in N:
            for m, t in msgs if (l in (0, 1, 12345) or thorough) else msgs[:1]:
                x = '%s (see %d:%d)' % (t, l, c)
                add('error::unpaired<%d,%d,%s >' % (l, c, m), x)
                cases.append(Case('unpaired<%d,%d>::apply<%s>' % (l, c, m), DECL, 'begin(@ID@); esc(error::unpaired<%d,%d>::apply<%s >::type::get_value()); end();' % (l, c, m), x))
    add('error::unpaired<1,2,error::unpaired<3,4,m1> >', 'm1 (see 3:4) (see 1:2)')
    # user defined errors: any text, long, empty, quotes, non-ascii
    texts = ['', 'x', ' ', 'a b', 'with "quotes" and \\ back', 'new\nline', 'tab\t', '%s %d %n', '\xff\x80', 'Expected: ', '??/', 'x' * 300, '// no comment', "it's", '{}', '(a, b)', 'trailing ']
    for i, t in enumerate(texts):
        q = '"' + ''.join(ch if ch.isalnum() or ch in " ':.,()_%" else '\\%03o' % ord(ch) for ch in t) + '"'
        d = ('BOOST_METAPARSE_DEFINE_ERROR(ue%d, %s);' % (i, q), 'struct sc%d { BOOST_METAPARSE_DEFINE_ERROR(inner, %s); };' % (i, q))
        for code in ('ue%d' % i, 'sc%d::inner' % i):
            cases.append(Case('DEFINE_ERROR %s %s' % (code, esc(t)[:40]), DECL + d, 'begin(@ID@); esc(%s::type::get_value()); out+=\'|\'; esc(gm<fail<%s>::apply<string<>,start> >::s()); out+=\'|\'; esc(gm<change_error_message<one_char,%s>::apply<string<>,start> >::s()); esc(error::unpaired<1,2,%s>::get_value()); end();' % (code, code, code, code),
                '%s|%s|%s%s (see 1:2)' % (esc(t), esc(t), esc(t), esc(t))))
    # an expression as message text
    cases.append(Case('DEFINE_ERROR with an expression', DECL + ('BOOST_METAPARSE_DEFINE_ERROR(uex, std::string("a") + "b");',), 'begin(@ID@); esc(uex::get_value()); end();', 'ab'))
    # messages produced by parsing: the parameters are those of the failing parse
    u = U()
    for i in range(256):
        c = chr(i)
        o = 'a' if c != 'a' else 'b'
        u.cross([L(c), T('lit', c), T('keyword', c, S0), T('keyword', 'xy' + c, S0), T('always_c', c, S1)], ['', o, 'xy', 'xy' + o])
        u.cross([T('middle_of', ANY, ANY, L(c))], ['ab' + o, 'a\n' + o, '\n\n', '\r\n' + o], [START, (12, 34, 0)])
    ps = [L('a'), L('b'), L('c'), L('d'), L('e')]
    for n in range(1, 6):
        for k in list(range(-3, 0)) + list(range(n, n + 5)) + [10, 99, -10, 1000000]:
            u.cross([T('nth_of_c', k, *ps[:n]), T('nth_of', k, *ps[:n])], ['', 'abc'], [START, (7, 7, 13)])
    mid = T('middle_of', T('repeated', ANY) if 0 else T('always', T('repeated', L('\n')), S0), L('a'), L('b'))
    for l in (1, 2, 9, 10, 99, 100, 12345):
        for c in (1, 9, 10, 11, 100, 4096):
            u.add(T('middle_of', L('('), ANY, L(')')), '(a]', (l, c, 0)); u.add(mid, '\n\nac', (l, c, 0)); u.add(T('middle_of', L('('), T('middle_of', L('('), ANY, L(')')), L(')')), '((a)', (l, c, 13))
            u.add(T('middle_of', L('('), T('middle_of', L('('), ANY, L(')')), L(')')), '((a', (l, c, 13))
    u.into(e)
    cases += u.cases
    e.states += len(cases); e.transitions += len(cases)
    e.run(cases, batch=300)
    return dict(assumptions=['every character value for literal errors; %d integer values per numeric parameter; 17 user texts' % len(N)])
