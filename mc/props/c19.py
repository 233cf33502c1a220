"""C19 source positions: total order"""
import itertools
from universe import *
from engine import Case

DECL = ('''
template <class A, class B> void cmp(int id)
{
  begin(id);
  num(boost::mpl::less<A, B>::type::value); num(boost::mpl::less_equal<A, B>::type::value); num(boost::mpl::equal_to<A, B>::type::value);
  num(boost::mpl::not_equal_to<A, B>::type::value); num(boost::mpl::greater_equal<A, B>::type::value); num(boost::mpl::greater<A, B>::type::value);
  end();
}
template <class A> struct lz { typedef typename A::type type; };
template <class P> void acc(int id)
{
  begin(id);
  num(get_line<P>::type::value); out += ' '; num(get_col<P>::type::value); out += ' '; num(get_prev_char<P>::type::value); out += ' ';
  num(get_line<lz<P> >::type::value); out += ' '; num(get_col<lz<P> >::type::value); out += ' '; num(get_prev_char<lz<P> >::type::value); out += ' ';
  num(P::type::line::type::value); out += ' '; num(P::type::col::type::value); out += ' '; num(P::type::prev_char::type::value);
  end();
}
''',)

def check(e, thorough):
    lines = [1, 2, 9, 10] + ([3, 11, 100, 65536] if thorough else [])
    cols = [1, 2, 10] + ([9, 11, 99, 100, 40000] if thorough else [])
    prevs = [0, 97, 13, 10, -1]
    P = list(itertools.product(lines, cols, prevs))
    P += [(2147483645, 1, 0), (1, 2147483645, 0), (2147483644, 5, -128), (0, 0, 0), (1, 0, 127), (0, 5, 32)]
    forms = ['source_position<mi<%d>,mi<%d>,ch<%s> >', 'source_position<boost::mpl::int_<%d>,boost::mpl::int_<%d>,boost::mpl::char_<%s> >']
    def code(p, k):
        if p == START and k == 0:
            return 'start'
        return forms[k % 2] % (p[0], p[1], lit(chr(p[2] & 255)))
    cases = []
    for i, p in enumerate(P):
        for j, q in enumerate(P):
            r = '%d%d%d%d%d%d' % (p < q, p <= q, p == q, p != q, p >= q, p > q)
            cases.append(Case('compare %s with %s' % (show_pos(p), show_pos(q)), DECL, 'cmp<%s,%s >(@ID@);' % (code(p, i + j), code(q, j)), r))
            if i == j:
                cases.append(Case('compare %s with another form of it' % show_pos(p), DECL, 'cmp<%s,%s >(@ID@);' % (code(p, 0), code(p, 1)), r))
    for p in P:
        for k in (0, 1):
            cases.append(Case('accessors of %s' % show_pos(p), DECL, 'acc<%s >(@ID@);' % code(p, k), ' '.join(['%d %d %d' % p] * 3)))
        if 1:
            for c in (0, 10, 13, 97, 255, 128, 32) if not thorough else range(256):
                C = lit(chr(c))
                for f, q in (('next_char', (p[0], p[1] + 1, sc(chr(c)))), ('next_line', (p[0] + 1, 1, sc(chr(c))))):
                    t = '%s<%s,ch<%s> >::type' % (f, code(p, c), C)
                    cases.append(Case('%s of %s is greater' % (f, show_pos(p)), DECL, 'cmp<%s,%s >(@ID@);' % (code(p, c), t), '110100'))
                    cases.append(Case('%s<%s,%d>' % (f, show_pos(p), c), DECL, 'begin(@ID@); showpos<%s>::run(); end();' % t, show_pos(q)))
    # lazy arguments
    for p in P[:12]:
        for c in (10, 97):
            for f, q in (('next_char', (p[0], p[1] + 1, c)), ('next_line', (p[0] + 1, 1, c))):
                cases.append(Case('%s of unevaluated %s' % (f, show_pos(p)), DECL, 'begin(@ID@); showpos<%s<lz<%s >,lz<ch<%s> > >::type>::run(); end();' % (f, code(p, 0), lit(chr(c))), show_pos(q)))
    # positions reached by parsing: each step strictly greater, equal inputs equal positions
    for w in words('a\n\r', 4 if thorough else 3, 1):
        p = START
        pts = [p]
        for c in w:
            p = advance(p, c); pts.append(p)
        for k in range(1, len(w) + 1):
            f = lambda n: 'get_position<iterate_c<one_char,%d>::apply<%s,start>::type>::type' % (n, cpp_string(w))
            cases.append(Case('positions after %d and %d of "%s"' % (k - 1, k, esc(w)), DECL, 'cmp<%s,%s >(@ID@);' % (f(k - 1), f(k)), '110100'))
            cases.append(Case('position after %d of "%s"' % (k, esc(w)), DECL, 'cmp<%s,%s >(@ID@);' % (f(k), code(pts[k], k)), '011010'))
    e.states = len(P); e.transitions = len(cases)
    e.run(cases, batch=400)
    return dict(assumptions=['%d positions, all ordered pairs' % len(P)])
