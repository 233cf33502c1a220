"""C28 public values are values: evaluating them any number of times changes nothing, tags identify them, metafunctions that support currying take their arguments in any grouping"""
from compose import *
from engine import Case

DECL = ('''
template <class A, class B> struct same { enum { value = 0 }; };
template <class A> struct same<A, A> { enum { value = 1 }; };
template <class A> struct lz { typedef typename A::type type; };
template <class R, bool Err> struct vals;
template <class R> struct vals<R, true>
{
  typedef typename get_message<R>::type M; typedef typename get_position<R>::type Q;
  static void run() { num(same<typename R::tag, fail_tag>::value); num(same<M, typename M::type>::value); num(same<Q, typename Q::type>::value); num(same<typename Q::tag, source_position_tag>::value); }
};
template <class R> struct vals<R, false>
{
  typedef typename get_remaining<R>::type S; typedef typename get_position<R>::type Q;
  static void run() { num(same<typename R::tag, accept_tag>::value); num(same<S, typename S::type>::value); num(same<typename S::tag, string_tag>::value); num(same<Q, typename Q::type>::value); num(same<typename Q::tag, source_position_tag>::value); }
};
template <class P, class S, class Pos> void v(int id)
{
  typedef typename P::template apply<S, Pos> E; typedef typename E::type R;
  typedef typename P::type PT; typedef typename PT::type PTT;
  begin(id);
  obs<R>(); out += " ;"; obs<typename R::type>(); out += " ;"; obs<typename PT::template apply<S, Pos> >(); out += " ;"; obs<typename PTT::template apply<typename S::type, typename Pos::type>::type::type::type>();
  out += " ; "; num(same<PT, PTT>::value); num(same<R, typename R::type>::value); num(is_error<>::apply<R>::type::value); num(is_error<>::type::template apply<lz<R> >::type::value); num(is_error<E>::type::value);
  vals<R, is_error<R>::type::value>::run();
  end();
}
''',)

def check(e, thorough):
    u = U()
    n0 = 0
    W = ['', 'a', 'ab', 'b', 'aab', 'a\nb', '12', ' a']
    terms = atoms() + [T('lit', 'a'), T('range', 'a', 'b'), T('return_', S0), T('always_c', 'a', S0), T('middle_of', a, ANY, b), T('nth_of_c', 5, a, b)]
    for p in atoms() if thorough else atoms()[:6]:
        terms += unary(p)
    I = inner()
    for p in I if thorough else I[:4]:
        terms += unary(p)
        for q in I if thorough else I[:3]:
            terms += binary(p, q)
    seen = set()
    cases = []
    for t in terms:
        if t in seen:
            continue
        seen.add(t)
        for s in W:
            try:
                r = u.m.run(t, s, START)
            except Diverges:
                u.skipped_divergent += 1
                continue
            o = observe(r)
            err = r[0] != 'A'
            o = [o] if isinstance(o, str) else o
            x = frozenset(' ;'.join([y] * 4) + ' ; 11' + ('111' + '1111' if err else '000' + '11111') for y in o)
            pn, pd = u.typedef('P_', t.cpp()); sn, sd = u.typedef('I_', cpp_string(s))
            cases.append(Case('evaluations of %s on "%s"' % (t.cpp(), esc(s)), DECL + (pd, sd), 'v<%s,%s,start>(@ID@);' % (pn, sn), x))
    u.into(e)
    # what is not a rejected result is not an error
    for x in ('S0', 'm0', 'start', "string<'a'>", 'mi<3>', 'accept<m0,string<>,start>', 'accept<reject<m0,start>,string<>,start>', 'one_char', 'fail<m0>', 'error::unexpected_end_of_input', 'fail_tag', 'accept_tag', 'boost::mpl::vector<reject<m0,start> >'):
        cases.append(Case('is_error<%s>' % x, DECL, 'begin(@ID@); num(is_error<%s >::type::value); num(is_error<>::apply<%s >::type::value); end();' % (x, x), '00'))
    for x in ('reject<m0,start>', 'fail<m0>::apply<string<>,start>', 'reject<m0,source_position<mi<4>,mi<5>,ch<6> > >', 'lz<reject<m1,start> >'):
        cases.append(Case('is_error<%s>' % x, DECL, 'begin(@ID@); num(is_error<%s >::type::value); num(is_error<>::apply<%s >::type::value); num(is_error<>::type::type::apply<%s >::type::value); end();' % (x, x, x), '111'))
    # public constants and messages are values
    vals = ['start', 'string<>', "string<'a','b'>", 'accept_tag', 'fail_tag', 'string_tag', 'source_position_tag', 'm0', 'accept<S0,string<>,start>', 'reject<m0,start>'] + \
        ['error::' + x for x in ('digit_expected', 'end_of_input_expected', 'expected_to_fail', 'letter_expected', 'none_of_the_expected_cases_found', 'unexpected_character', 'unexpected_end_of_input', 'whitespace_expected',
                                 "literal_expected<'a'>", 'index_out_of_range<1,2,3>', 'unpaired<1,2,m0>', 'unpaired<1,2>')] + \
        ['util::' + x for x in ('is_digit<>', 'is_letter<>', 'is_lcase_letter<>', 'is_ucase_letter<>', 'is_whitespace<>', 'digit_to_int<>', 'int_to_digit<>', 'in_range<>', 'in_range<mi<1> >', 'in_range<mi<1>,mi<3> >', 'in_range_c<int,1,3>')] + ['is_error<>']
    for x in vals:
        cases.append(Case('%s is a value' % x, DECL, 'begin(@ID@); typedef %s X; num(same<X::type, X::type::type>::value); end();' % x, '1'))
    for x, tg in (('start', 'source_position_tag'), ('next_char<start,ch<97> >::type', 'source_position_tag'), ('next_line<start,ch<10> >::type', 'source_position_tag'), ('string<>', 'string_tag'), ("string<'x'>", 'string_tag'),
                  ('accept<S0,string<>,start>', 'accept_tag'), ('reject<m0,start>', 'fail_tag'), ('source_position<mi<1>,mi<2>,ch<3> >', 'source_position_tag')):
        cases.append(Case('tag of %s' % x, DECL, 'begin(@ID@); num(same<%s::tag,%s>::value); num(same<boost::mpl::tag<%s >::type,%s>::value); end();' % (x, tg, x, tg), '11'))
    tags = ['accept_tag', 'fail_tag', 'string_tag', 'source_position_tag']
    for x in tags:
        for y in tags:
            cases.append(Case('%s and %s' % (x, y), DECL, 'begin(@ID@); num(same<%s,%s>::value); end();' % (x, y), '1' if x == y else '0'))
    # currying: every grouping of the arguments, evaluated or not
    D = (-2, 0, 1, 3) if thorough else (-1, 0, 2)
    def args(xs, lazy): return ','.join(('lz<mi<(%d)> >' if lazy >> i & 1 else 'mi<(%d)>') % x for i, x in enumerate(xs))
    for lo in D:
        for hi in D:
            for it in D:
                X = (lo, hi, it)
                stm, k = '', 0
                for split in ((3,), (0, 3), (1, 2), (2, 1), (1, 1, 1), (0, 1, 2), (0, 2, 1), (0, 1, 1, 1)):
                    for lazy in (0,):      # in_range is not documented to evaluate its arguments
                        cur, i = 'util::in_range', 0
                        for j, m in enumerate(split):
                            a_ = args(X[i:i + m], lazy >> i)
                            cur += ('<%s >' if j == 0 else '::type::apply<%s >') % a_ if a_ else '<>'
                            i += m
                        stm += 'num(%s::type::value); ' % cur
                        k += 1
                cases.append(Case('in_range of %r in every grouping' % (X,), DECL, 'begin(@ID@); %s end();' % stm, str(int(lo <= it <= hi)) * k))
    f1 = {'is_digit': lambda c: c.isdigit(), 'is_letter': lambda c: c.isalpha(), 'is_lcase_letter': lambda c: c.islower(), 'is_ucase_letter': lambda c: c.isupper(), 'is_whitespace': lambda c: c in ' \t\r\n'}
    for f, g in f1.items():
        for c in '09a zAZ\n_':
            C = lit(c)
            fs = ['util::%s<ch<%s> >', 'util::%s<lz<ch<%s> > >', 'util::%s<>::apply<ch<%s> >', 'util::%s<>::apply<lz<ch<%s> > >', 'util::%s<>::type::apply<ch<%s> >', 'util::%s<>::apply<>::type::apply<ch<%s> >']
            cases.append(Case('%s of %s in every grouping' % (f, esc(c)), DECL, 'begin(@ID@); %s end();' % ''.join('num(%s::type::value);' % (x % (f, C)) for x in fs), str(int(g(c))) * len(fs)))
    # accept and reject evaluate their input and position, and carry values that cannot be evaluated as they are
    D2 = DECL + ('struct plain {}; template <> struct show<plain> { static void run() { out += "plain"; } };',)
    cs = [('string<>', ''), ("string<'a','b'>", 'ab')]
    ps = [('start', START), ('source_position<mi<4>,mi<5>,ch<6> >', (4, 5, 6)), ("next_char<start,ch<'a'> >", (1, 2, 97)), ("next_line<start,ch<'\\n'> >", (2, 1, 10))]
    for st, sv in cs:
        for pt, pv in ps:
            for ls in ('%s', 'lz<%s >'):
                for lp in ('%s', 'lz<%s >'):
                    S_, P_ = ls % st, lp % pt
                    for r, rv in (('S1', 'S1'), ('plain', 'plain'), ('mi<7>', '7')):
                        x = 'accept<%s,%s,%s >' % (r, S_, P_)
                        ob = 'A %s | [%s] | %s' % (rv, ''.join('%d,' % ord(c) for c in sv), show_pos(pv))
                        cases.append(Case(x, D2, 'begin(@ID@); obs<%s >(); obs<%s::type>(); obs<%s::type::type>(); num(same<%s::type,accept<%s,%s::type,%s::type> >::value); end();' % (x, x, x, x, r, S_, P_), ob * 3 + '1'))
                    if sv:
                        continue
                    x = 'reject<m1,%s >' % P_
                    cases.append(Case(x, D2, 'begin(@ID@); obs<%s >(); obs<%s::type>(); obs<%s::type::type>(); num(same<%s::type,reject<m1,%s::type> >::value); end();' % (x, x, x, x, P_), ('R m1 | %s' % show_pos(pv)) * 3 + '1'))
                    cases.append(Case('reject<plain,%s >' % P_, D2, 'begin(@ID@); num(same<get_message<reject<plain,%s > >::type,plain>::value); num(same<get_message<reject<plain,%s >::type>::type,plain>::value); num(is_error<reject<plain,%s > >::type::value); end();' % (P_, P_, P_), '111'))
    PL = T('return_', V('plain', 'plain'))
    u2 = U()
    for t in [PL] + unary(PL) + binary(PL, a) + [t for t in binary(a, PL) if not t.name.startswith('fold')] + [T('always', a, V('plain', 'plain')), T('always_c', 'a', V('plain', 'plain')), T('keyword', 'ab', V('plain', 'plain')), T('optional', a, V('plain', 'plain')), T('empty', V('plain', 'plain')), T('except', a, V('plain', 'plain'), M0), T('if_', a, V('plain', 'plain'), S0)]:
        u2.cross([t], ['', 'a', 'ab', 'aa'], (START,), None, D2)
    u2.into(e)
    cases += u2.cases
    e.run(cases, batch=150)
    return dict(assumptions=['%d parsers, each evaluated zero, one and two times, on 8 inputs; the results evaluated zero to two more times; %d public constants; currying over %d values per argument in every grouping' % (len(seen), len(vals), len(D))])
