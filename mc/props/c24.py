"""C24 parsers that control does not reach are never applied; recursive grammars end; unevaluated arguments are evaluated"""
from compose import *
from engine import Cfg, Case, ALL_STDS

class Poisoned(Exception):
    pass

class PModel(Model):
    """reaching the forbidden configuration (input starting with z) is an outcome of its own.  All alternatives of a choice are reached."""
    def p_ref(self, a, s, pos):
        n = a[0]
        if n == 'pz':            # consumes a, rejects everything else, does not compile on z
            if s[:1] == 'z':
                raise Poisoned()
            return self.p_lit_c(('a',), s, pos) if s[:1] == 'a' else self.rej('m1', pos)
        if n == 'never':
            raise Poisoned()
        return Model.p_ref(self, a, s, pos)
    def choice(self, ps, s, pos):
        for p in ps:
            self.sub(p, s, pos)
        return Model.choice(self, ps, s, pos)

DECL = ("template <class S, class Pos, bool E> struct pz_impl : reject<m1, Pos> {};"
        "template <char C> struct pz_sel { template <class S, class Pos> struct apply : reject<m1, Pos> {}; };"
        "template <> struct pz_sel<'a'> { template <class S, class Pos> struct apply : lit_c<'a'>::apply<S, Pos> {}; };"
        "template <> struct pz_sel<'z'> { template <class S, class Pos> struct apply { typedef typename S::reached_what_must_not_be_reached type; }; };"
        "template <class S, class Pos> struct pz_impl<S, Pos, false> : pz_sel<boost::mpl::front<S>::type::value>::template apply<S, Pos> {};"
        "struct pz { typedef pz type; template <class S, class Pos> struct apply : pz_impl<S, Pos, boost::mpl::empty<S>::type::value> {}; };"
        "struct never { typedef never type; template <class S, class Pos> struct apply { typedef typename S::reached_what_must_not_be_reached type; }; };"
        "struct bad1 { typedef bad1 type; template <class A> struct apply { typedef typename A::reached_what_must_not_be_reached type; }; };"
        "struct bad2 { typedef bad2 type; template <class A, class B> struct apply { typedef typename A::reached_what_must_not_be_reached type; }; };"
        "template <class T> struct badv_ { typedef typename T::reached_what_must_not_be_reached type; }; typedef badv_<S0> badv;"
        "template <class T> struct lz { typedef T type; };")

PZ, NEV = T('ref', 'pz'), T('ref', 'never')

def boom(*a): raise Poisoned()
BAD1, BAD2 = F('bad1', boom), F('bad2', boom)

def skip_to(u, terms, inputs, poss=(START,)):
    n = k = 0
    for t in terms:
        for p in poss:
            for s in inputs:
                try:
                    u.add(t, s, p, None, (DECL,))
                    k += 1
                except Poisoned:
                    n += 1
    return n, k

def check(e, thorough):
    u = U(PModel())
    W = list(words('abz', 4 if thorough else 3)) + ['aabz', 'aazz', 'abaz', 'aaaz', 'abzz']
    forbidden = reached = 0
    def go(terms, ins=W, poss=(START,)):
        nonlocal forbidden, reached
        n, k = skip_to(u, terms, ins, poss)
        forbidden += n; reached += k
    go([PZ] + unary(PZ))
    PB, ZB = SEQ(PZ, b), SEQ(b, PZ)
    parts = [PZ, PB, ZB, a, b, T('optional', PZ, S0), T('repeated1', PZ), T('fail', M0), T('last_of', a, PZ)]
    for p in parts[1:3] + [T('last_of', a, PZ)]:
        go(unary(p))
    for p in parts:
        for q in parts:
            if 'pz' in p.cpp() or 'pz' in q.cpp():
                go(binary(p, q), W if thorough else W[:20] + W[-5:])
    for ps in itertools.product([PZ, b, T('fail', M0), a], repeat=3):
        if PZ in ps:
            go([SEQ(*ps), T('middle_of', *ps), T('nth_of_c', 1, *ps), T('nth_of_c', 5, *ps), T('first_of', *ps), T('last_of', *ps), T('sequence_apply', *ps)], W if thorough else W[:20])
    # never applied at all: after a failing part, at every place of every length
    for n in range(2, 6):
        for i in range(n - 1):
            for j in range(i + 1, n):
                ps = [a] * n
                ps[i] = b
                ps[j] = NEV
                ts = [SEQ(*ps), T('first_of', *ps), T('last_of', *ps)] + [T('nth_of_c', k, *ps) for k in range(n)] + [T('nth_of', k, *ps) for k in (0, n - 1)]
                if n < 5:
                    ts.append(T('sequence_apply', *ps))
                if n == 3:
                    ts.append(T('middle_of', *ps))
                go(ts, ['a' * k for k in range(i, n + 1)] + ['b' if i else 'a'])
        ps = [NEV] * n
        go([T('nth_of_c', n, *ps), T('nth_of_c', -1, *ps), T('nth_of', n + 1, *ps)], ['', 'a'])
    for p in (b, T('fail', M0), SEQ(a, b), ONE(b, AB), T('middle_of', a, b, NEV)):
        go([T('transform', p, BAD1), T('accept_when', p, BAD1, M0), T('foldl', p, S0, BAD2), T('foldr', p, S0, BAD2), T('foldl1', p, S0, BAD2), T('foldr1', p, S0, BAD2),
            T('foldl_reject_incomplete', p, S0, BAD2), T('foldr_reject_incomplete', p, S0, BAD2), T('foldl_reject_incomplete1', p, S0, BAD2), T('foldr_reject_incomplete1', p, S0, BAD2),
            T('foldl_start_with_parser', NEV, p, BAD2), T('foldl_reject_incomplete_start_with_parser', NEV, p, BAD2), T('foldl_start_with_parser', p, T('return_', S1), BAD2),
            T('foldr_start_with_parser', p, T('return_', S1), BAD2), T('always', T('transform', p, BAD1), S0), T('token', T('transform', p, BAD1)), T('entire_input', T('transform', p, BAD1)),
            T('optional', T('transform', p, BAD1), S2), T('if_', T('transform', p, BAD1), S0, S1), T('except', T('transform', p, BAD1), S0, M0), T('repeated', T('transform', p, BAD1)), T('repeated1', T('transform', p, BAD1)),
            T('iterate_c', T('transform', p, BAD1), 3), T('look_ahead', T('transform', p, BAD1)), SEQ(T('iterate_c', NEV, 0), p), T('iterate', NEV, 0)],
           ['', 'a', 'aa', 'ac'])
    BADE = F('bad1', boom)
    for p in (a, T('return_', S1), SEQ(a, a), T('repeated', a), ONE(a, b)):
        go([T('transform_error', p, BADE), T('transform_error_message', p, BADE)], ['a', 'aa', 'aab'])
    e.notes['model_states_where_the_forbidden_parser_is_reached'] = forbidden
    # recursion
    def rec(defs, roots, ins, poss=(START,)):
        u.m.refs.update(defs)
        for k in defs:
            u.m.p_ref  # named parsers are structs
        decls = tuple('struct %s; ' % k for k in defs) + tuple('struct %s : %s {};' % (k, t.cpp()) for k, t in defs.items())
        for r in roots:
            u.cross([r], ins, poss, None, decls)
    def Rf(n): return T('ref', n)
    n6 = 6 if thorough else 5
    rec({'ra': ONE(SEQ(a, Rf('ra')), T('return_', S0))}, [Rf('ra'), T('entire_input', Rf('ra')), SEQ(Rf('ra'), b)], words('ab', n6))
    rec({'ev': ONE(T('last_of', a, Rf('od')), T('empty', S0)), 'od': T('last_of', a, Rf('ev'))}, [Rf('ev'), Rf('od'), ONE(Rf('od'), Rf('ev'))], words('ab', n6))
    rec({'br': T('optional', T('middle_of', L('('), Rf('br'), L(')')), S1)}, [T('entire_input', Rf('br')), Rf('br'), T('repeated1', T('middle_of', L('('), Rf('br'), L(')')))], words('()', n6 + 1))
    rec({'dy': T('repeated', T('middle_of', L('('), Rf('dy'), L(')')))}, [T('entire_input', Rf('dy')), Rf('dy')], words('()', n6 + 1))
    rec({'ds': T('foldl_reject_incomplete', T('middle_of', L('('), Rf('ds'), L(')')), S0, NODE)}, [T('entire_input', Rf('ds'))], words('()x', n6 - 1))
    rec({'pal': ONE(T('middle_of', a, Rf('pal'), a), T('middle_of', b, Rf('pal'), b), L('c'))}, [T('entire_input', Rf('pal'))], words('abc', n6))
    rec({'li': T('sequence_apply', ANY, T('optional', T('last_of', L(','), Rf('li')), S0))}, [Rf('li'), T('entire_input', Rf('li'))], words('a,', n6))
    rec({'ex': T('foldl_start_with_parser', T('last_of', L('+'), Rf('tm')), Rf('tm'), NODE), 'tm': T('foldr_start_with_parser', T('first_of', Rf('at'), L('^')), Rf('at'), NODE2),
         'at': ONE(T('digit_val'), T('middle_of', L('('), Rf('ex'), L(')')))}, [T('entire_input', Rf('ex'))], words('1+^()', n6 - 1))
    rec({'js': T('token', ONE(T('int_'), T('middle_of', T('token', L('[')), T('optional', T('foldl_start_with_parser', T('last_of', T('token', L(',')), Rf('js')), Rf('js'), NODE), S0), L(']'))))},
        [Rf('js'), T('entire_input', Rf('js'))], words('[],1', n6 - 1))
    u.m.memo  # states of the recursion are part of the same graph
    # unevaluated arguments of the metafunctions that look at results and positions
    cases = u.cases
    acc = ["one_char::apply<string<'a','b'>,start>", "accept<S1,string<'b'>,start>", "sequence<one_char,one_char>::apply<string<'a','\\n','c'>,start>", 'return_<mi<3> >::apply<string<>,source_position<mi<4>,mi<5>,ch<6> > >']
    accx = [('97', '[98,]', '1:2:97'), ('S1', '[98,]', '1:1:0'), ('[97,10,]', '[99,]', '2:1:10'), ('3', '[]', '4:5:6')]
    rejs = ["fail<m0>::apply<string<'a'>,start>", 'reject<m1,start>', "sequence<one_char,digit>::apply<string<'\\n','c'>,start>", 'reject<m0,source_position<mi<4>,mi<5>,ch<6> > >']
    rejx = [('m0', '1:1:0'), ('m1', '1:1:0'), ('Digit expected', '2:1:10'), ('m0', '4:5:6')]
    forms = {'unevaluated': '%s', 'evaluated': '%s::type', 'lazy': 'lz<%s >', 'lazy evaluated': 'lz<%s::type>'}
    forms = {k: v for k, v in forms.items() if k != 'lazy'}      # an unevaluated expression that gives an unevaluated one needs two evaluations
    dl = (DECL,)
    def pos(x): return 'showpos<%s>::run();' % x
    for fn, f in forms.items():
        for i, x in enumerate(acc):
            x = f % x
            cases.append(Case('accessors of %s' % x, dl, 'begin(@ID@); num(is_error<%s >::type::value); show<get_result<%s >::type>::run(); show<get_remaining<%s >::type>::run(); showpos<get_position<%s >::type>::run(); end();' % (x, x, x, x), '0' + ''.join(accx[i])))
            cases.append(Case('unless_error<%s,..>' % x, dl, 'begin(@ID@); show<unless_error<%s,lz<S2> >::type>::run(); show<unless_error<%s,mi<8> >::type>::run(); end();' % (x, x), 'S28'))
            cases.append(Case('obs %s' % x, dl, 'begin(@ID@); obs<%s >(); end();' % x, 'A %s | %s | %s' % accx[i]))
        for i, x in enumerate(rejs):
            x = f % x
            cases.append(Case('accessors of %s' % x, dl, 'begin(@ID@); num(is_error<%s >::type::value); out += get_message<%s >::type::get_value(); showpos<get_position<%s >::type>::run(); end();' % (x, x, x), '1' + ''.join(rejx[i])))
            cases.append(Case('unless_error<%s,poison>' % x, dl, 'begin(@ID@); obs<unless_error<%s,badv>::type>(); obs<unless_error<%s,badv> >(); end();' % (x, x), ('R %s | %s' % rejx[i]) * 2))
        for p, (l, c_, q) in (('start', (1, 1, 0)), ('source_position<mi<4>,mi<5>,ch<6> >', (4, 5, 6)), ("next_char<start,ch<'a'> >", (1, 2, 97)), ("next_line<start,ch<'\\n'> >", (2, 1, 10))):
            x = f % p
            cases.append(Case('position accessors of %s' % x, dl, 'begin(@ID@); num(get_line<%s >::type::value); out+=\':\'; num(get_col<%s >::type::value); out+=\':\'; num(get_prev_char<%s >::type::value); end();' % (x, x, x), '%d:%d:%d' % (l, c_, q)))
            for g in ("ch<'x'>", "ch<'x'>::type", "lz<ch<'x'> >"):
                cases.append(Case('next_char<%s,%s>' % (x, g), dl, "begin(@ID@); showpos<next_char<%s,%s >::type>::run(); out+=' '; showpos<next_line<%s,%s >::type>::run(); end();" % (x, g, x, g), '%d:%d:120 %d:1:120' % (l, c_ + 1, l + 1)))
    u.into(e)
    e.run(cases, batch=200)
    return dict(assumptions=['the forbidden parser is one whose instantiation on inputs starting with z does not compile, placed in every argument of every combinator; all alternatives of a choice count as reached (the implementations evaluate them eagerly)',
                             'recursive grammars: 9 grammars, all inputs up to length 5-7'])
