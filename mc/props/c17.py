"""C17 grammars: names, imports, actions, start symbols; independent of the order of the definitions"""
import itertools
from gram import *
from engine import Case, Cfg, ALL_STDS
a, b = L('a'), L('b')
ACT = {'wr': WRAP, 'wr2': WRAP2, 'w<boost::mpl::_1>': WRAP, 'x<boost::mpl::_1>': WRAP2}

def R(text, act=None): return ('rule', text, act)
def I(name, p): return ('import', name, p)

def resolver(defs):
    table = {}
    for d in defs:
        if d[0] == 'import':
            table[d[1]] = d
        else:
            table[tokens(d[1])[0][1]] = d
    def env(n):
        d = table[n]
        if d[0] == 'import':
            return d[2]
        t = parse_rule(d[1], env)[1]
        return T('transform', t, ACT[d[2]]) if d[2] else t
    return env, table

def code(defs, start):
    g = 'grammar<%s>' % (cpp_string(start) + ' ' if start else '')
    for d in defs:
        if d[0] == 'import':
            g += '::import<%s,%s >::type' % (cpp_string(d[1]), d[2].cpp())
        else:
            g += '::rule<%s%s >::type' % (cpp_string(d[1]), ',' + d[2] if d[2] else '')
    return g

GRAMMARS = [
    [R("S ::= A B"), R("A ::= 'a'*", 'wr'), R("B ::= 'b'", 'x<boost::mpl::_1>')],
    [R("S ::= A | B", 'wr2'), I('A', T('last_of', ANY, a)), R("B ::= A 'b' | 'b'", 'wr')],
    [R("S ::= (A b)+"), I('A', a), R("b ::= 'b' | A 'a'", 'wr')],
    [R("S ::= x x1 x_"), R("x ::= 'a'", 'wr'), R("x1 ::= x x", 'wr2'), I('x_', T('token', b))],
    [R("S ::= s*", 'wr'), R("s ::= S1 'b'", 'wr2'), R("S1 ::= 'a'+", 'w<boost::mpl::_1>')],
    [R("S ::= A A", 'wr'), R("A ::= I"), I('I', ANY), R("U ::= 'z' I", 'wr2')],
    [R("S ::= T"), R("T ::= U", 'wr'), R("U ::= V", 'wr2'), R("V ::= 'a' 'b'*", 'wr')],
    [I('S', SEQ(a, b)), R("A ::= S*", 'wr'), R("B ::= A | 'b'", 'wr2')],
    [R("S ::= A | B | C"), R("A ::= 'a' 'a'", 'wr'), R("B ::= 'a' 'b'", 'wr2'), R("C ::= 'a'", 'x<boost::mpl::_1>')],
    [R("S ::= A* B+", 'wr'), I('A', T('always', a, S1)), I('B', T('fail', M1))],
]

def check(e, thorough):
    m = Model()
    cases, n = [], 0
    W = list(words('ab', 3)) + ['abab', 'aabb', 'aaab', 'bbbb', 'c', 'az']
    for gi, G in enumerate(GRAMMARS):
        env, table = resolver(G)
        for perm in itertools.permutations(G):
            for start in [None] + sorted(table):
                if start is not None and not thorough and list(perm) not in (G, G[::-1]):
                    continue
                n += 1
                t = env(start or 'S')
                d = ('typedef %s GG%d;' % (code(perm, start), n),)
                for s in W:
                    for pos in (START, (4, 7, 13)) if perm == tuple(G) else (START,):
                        try:
                            r = m.run(t, s, pos)
                        except Diverges:
                            continue
                        cases.append(Case('grammar %s start %s on "%s" at %s' % (' ; '.join(x[1] + (' [%s]' % x[2] if isinstance(x[2], str) else '') for x in perm), start, s, show_pos(pos)), d,
                            'o<GG%d,%s,%s >(@ID@);' % (n, cpp_string(s), cpp_pos(pos)), observe(r)))
        # dropping definitions that the start symbol does not reach, and adding unrelated ones, changes nothing
        for extra in ([R("Q ::= 'q'", 'wr')], [I('Q', T('fail', M0))], [R("SS ::= 'a'", 'wr2'), I('S_', b)], [R("Q1 ::= 'a' | 'b'", 'wr'), R("Q2 ::= Q1 Q1", 'wr2'), I('Q', ANY)]):
            for where in (0, 1, len(G)):
                n += 1
                d = ('typedef %s GG%d;' % (code(G[:where] + extra + G[where:], None), n),)
                for s in W[:9] if not thorough else W:
                    try:
                        r = m.run(env('S'), s)
                    except Diverges:
                        continue
                    cases.append(Case('grammar %d with %d unrelated definitions at %d on "%s"' % (gi, len(extra), where, s), d, 'o<GG%d,%s,start>(@ID@);' % (n, cpp_string(s)), observe(r)))
    # layout after a name; names written in other ways
    for sp in (' ', '\n', ' \t\r\n '):
        n += 1
        d = ('typedef grammar<%s >::import<%s,lit_c<\'b\'> >::type::rule<%s,wr>::type::rule<%s >::type GG%d;' % (cpp_string('T1' + sp), cpp_string('I' + sp), cpp_string('A ::= I' + sp), cpp_string("T1 ::= 'a' A" + sp), n),)
        for s in W:
            cases.append(Case('grammar with layout "%s" after names on "%s"' % (esc(sp), s), d, 'o<GG%d,%s,start>(@ID@);' % (n, cpp_string(s)), observe(m.run(SEQ(T('lit', 'a'), T('transform', b, WRAP)), s))))
    # imported parsers that look at the position, behind consumed text
    D = [R("S ::= A+ B 'b'* C", 'wr'), I('A', T('upto_col', 2)), I('B', T('where')), I('C', T('optional', T('at_col', 3), S0))]
    env, table = resolver(D)
    for perm in itertools.permutations(D):
        n += 1
        d = ('typedef %s GG%d;' % (code(perm, None), n),)
        for s in W[:12]:
            for pos in (START, (4, 2, 13)):
                cases.append(Case('grammar %s on "%s" at %s' % (' ; '.join(x[1] for x in perm), s, show_pos(pos)), d, 'o<GG%d,%s,%s >(@ID@);' % (n, cpp_string(s), cpp_pos(pos)), observe(m.run(env('S'), s, pos))))
    # many rules
    for k in (5, 9, 12):
        D = [R("S ::= A0 A%d" % (k - 1))] + [R("A%d ::= '%s'" % (i, 'ab'[i % 2]), ('wr', 'wr2')[i % 2] if i % 3 else None) for i in range(k)]
        env, table = resolver(D)
        for P in (D, D[::-1], D[k // 2:] + D[:k // 2]):
            n += 1
            d = ('typedef %s GG%d;' % (code(P, None), n),)
            for s in W[:12]:
                cases.append(Case('grammar of %d rules beginning with %s on "%s"' % (k + 1, P[0][1], s), d, 'o<GG%d,%s,start>(@ID@);' % (n, cpp_string(s)), observe(m.run(env('S'), s))))
    # every kind of name as start symbol, rule and import
    for nm in ['S', 'A', 'S1', 'SS', '_', '_S', 'S_', 'a', 'aS', '0', '1S', 'a_b_c', 'Z9']:
        for other in ('S', nm + 'x', 'x' + nm, nm[:-1] + 'q'):
            if other == nm:
                continue
            defs = [R("%s ::= 'a' %s" % (nm, other), 'wr'), R("%s ::= 'b'" % other, 'wr2')]
            defs2 = [I(other, b), R("%s ::= %s | 'a'" % (nm, other), 'wr')]
            for D in (defs, defs[::-1], defs2, defs2[::-1]):
                env, table = resolver(D)
                n += 1
                d = ('typedef %s GG%d;' % (code(D, nm), n),)
                for s in ('', 'a', 'ab', 'b', 'abb'):
                    cases.append(Case('grammar %s start %s on "%s"' % (' ; '.join(x[1] for x in D), nm, s), d, 'o<GG%d,%s,start>(@ID@);' % (n, cpp_string(s)), observe(m.run(env(nm), s))))
    e.states += len(m.memo); e.transitions += m.transitions
    e.notes['grammars'] = n
    e.run(cases, batch=150)
    return dict(assumptions=['10 grammars of 3-4 definitions in every order, every start symbol; inputs over {a,b} up to length 3; grammars without recursion (documented restriction)'])
