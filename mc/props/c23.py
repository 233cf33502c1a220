"""C23 parsing does not depend on how the input sequence is represented"""
from compose import *
from engine import Cfg, Case, ALL_STDS

def cs(s): return ''.join(',' + lit(c) for c in s)
def tys(s): return ','.join('boost::mpl::char_<%s>' % lit(c) for c in s)
def mstr(s):
    if len(s) <= 7:
        return 'boost::mpl::string<%s>' % ','.join(lit(c) for c in s)
    return 'boost::mpl::string<%s>' % ','.join("'%s'" % s[i:i + 4] for i in range(0, len(s), 4))
def nest(op, base, cs_): 
    for c in cs_:
        base = 'boost::mpl::%s<%s,boost::mpl::char_<%s> >::type' % (op, base, lit(c))
    return base
REPR = {
    'string': lambda s: cpp_string(s),
    'list_c': lambda s: 'boost::mpl::list_c<char%s>' % cs(s),
    'vector_c': lambda s: 'boost::mpl::vector_c<char%s>' % cs(s),
    'list': lambda s: 'boost::mpl::list<%s >' % tys(s),
    'vector': lambda s: 'boost::mpl::vector<%s >' % tys(s),
    'deque': lambda s: 'boost::mpl::deque<%s >' % tys(s),
    'mpl_string': lambda s: mstr(s),
    'list pushed to': lambda s: nest('push_front', 'boost::mpl::list<>', s[::-1]),
    'vector pushed to': lambda s: nest('push_back', 'boost::mpl::vector<>', s),
    'deque pushed to': lambda s: nest('push_front', 'boost::mpl::deque<>', s[::-1]),
    'tail of list': lambda s: 'boost::mpl::pop_front<boost::mpl::list_c<char,\'q\'%s> >::type' % cs(s),
    'tail of vector': lambda s: 'boost::mpl::pop_front<boost::mpl::vector_c<char,\'q\'%s> >::type' % cs(s),
    'head of vector': lambda s: "boost::mpl::pop_back<boost::mpl::vector_c<char%s,'q'> >::type" % cs(s),
    'tail of mpl_string': lambda s: "boost::mpl::pop_front<%s >::type" % mstr('q' + s),
    'head of mpl_string': lambda s: "boost::mpl::pop_back<%s >::type" % mstr(s + 'q'),
    'string pushed to': lambda s: nest('push_back', 'string<>', s),
    'tail of string': lambda s: "boost::mpl::pop_front<string<'q'%s> >::type" % cs(s),
    'head of string': lambda s: "boost::mpl::pop_back<string<%s'q'> >::type" % ''.join(lit(c) + ',' for c in s),
    # boxed characters of other types
    'list of unevaluated characters': lambda s: 'boost::mpl::list<%s >' % ','.join('ch<%s>' % lit(c) for c in s),
    'vector of integral_constants': lambda s: 'boost::mpl::vector<%s >' % ','.join('boost::integral_constant<char,%s>' % lit(c) for c in s),
    'vector_c of int': lambda s: 'boost::mpl::vector_c<int%s>' % cs(s),
    'deque of int_': lambda s: 'boost::mpl::deque<%s >' % ','.join('boost::mpl::int_<%s>' % lit(c) for c in s),
    # what a parser left over
    'remaining list': lambda s: "get_remaining<one_char::apply<boost::mpl::list_c<char,'q'%s>,start> >::type" % cs(s),
    'remaining vector': lambda s: "get_remaining<keyword<string<'q','q'> >::apply<boost::mpl::vector_c<char,'q','q'%s>,start> >::type" % cs(s),
    'remaining mpl_string': lambda s: "get_remaining<one_char::apply<%s,start> >::type" % mstr('q' + s),
}

def add(u, t, s, pos, reprs, cfgs=None):
    try:
        r = u.m.run(t, s, pos)
    except Diverges:
        return
    pn, pd = u.typedef('P_', t.cpp())
    qn, qd = u.typedef('Q_', cpp_pos(pos))
    for k in reprs:
        sn, sd = u.typedef('I_', REPR[k](s))
        u.cases.append(Case('%s on "%s" as %s at %s' % (t.cpp(), esc(s), k, show_pos(pos)), (pd, sd, qd), 'o<%s,%s,%s>(@ID@);' % (pn, sn, qn), observe(r), cfgs))

def check(e, thorough):
    u = U()
    keys = list(REPR)
    W = ['', 'a', 'b', 'ab', 'aa', 'a\nb', 'abab', '1a', '12 ', 'a b']
    at = atoms() + [T('lit', 'a'), T('range', 'a', 'b'), T('one_char_except', 'b'), T('keyword', 'aab', S1), T('always_c', 'a', S0)]
    for p in at:
        for s in W:
            add(u, p, s, START, keys)
    i = 0
    for p in (a, AB) if not thorough else inner():
        for t in unary(p) + binary(p, T('repeated1', a)) + binary(T('optional', b, S1), p):
            for s in ['', 'a', 'ab', 'aab', 'abab', 'a\n'] if not thorough else W:
                i += 1
                add(u, t, s, START, keys if thorough else [keys[(i + j) % len(keys)] for j in range(0, len(keys), 3)])
    # every representation of every input with parsers that look at everything
    eat = [T('repeated', ANY), SEQ(T('optional', T('keyword', 'ab', S0), S1), T('repeated', ONE(AB, ANY))), T('entire_input', T('foldr', ANY, S0, NODE)), T('last_of', T('spaces'), T('token', T('int_')))]
    for s in list(words('ab\n', 3)) + [' 12 ', '\r\n1', '123', '0']:
        for t in eat:
            add(u, t, s, START, keys)
            if thorough or len(s) < 3:
                add(u, t, s, (4, 2, 13), keys)
    for n in range(0, 20 if thorough else 19, 1 if thorough else 3):
        s = ('abcdefghij' * 3)[:n]
        for t in eat[:1] + [T('keyword', s, S0)]:
            add(u, t, s, START, keys)
    # all character values (mpl::string cannot hold 0)
    for i in range(0, 256):
        c = chr(i)
        ks = [k for k in keys if i or 'mpl_string' not in k]
        ks = ks if thorough else [ks[(i + j) % len(ks)] for j in range(0, len(ks), 4)]
        add(u, SEQ(ANY, T('one_of', T('lit_c', c), ANY)), 'a' + c, START, ks)
        add(u, T('one_char_except_c', 'a', c), c, START, ks[:2])
    # keywords written as other sequences
    for kw in words('ab', 3):
        for k in ('list_c', 'vector_c', 'deque', 'mpl_string', 'list pushed to', 'vector pushed to'):
            for s in list(words('ab', 3)):
                r = u.m.run(T('keyword', kw, S1), s, START)
                for k2 in ('string', 'list_c', 'vector_c'):
                    u.cases.append(Case('keyword "%s" as %s on "%s" as %s' % (kw, k, s, k2), (), 'o<keyword<%s,S1>,%s,start>(@ID@);' % (REPR[k](kw), REPR[k2](s)), observe(r)))
    u.into(e)
    e.run(u.cases, cfgs=[Cfg(s, prelude='prelude_rep.hpp') for s in ALL_STDS], batch=300)
    return dict(assumptions=['%d representations; vectors and lists up to 19 elements (the default limit of the metaprogramming library is 20)' % len(REPR)])
