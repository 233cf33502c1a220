"""C11 the language standards agree: the same compiled observation in all four, compared with each other (no oracle but agreement)"""
from compose import *
from folds import strict_elems, line_elems
from engine import Case, Cfg, ALL_STDS

def norm(obs, loose):
    if loose and obs.startswith('R '):
        return 'R * ' + obs[obs.rindex(' | '):]
    return obs

def check(e, thorough):
    u = U()
    W = ['', 'a', 'b', 'ab', 'aa', 'a\n', '\nb', 'aab', 'aba', 'abab', 'a b', '12'] if not thorough else list(words('ab\n', 3)) + ['a\r\nb', '12', 'a b', 'abab']
    for p in atoms() + inner():
        u.cross(unary(p), W)
    for p in inner():
        for q in inner()[:5] if not thorough else inner():
            u.cross(binary(p, q), ['', 'a', 'ab', 'aab', 'ba', 'a\nb'])
    for p in strict_elems() + line_elems():
        u.cross([T('foldl_reject_incomplete', p, S0, NODE), T('foldr_reject_incomplete', p, S0, NODE), T('repeated_reject_incomplete', p), ONE(p, SEQ(ANY, ANY)), ONE(SEQ(ANY, ANY, ANY), p)],
                ['', 'a', 'ab', 'aba', 'abb', 'abc', 'abca', '\n', '\na', '\r\na', '\r\n\ra', 'aab'])
    # the parts that have an implementation per standard: all arities, all indices, all character lists
    LTS = [L(x) for x in 'abcde']
    for n in range(1, 6):
        for k in range(0, n + 1):
            s = 'abcde'[:k] + 'x'
            u.cross([SEQ(*LTS[:n]), T('first_of', *LTS[:n]), T('last_of', *LTS[:n])] + [T('nth_of_c', i, *LTS[:n]) for i in range(-1, n + 1)] + [T('nth_of', i, *LTS[:n]) for i in (0, n - 1, n)], [s, s[:-1]])
        for s in words('abcx', 1):
            u.cross([ONE(*LTS[:n]), T('one_of_c', *'abcde'[:n]), T('repeated_one_of', *LTS[:n]), T('repeated_one_of1', *LTS[:n])], [s, s + 'a', s + 'b\n'])
    for n in range(0, 7):
        for s in words('adg\n', 1):
            u.cross([T('one_char_except_c', *'abcdefg'[:n]), T('one_char_except', *'abcdefg'[:n])], [s])
            if n:
                u.cross([T('one_of_c', *'abcdefg'[:n])], [s])
    for i in range(256):
        c = chr(i)
        for t in (ANY, T('one_of_c', c), T('one_char_except_c', c), T('lit', c), T('one_of_c', 'a', c, 'b'), T('range_c', '\0', c), T('keyword', 'a' + c, S0)):
            u.add(t, c); u.add(t, 'a' + c)
    u.into(e)
    loose = {c.desc: len(c.expect) > 1 for c in u.cases}
    cases = [Case(c.desc, c.decls, c.stmt, None) for c in u.cases]
    seen = {}
    bad = []
    def rec(c, cfg, g):
        v = norm(g, loose[c.desc])
        o = seen.setdefault(c.desc, (cfg, v, g))
        if o[1] != v:
            bad.append((c, cfg, g, o))
    e.record = rec
    e.run(cases, [Cfg(s) for s in ALL_STDS], batch=230, alternate=False)
    e.record = None
    for c, cfg, g, o in bad[:3]:
        e.report(Case(c.desc + ' (as in %s)' % o[0].name, c.decls, c.stmt, o[2]), cfg, g)
    e.notes['cases_compared_across_standards'] = len(cases)
    return dict(assumptions=['agreement of C++98, 11, 14 and 17 under g++; which alternative message a failed choice reports is not compared'])
