"""C22 size limit macros are honoured up to and including the limit"""
from compose import *
from engine import Cfg, Case, ALL_STDS
import c12
AL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
BASE = 'The quick brown fox_jumps OVER 0123456789+-*/(){}' * 6
D = 'BOOST_METAPARSE_LIMIT_'
MPL = ('BOOST_MPL_CFG_NO_PREPROCESSED_HEADERS', 'BOOST_MPL_LIMIT_VECTOR_SIZE=40', 'BOOST_MPL_LIMIT_LIST_SIZE=40')

def sa_decl(n):
    ps = ['A%d' % i for i in range(n)]
    return ('template <%s> struct sa%d { typedef sa%d type; };' % (','.join('class ' + p for p in ps), n, n) +
            ' template <%s> struct show<sa%d<%s> > { static void run() { out += "sa("; %s out += \')\'; } };' % (
                ','.join('class ' + p for p in ps), n, ','.join(ps), " out += ' '; ".join('show<%s>::run();' % p for p in ps)))

def ins(n):
    """inputs that succeed, end, or go wrong at each place of a sequence of n literals"""
    return [AL[:k] for k in range(n + 1)] + [AL[:k] + '#' + AL[k + 1:n] for k in range(n)] + [AL[:n] + '#']

def seqs(limit, counts, strcap):
    u = U()
    for n in counts:
        if n > limit:
            continue
        lits = [L(c) for c in AL[:n]]
        ii = [x for x in ins(n) if len(x) <= strcap]
        u.cross([SEQ(*lits)], ii, (START, (3, 7, 10)))
        if n:
            u.cross([T('first_of', *lits), T('last_of', *lits)], ii)
            for i in range(-1, n + 1):
                jj = [x for x in (AL[:n], AL[:n - 1], AL[:n] + 'z', AL[:i] + '#' if 0 <= i < n else '') if len(x) <= strcap]
                u.cross([T('nth_of_c', i, *lits)], jj)
                u.cross([T('nth_of', i, *lits)], jj[:2])
        if 1 <= n < limit:
            u.cross([T('sequence_apply', *lits)], ii, decls=(sa_decl(n),) if n > 4 else ())
        # several parts of each kind: the number of parts is what matters, not what they are
        for q in (T('return_', S1), ANY, T('repeated', L('a')), T('optional', L('b'), S0)):
            u.cross([SEQ(*([q] * n))] + ([T('last_of', *([q] * n)), T('first_of', *([q] * n))] if n else []), [x for x in ('', 'a' * n, 'ab', 'b' * n, 'a' * (n + 1)) if len(x) <= strcap])
    return u

def choices(limit, counts, strcap):
    u = U()
    for n in counts:
        if n > limit:
            continue
        lits = [L(c) for c in AL[:n]]
        ii = ['', '#', AL[n:n + 1]] + [c for c in AL[:n]] + [c + 'z' for c in AL[:n:3]]
        u.cross([ONE(*lits)], ii, (START, (3, 7, 10)))
        u.cross([T('one_of_c', *AL[:n])], ii)
        if n:
            rr = ['', '#'] + [x for x in (AL[:n], AL[:n][::-1], AL[:n] + AL[:n] + '#', AL[n - 1:n] * 3 + AL[n:n + 1]) if len(x) <= strcap]
            u.cross([T('repeated_one_of', *lits), T('repeated_one_of1', *lits)], rr)
            # who is first, and whose error is kept: alternative i starts like the others and gets further
            for i in range(n):
                alts = [SEQ(L('a'), L(c)) for c in AL[:n]]
                alts[i] = SEQ(L('a'), L('z'), L('y'))
                u.cross([ONE(*alts)], [x for x in ('azx', 'azy', 'a#', 'a' + AL[i], 'a' + AL[n - 1]) if len(x) <= strcap])
                same = [T('always', L('a'), VI(k)) if k >= i else L('b') for k in range(n)]
                u.cross([ONE(*same)], ['a', 'b', 'c'])
    return u

def excepts(limit, counts):
    u = U()
    for n in counts:
        if n > limit:
            continue
        ii = ['', '#', AL[n:n + 2]] + [c for c in AL[:n]]
        u.cross([T('one_char_except_c', *AL[:n]), T('one_char_except', *AL[:n])], ii, (START, (3, 7, 10)))
        u.cross([T('one_char_except_c', *([c for c in '\0\xff\x7f\x80\n\r\t 01'] * 9)[:n])], ['\0', '\xff', '\x7f', '\x80', '\n', '\r', '\t', ' ', '0', '1', '2', '\1'])
    return u

def strings(limit, lens):
    g = c12.G()
    for n in lens:
        if n <= limit:
            g.explore(BASE[:n], 'z', 2 if n >= limit - 1 else 1, limit)
    return g

def parsed(limit, lens):
    u = U()
    for n in lens:
        if n > limit:
            continue
        s = BASE[:n]
        u.cross([T('repeated', ANY), T('repeated', T('letter')), T('entire_input', T('keyword', s, S0)), T('foldl', ANY, S0, NODE) if n <= 40 else ANY, SEQ(ANY, ANY), T('token', T('repeated1', T('letter')))],
                [s] + [BASE[:n - 1] + '#'] * (n > 0))
        u.cross([T('keyword', s, S1)], [s[:n - 1], s])
        u.cross([T('repeated', T('space')), T('spaces')], [' ' * n, '\n' * n])
    return u

def common(strcap):
    """uses that fit into every configuration"""
    u = U()
    W = [x for x in list(words('ab', 3)) if len(x) <= strcap]
    for p in (a, AB, T('optional', b, S1)):
        u.cross([t for t in unary(p)], W)
        for q in (AB, T('repeated1', a)):
            u.cross([t for t in binary(p, q) if t.name != 'sequence_apply'], W[:8])
    u.cross(atoms(), W + [x for x in ('1', '12', '\n', ' a', '123') if len(x) <= strcap])
    return u

def check(e, thorough):
    todo = []      # (cfg, cases)
    models = []
    def use(u, cfg, graph=False):
        if graph:
            e.states += len(u.states); e.transitions += u.trans
        else:
            u.into(e)
        todo.append((cfg, u.cases))
    def cfg(std, prelude='prelude.hpp', **kw):
        defs = tuple(D + k + '=%d' % v for k, v in sorted(kw.items()) if k != 'mpl')
        return Cfg(std, (MPL if kw.get('mpl') else ()) + defs, prelude=prelude)
    full = lambda n: range(n + 1)
    edge = lambda n: sorted({0, 1, 2, n // 2, n - 2, n - 1, n} & set(range(n + 1))) if not thorough else range(n + 1)
    S, O, X, G = 'SEQUENCE_SIZE', 'ONE_OF_SIZE', 'ONE_CHAR_EXCEPT_SIZE', 'STRING_SIZE'
    # the defaults
    d98 = cfg('98')
    use(seqs(5, full(5), 32), d98); use(choices(20, full(20), 32), d98); use(excepts(10, full(10)), d98); use(parsed(32, full(32)), d98)
    use(strings(32, full(32)), cfg('98', 'prelude_str.hpp'), True)
    d11 = [cfg(s) for s in (('11', '17') if not thorough else ('11', '14', '17'))]
    for c in d11:
        use(seqs(5, full(5), 32), c); use(choices(20, edge(20), 32), c); use(excepts(10, full(10)), c); use(parsed(32, edge(32)), c)
    # each one changed alone
    for n in (3, 4, 6, 8, 13, 20) if not thorough else range(3, 21):
        c = cfg('98', **{S: n})
        use(seqs(n, full(n) if n < 9 else edge(n), 32), c)
    for n in (5, 6, 10, 19) if not thorough else range(5, 21):
        use(choices(n, full(n) if n < 7 else edge(n), 32), cfg('98', **{O: n}))
    for n in (1, 2, 3, 9, 11, 20, 30) if not thorough else range(1, 41):
        use(excepts(n, full(n) if n < 12 else edge(n)), cfg('98', **{X: n}))
    for n in (3, 4, 7, 16, 31, 33, 48, 64) if not thorough else list(range(3, 40)) + [47, 48, 49, 63, 64, 65, 96, 128]:
        use(strings(n, full(n) if n < 9 else edge(n)), cfg('98', 'prelude_str.hpp', **{G: n}), True)
        use(parsed(n, edge(n)), cfg('98', **{G: n}))
    # beyond what the metaprogramming library has by default, with its limits raised as well
    use(seqs(25, (0, 1, 20, 21, 24, 25), 32), cfg('98', mpl=1, **{S: 25}))
    use(choices(30, (0, 1, 20, 21, 29, 30), 32), cfg('98', mpl=1, **{O: 30}))
    # sequence_apply takes its limit from the macro in every standard
    for std in ('11', '17'):
        for n in (3, 8):
            use(seqs(n, full(n), 32), cfg(std, **{S: n}))
    # all at once; and uses that fit into everything
    allc = [dict(), {S: 3, O: 5, X: 2, G: 5}, {S: 8, O: 20, X: 20, G: 64}, {S: 3, O: 20, X: 2, G: 48}, {S: 12, O: 6, X: 10, G: 6}]
    for kw in allc:
        for std in ('98', '11', '17') if not thorough else ALL_STDS:
            # C++98 and tight sequences: what metaparse's own parsers need still fits
            use(common(5), cfg(std, **kw))
    e.notes['configurations'] = len({c.key() for c, _ in todo})
    # group: engine.run takes one list of cases per configuration set
    for c, cases in todo:
        for x in cases:
            x.cfgs = None
    run_all(e, todo)
    return dict(assumptions=['limits: sequence 3..20 (25 with the MPL limits raised), one_of 5..20 (30), one_char_except 1..40, string 3..128; below 3/5/3 the library headers themselves do not fit (documented nowhere, outside the property)'])

def run_all(e, todo):
    from concurrent.futures import ThreadPoolExecutor
    import engine
    work = []
    for c, cases in todo:
        size = 60 if c.prelude == 'prelude_str.hpp' else 200
        nb = max(1, (len(cases) + size - 1) // size)
        size = (len(cases) + nb - 1) // nb
        work += [(cases[i:i + size], c) for i in range(0, len(cases), size)]
    cf = list({c.key(): c for c, _ in todo}.values())
    with ThreadPoolExecutor(engine.JOBS) as ex:
        list(ex.map(e.prepare, cf))
        stop = []
        def one(w):
            if stop:
                return None
            b = e.check_batch(*w)
            if [x for x in b if not e.is_known(x)]:
                stop.append(1)
            return b
        res = list(ex.map(one, work))
    for b in res:
        for x in (b or []):
            if not e.is_known(x):
                e.report(*x)
