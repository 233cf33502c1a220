"""C13 BOOST_METAPARSE_STRING"""
from universe import *
from engine import Cfg
STDS = ('11', '14', '17')
SAFE = [chr(i) for i in range(32, 127) if chr(i) not in '"\\?']
TEXT = ''.join(SAFE[(i * 7 + i // 92 + i // 128) % len(SAFE)] for i in range(4200))
LIM = '#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n'

def q(s):
    return '"' + ''.join(c if c in SAFE else '\\%03o' % ord(c) for c in s) + '"'

def check(e, thorough):
    cases, n, seen = [], [0], set()
    def add(lim, s, macro='BOOST_METAPARSE_STRING'):
        if (lim, s, macro) in seen:
            return
        seen.add((lim, s, macro))
        n[0] += 1
        l = q(s)
        d = (LIM % lim if lim is not None else '') + ('typedef %s(%s) X%d;' % (macro, l, n[0]) if macro == 'BOOST_METAPARSE_STRING' else 'typedef decltype(%s(%s)) X%d;' % (macro, l, n[0]))
        cases.append(Case('limit %s, literal of %d characters %s%s' % (lim, len(s), l[:60], '' if macro == 'BOOST_METAPARSE_STRING' else ' (%s)' % macro), (d,),
                          'lits<X%d>(@ID@, %s, %d);' % (n[0], l, len(s)), '%d same' % len(s)))
    # every limit, full and shorter lengths
    for lim in range(0, 2049):
        add(lim, TEXT[:lim])
        add(lim, TEXT[lim % 5:][:min(lim, lim % 17)])
        if lim % 128 in (0, 1, 2, 127, 126) or thorough:
            for k in (lim - 1, lim - 2, lim // 2, (lim // 128) * 128, 128 * (lim // 128) - 1):
                if 0 <= k <= lim:
                    add(lim, TEXT[3:3 + k])
    # every length under several limits (every way of cutting the literal into blocks)
    for k in range(0, 2049, 1 if thorough else 3):
        add(2048, TEXT[5:5 + k])
    for k in list(range(0, 1025, 1 if thorough else 5)) + [511, 512, 513, 1023, 1024]:
        add(1024, TEXT[1:1 + k])
    for lim in (32, 40, 127, 128, 129, 200, 256):
        for k in range(0, lim + 1):
            add(lim, TEXT[:k])
    # small limits, all lengths, each after another limit was in force
    for lim in range(0, 17):
        for k in range(0, lim + 1):
            add(lim, TEXT[lim:lim + k])
    # all characters; zero characters anywhere
    for i in range(256):
        for s in (chr(i), 'a' + chr(i), chr(i) + 'b', chr(i) * 3):
            add(32, s)
        add(3, 'x' + chr(i) + 'y')
    for s in words('\0a', 5 if thorough else 4):
        add(32, s); add(len(s), s); add(200, s)
    for k in (30, 31, 32, 100, 128):
        add(128, '\0' * k); add(130, 'a' + '\0' * k); add(130, '\0' * k + 'b')
    for k in (0, 1, 5, 32, 33, 128, 300):
        add(max(k, 32), TEXT[:k], 'BOOST_METAPARSE_STRING_VALUE')
    e.states = len({(a, len(b)) for a, b, _ in seen}); e.transitions = len(cases)     # (limit, length) configurations; literals
    cs = []
    # shuffle limits deterministically so that neighbours in a translation unit have different limits
    step = 1009
    while len(cases) % step == 0:
        step += 2
    i = 0
    for _ in range(len(cases)):
        cs.append(cases[i]); i = (i + step) % len(cases)
    assert len(set(map(id, cs))) == len(cases)
    e.run(cs, [Cfg(s, prelude='prelude_lit.hpp') for s in STDS], batch=60)
    if thorough and not e.violations:
        e.run(cs, [Cfg(s, prelude='prelude_lit.hpp', cxx='clang++') for s in ('11', '17')], batch=60)
    # default limit
    d = [Case('default limit, %d characters' % k, ('typedef BOOST_METAPARSE_STRING(%s) X%d;' % (q(TEXT[:k]), k),), 'lits<X%d>(@ID@, %s, %d);' % (k, q(TEXT[:k]), k), '%d same' % k) for k in range(0, 33)]
    e.run(d, [Cfg(s, prelude='prelude_lit.hpp') for s in STDS], batch=60)
    # too long: must not compile
    items = []
    lims = list(range(0, 34)) + [63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1920, 2047, 2048]
    if thorough:
        lims = list(range(0, 300)) + list(range(300, 2049, 7)) + [2048]
    for i, lim in enumerate(lims):
        for std in (STDS if i % 8 == 0 or thorough else (STDS[i % 3],)):
            for k in sorted({lim + 1, lim + 2, 2 * lim + 3, 129, 128} if i % 4 == 0 else {lim + 1}):
                if k > lim and k < 4000:
                    items.append(('limit %d, literal of %d characters is too long' % (lim, k), LIM % lim + 'typedef BOOST_METAPARSE_STRING(%s) X;\nX x;' % q(TEXT[:k]), Cfg(std, prelude='prelude_lit.hpp'), None))
    for std in STDS:
        items.append(('default limit, 33 characters', 'typedef BOOST_METAPARSE_STRING(%s) X;' % q(TEXT[:33]), Cfg(std, prelude='prelude_lit.hpp'), None))
        items.append(('lowered again', LIM % 40 + 'typedef BOOST_METAPARSE_STRING(%s) X;' % q(TEXT[:36]) + '\n' + LIM % 32 + 'typedef BOOST_METAPARSE_STRING(%s) Y;' % q(TEXT[:33]), Cfg(std, prelude='prelude_lit.hpp'), None))
        items.append(('embedded zero counts', LIM % 3 + 'typedef BOOST_METAPARSE_STRING("a\\0bc") X;', Cfg(std, prelude='prelude_lit.hpp'), None))
    e.must_fail(items)
    return dict(assumptions=['every limit 0..2048 with a literal of exactly that length; every length 0..2048 (thorough; every third in quick) under limit 2048; all 256 characters; C++11 and later'])
