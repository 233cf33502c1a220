"""C12 compile-time strings behave like the list of their characters"""
from universe import *
from engine import Cfg, ALL_STDS
BIG = ('11', '14', '17')

def dump(s):
    n = len(s)
    v = [sc(c) for c in s]
    el = ''.join('%d/%d/%d/%d/%d/%d/%d/1100 ' % (x, x, x, x, i, n - i, -i) for i, x in enumerate(v))
    return '%d %s %d %s %s %s %s111111 %s' % (n, 'nonempty' if n else 'empty', n, ''.join('%d,' % x for x in v),
        ''.join('%d,' % x for x in reversed(v)), '%d,%d' % (v[0], v[-1]) if n else '-', el.replace('/-0/', '/0/'), ''.join('%d,' % x for x in v + [0]))

class G(object):
    """state graph: states are strings, transitions the operations; every history is replayed"""
    def __init__(self):
        self.cases, self.states, self.trans, self.n = [], set(), 0, 0
    def case(self, typ, s, decls, how, cfgs=None):
        self.states.add(s)
        self.cases.append(Case(how, tuple(decls), 'dump<%s, %s >(@ID@);' % (typ, cpp_string(s)), dump(s), cfgs))
    def ops(self, s, alpha, cap):
        r = []
        for c in alpha:
            if len(s) < cap:
                r.append(('push_back %s' % esc(c), 'push_back<%%s,ch<%s> >' % lit(c), s + c))
                r.append(('push_front %s' % esc(c), 'push_front<%%s,ch<%s> >' % lit(c), c + s))
        if s:
            r.append(('pop_back', 'pop_back<%s>', s[:-1]))
            r.append(('pop_front', 'pop_front<%s>', s[1:]))
        r.append(('clear', 'clear<%s>', ''))
        return r
    def explore(self, start, alpha, depth, cap, cfgs=None):
        d0 = 'typedef %s H%d;' % (cpp_string(start), self.n)
        front = [('H%d' % self.n, start, (d0,), '"%s"' % esc(start))]
        self.n += 1
        for k in range(depth + 1):
            nxt = []
            for t, s, decls, how in front:
                self.case(t, s, decls, how, cfgs)
                if k == depth:
                    continue
                for name, code, s2 in self.ops(s, alpha, cap):
                    self.trans += 1
                    h = 'H%d' % self.n
                    self.n += 1
                    nxt.append((h, s2, decls + ('typedef mpl::%s::type %s;' % (code % t, h),), how + ' ' + name))
            front = nxt

def check(e, thorough):
    g = G()
    cap = 32
    g.explore('', 'ab', 4 if thorough else 3, cap)
    g.explore('ab', 'a\n', 4 if thorough else 3, cap)
    g.explore('\0', '\0\xff', 3 if thorough else 2, cap)
    # every length, and every operation from it
    base = 'The quick brown fox_jumps OVER 0123456789+-*/(){}' * 50
    for n in range(0, 33):
        g.explore(base[:n], 'z', 1, cap)
    for n in (29, 30, 31, 32):
        g.explore(base[3:3 + n], 'z', 2, cap)
    g.explore(base[:27], 'z', 1, cap)
    for n in (40, 63, 64, 65, 100, 127, 128, 129) if not thorough else range(33, 140):
        g.explore(base[:n], 'z', 1, 10 ** 6, BIG)
    # build up one character at a time to the limit from either end, and take down again
    for up in ('push_back', 'push_front'):
        for dn in ('pop_back', 'pop_front'):
            t, s, decls, how = 'string<>', '', (), up + '/' + dn
            for i in range(32):
                c = base[i]
                h = 'H%d' % g.n; g.n += 1
                decls = decls + ('typedef mpl::%s<%s,ch<%s> >::type %s;' % (up, t, lit(c), h),)
                t, s = h, (s + c if up == 'push_back' else c + s)
                g.trans += 1
                g.case(t, s, decls, '%s up to %d' % (how, i + 1))
            for i in range(32):
                h = 'H%d' % g.n; g.n += 1
                decls = decls + ('typedef mpl::%s<%s>::type %s;' % (dn, t, h),)
                t, s = h, (s[:-1] if dn == 'pop_back' else s[1:])
                g.trans += 1
                g.case(t, s, decls, '%s down to %d' % (how, 31 - i))
    # every character value at every kind of place
    for i in range(256):
        c = chr(i)
        for s in (c, 'a' + c, c + 'b', c + c + c):
            g.case(cpp_string(s), s, (), '"%s"' % esc(s))
        for f, s in (('push_back', 'xy' + c), ('push_front', c + 'xy')):
            g.case('Z%s%d' % (f, i), s, ('typedef mpl::%s<string<\'x\',\'y\'>,ch<%s> >::type Z%s%d;' % (f, lit(c), f, i),), '%s %s' % (f, esc(c)))
        for f, s in (('pop_back', 'x' + c), ('pop_front', c + 'y')):
            g.case('Z%s%d' % (f, i), s, ('typedef mpl::%s<string<\'x\',%s,\'y\'> >::type Z%s%d;' % (f, lit(c), f, i),), '%s keeps %s' % (f, esc(c)))
    cases = g.cases
    # equality: all pairs over a set of close strings
    E = list(words('ab', 3)) + ['a\0', '\0', '\0\0', '\0a', base[:31], base[:32], base[1:32], base[:30] + 'x', '\xff', '\xfe', '\x7f']
    for x in E:
        for y in E:
            cases.append(Case('equal_to "%s" "%s"' % (esc(x), esc(y)), (), 'begin(@ID@); num(mpl::equal_to<%s,%s >::type::value); num(mpl::equal<%s,%s >::type::value); end();' %
                ((cpp_string(x), cpp_string(y)) * 2), '%d%d' % (x == y, x == y)))
    for x in ('', 'a', 'ab'):
        for o in ('mpl::int_<0>', 'mpl::char_<97>', 'mpl::vector_c<char,97>' if 0 else 'mpl::long_<1>'):
            cases.append(Case('"%s" vs %s' % (x, o), (), 'begin(@ID@); num(mpl::equal_to<%s,%s >::type::value); num(mpl::equal_to<%s,%s >::type::value); end();' % (
                cpp_string(x), o, o, cpp_string(x)), '00'))
    # iterators of different strings or places
    for x, i in ((x, i) for x in ('ab', 'aa', 'abc') for i in range(len(x) + 1)):
        for y, j in ((y, j) for y in ('ab', 'aa') for j in range(len(y) + 1)):
            it = lambda s, k: 'mpl::advance<mpl::begin<%s >::type,mpl::int_<%d> >::type' % (cpp_string(s), k)
            cases.append(Case('iterators "%s"+%d "%s"+%d' % (x, i, y, j), (), 'begin(@ID@); num(mpl::equal_to<%s,%s >::type::value); end();' % (it(x, i), it(y, j)), '%d' % (x == y and i == j)))
    # all jumps and distances
    for n in (0, 1, 2, 5, 31, 32):
        s = base[:n]
        pts = range(n + 1) if n < 10 or thorough else (0, 1, 2, n // 2, n - 1, n)
        for i in pts:
            for j in pts:
                cases.append(Case('jump %d->%d of %d' % (i, j, n), (),
                    'begin(@ID@); { typedef mpl::begin<%s >::type B; typedef mpl::advance<B,mpl::int_<%d> >::type P; typedef mpl::advance<P,mpl::int_<%d> >::type Q; num(mpl::distance<P,Q>::type::value); out+=\' \'; num(mpl::distance<B,Q>::type::value); } end();'
                    % (cpp_string(s), i, j - i), '%d %d' % (j - i, j)))
    e.states += len(g.states)
    e.transitions += g.trans
    e.run(cases, cfgs=[Cfg(s, prelude='prelude_str.hpp') for s in ALL_STDS], batch=120)
    return dict(assumptions=['operation sequences up to length %d over two pushed characters; all lengths 0..32 (and to 139 on C++11); all 256 character values' % (4 if thorough else 3)])
