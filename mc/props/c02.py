"""C02 single-character parsers and predicates over all 256 character values"""
from universe import *
ALL = [chr(i) for i in range(256)]

def check(e, thorough):
    u = U()
    par = [T('one_char'), T('digit'), T('digit_val'), T('letter'), T('space'), T('alphanum'),
           L('a'), L('0'), L('\n'), L('\xff'), L('\0'), T('lit', 'Z'), T('lit', '\x80'),
           T('range_c', 'a', 'z'), T('range_c', '0', '9'), T('range_c', '\0', '\x7f'), T('range_c', '\x80', '\xff'), T('range_c', '\x80', '\x7f'),
           T('range_c', 'm', 'm'), T('range_c', 'n', 'm'), T('range', 'A', 'F'), T('range', '\xe0', '\x10'),
           T('one_of_c', 'a', '\n', '\xff', '0', '\0'), T('one_of_c', 'z'), T('one_of_c'),
           T('one_char_except_c'), T('one_char_except_c', 'a', '\n', '\xff', '0', '\0'), T('one_char_except', 'b', '\r', '\x80'), T('one_char_except')]
    for t in par:
        u.add(t, '')
        u.add(t, '', (5, 6, 13))
        for c in ALL:
            u.add(t, c + 'q')
    for t in par:
        for s in ('a', '0', '\n', 'aa', '\r\n', ' a', 'm', 'z', 'b', 'q', '\xff', '\0', 'A', 'F', 'Z', '9'):
            u.add(t, s, (3, 4, 13))
    # every literal
    for i in range(256):
        for d in (0, 1, 32, 128):
            u.add(L(chr(i)), chr(i ^ d) + 'x')
        u.add(T('lit', chr(i)), chr(i))
        u.add(T('lit', chr(i)), chr((i + 1) % 256))
    # ranges: every pair of bounds out of a set, characters at and next to the bounds
    B = '\0\x01/09:@AZ[`az{\x7f\x80\xfe\xff' if thorough else '\0/09AZaz\x7f\x80\xff'
    for lo in B:
        for hi in B:
            t = T('range_c', lo, hi)
            for c in sorted(set([lo, hi, chr((ord(lo) - 1) % 256), chr((ord(lo) + 1) % 256), chr((ord(hi) - 1) % 256), chr((ord(hi) + 1) % 256)])):
                u.add(t, c)
                if thorough:
                    u.add(T('range', lo, hi), c)
    # lists of every length, a match at every place, and characters that are not in the list
    pool = 'aQ0\nz\xff~B \0xY7_-\x80mn(9\r'
    for n in range(0, 21):
        for nm, top98 in (('one_of_c', 20), ('one_char_except_c', 10), ('one_char_except', 10)):
            t = T(nm, *pool[:n])
            cf = None if n <= top98 else ('11', '14', '17')
            for c in pool[:n + 1] + 'W\x01':
                u.add(t, c + 'a', START, cf)
            if n > 1:
                t2 = T(nm, *(pool[n - 1::-1]))
                for c in pool[:n + 1]:
                    u.add(t2, c, (2, 3, 10), cf)
                # repeated characters in the list
                t3 = T(nm, *((pool[0],) * (n - 1) + (pool[1],)))
                for c in pool[:3]:
                    u.add(t3, c, START, cf)
    # longer lists than C++98 has room for
    big = [chr(i) for i in range(48, 123)]
    for n in (21, 22, 31, 32, 33, 40, 64) if not thorough else range(21, 76):
        for nm in ('one_of_c', 'one_char_except_c', 'one_char_except'):
            t = T(nm, *big[:n])
            for c in (big[0], big[1], big[n // 2], big[19], big[20], big[n - 2], big[n - 1], big[n % 75], '!', '~'):
                u.add(t, c + 'a', START, ('11', '14', '17'))
    u.into(e)
    # predicates
    def bit(b): return '1' if b else '0'
    preds = [('util::is_digit<>', is_digit), ('util::is_letter<>', is_letter),
             ('util::is_lcase_letter<>', lambda c: 'a' <= c <= 'z'), ('util::is_ucase_letter<>', lambda c: 'A' <= c <= 'Z'),
             ('util::is_whitespace<>', is_space)]
    for name, f in preds:
        for c in ALL:
            b = bit(f(c))
            u.cases.append(Case('%s(%s)' % (name, esc(c)), (),
                'begin(@ID@); num(%s::apply<ch<%s> >::type::value); num(%s<ch<%s> >::type::value); end();' % (name, lit(c), name[:-2], lit(c)), b + b))
    for c in ALL:
        u.cases.append(Case('util::is_whitespace_c(%s)' % esc(c), (),
            'begin(@ID@); num(util::is_whitespace_c<%s>::type::value); end();' % lit(c), bit(is_space(c))))
    # in_range: every order of lower bound, upper bound and item
    vals = (-5, -1, 0, 1, 7, 8) if not thorough else (-128, -5, -1, 0, 1, 7, 8, 127, 1000)
    for a in vals:
        for b in vals:
            for x in vals:
                r = bit(a <= x <= b)
                u.cases.append(Case('in_range %d %d %d' % (a, b, x), (),
                    'begin(@ID@); num(util::in_range_c<int,(%d),(%d)>::apply<mi<(%d)> >::type::value); num(util::in_range<mi<(%d)>,mi<(%d)>,mi<(%d)> >::type::value); num(util::in_range<mi<(%d)>,mi<(%d)> >::apply<mi<(%d)> >::type::value); num(util::in_range<>::apply<mi<(%d)>,mi<(%d)>,mi<(%d)> >::type::value); end();' % ((a, b, x) * 4), r * 4))
    e.run(u.cases, batch=350)
    return dict(assumptions=['all 256 character values; list lengths 0..64 (C++98: 0..20, and 0..10 for except-lists)'])
