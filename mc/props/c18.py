"""C18 numbers"""
from universe import *
from engine import Case, Cfg, ALL_STDS

def check(e, thorough):
    u = U()
    I, D = T('int_'), T('digit_val')
    # every digit string up to length 3 (4), followed by every kind of character
    for s in words('0123456789', 3, 1):
        u.add(I, s)
        if len(s) < 3 or s[1] == '0':
            u.cross([I], [s + x for x in ('x', ' ', '.', '-', '\n', '/', ':', '\0')])
    if thorough:
        for s in words('0123456789', 4, 4):
            u.add(I, s)
    # every digit in every place, boundaries, leading zeros
    nums = set()
    for k in range(0, 10):
        for d in range(0, 10):
            nums |= {d * 10 ** k, d * 10 ** k + 1, d * 10 ** k - 1, d * (10 ** (k + 1) - 1) // 9}
    for k in range(0, 31):
        nums |= {2 ** k, 2 ** k - 1, 2 ** k + 1}
    nums |= {2147483646, 2147483645, 2147483640, 2147483639, 2147483599, 1234567890, 987654321, 123456789, 1000000007, 2147447412}
    for v in sorted(nums):
        if 0 <= v <= 2147483646:
            u.add(I, str(v)); u.add(I, str(v) + 'z')
            for z in (1, 2, 5, 20):
                u.add(I, '0' * z + str(v))
    for z in range(1, 33):
        u.add(I, '0' * z); u.add(I, '0' * (z - 1) + '7'); u.add(I, ('0' * (z - 2) + '42') if z > 1 else '4')
    for i in range(256):
        c = chr(i)
        u.cross([I, D, T('digit')], [c, c + '1', '1' + c, '12' + c + '3'], [START, (5, 6, 13)])
    # numbers inside other parsers
    tok = T('token', I)
    for s in words('09 +', 4):
        u.cross([T('repeated', tok), SEQ(tok, L('+'), tok), T('foldl_start_with_parser', T('last_of', T('token', L('+')), tok), tok, SUM), T('optional', I, S0), T('entire_input', I)], [s] if not ('9' * 5 in s) else [])
    cases = u.cases
    lazy = 'lz<%s>'
    for i in range(256):
        c = chr(i)
        for how, code in (('digit_to_int_c', 'util::digit_to_int_c<%s>' % lit(c)), ('digit_to_int', 'util::digit_to_int<ch<%s> >' % lit(c)), ('digit_to_int<>', 'util::digit_to_int<>::apply<ch<%s> >' % lit(c)),
                          ('digit_to_int lazy', 'util::digit_to_int<lz<ch<%s> > >' % lit(c))):
            if is_digit(c):
                cases.append(Case('%s of %s' % (how, esc(c)), LZ, 'begin(@ID@); num(%s::type::value); end();' % code, str(int(c))))
            else:
                cases.append(Case('%s of %s' % (how, esc(c)), LZ, 'begin(@ID@); esc(%s::type::get_value()); end();' % code, 'Digit expected'))
    for n in range(10):
        for how, code in (('int_to_digit_c', 'util::int_to_digit_c<%d>' % n), ('int_to_digit', 'util::int_to_digit<mi<%d> >' % n), ('int_to_digit<>', 'util::int_to_digit<>::apply<mi<%d> >' % n),
                          ('int_to_digit lazy', 'util::int_to_digit<lz<mi<%d> > >' % n)):
            cases.append(Case('%s of %d' % (how, n), LZ, 'begin(@ID@); num(%s::type::value); end();' % code, str(48 + n)))
        cases.append(Case('digit_to_int of int_to_digit of %d' % n, LZ, 'begin(@ID@); num(util::digit_to_int<util::int_to_digit<mi<%d> > >::type::value); num(util::int_to_digit<util::digit_to_int<ch<\'%d\'> > >::type::value); end();' % (n, n), '%d%d' % (n, 48 + n)))
    u.into(e)
    e.run(cases)
    items = []
    for n in (-1, 10, 11, -10, 48, 57, 100, 255, -2147483647, 2147483647):
        for k, std in enumerate(ALL_STDS):
            code = ['util::int_to_digit_c<%d>', 'util::int_to_digit<mi<%d> >'][k % 2] % n
            items.append(('int_to_digit of %d' % n, 'namespace vf { enum { x = %s::type::value }; }' % code, Cfg(std), None))
    e.must_fail(items)
    return dict(assumptions=['all digit strings up to length %d, boundary values up to INT_MAX-1 (boost::mpl::int_<INT_MAX> itself does not compile), leading zeros up to 31; all 256 characters' % (4 if thorough else 3)])

LZ = ('template <class A> struct lz { typedef typename A::type type; };',)
