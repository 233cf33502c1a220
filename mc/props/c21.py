"""C21 headers: self-contained, repeatable, combinable, versioned names, linkable"""
import os
from concurrent.futures import ThreadPoolExecutor
import engine
from engine import Cfg, ALL_STDS, sh, JOBS, REPO, HERE, first_error

ROOT = '''accept accept_tag accept_when alphanum always always_c build_parser change_error_message config debug_parsing_error define_error digit digit_val empty entire_input except fail
fail_at_first_char_expected fail_tag first_of foldl foldl1 foldl_reject_incomplete foldl_reject_incomplete1 foldl_reject_incomplete_start_with_parser foldl_start_with_parser foldr foldr1
foldr_reject_incomplete foldr_reject_incomplete1 foldr_start_with_parser get_col get_line get_message get_position get_prev_char get_remaining get_result grammar if_ int_ is_error iterate
iterate_c keyword last_of letter limit_one_char_except_size limit_one_of_size limit_sequence_size limit_string_size lit lit_c look_ahead middle_of next_char next_line nth_of nth_of_c one_char
one_char_except one_char_except_c one_of one_of_c optional range range_c reject repeated repeated1 repeated_one_of repeated_one_of1 repeated_reject_incomplete repeated_reject_incomplete1 return_
sequence sequence_apply source_position source_position_tag space spaces start string string_tag string_value token transform transform_error transform_error_message unless_error version
error/digit_expected error/end_of_input_expected error/expected_to_fail error/index_out_of_range error/letter_expected error/literal_expected error/none_of_the_expected_cases_found
error/unexpected_character error/unexpected_end_of_input error/unpaired error/whitespace_expected util/digit_to_int util/digit_to_int_c util/in_range util/in_range_c util/int_to_digit
util/int_to_digit_c util/is_digit util/is_lcase_letter util/is_letter util/is_ucase_letter util/is_whitespace util/is_whitespace_c'''.split()
ONLY_ROOT = ('config', 'version', 'limit_one_char_except_size', 'limit_one_of_size', 'limit_sequence_size', 'limit_string_size')
NO_ENTITY = ONLY_ROOT + ('define_error', 'string_value', 'sequence_apply')
V1 = ['v1/' + h for h in ROOT if h not in ONLY_ROOT]
def inc(h): return '#include <boost/metaparse/%s.hpp>\n' % h
MAIN = '#include <boost/metaparse.hpp>\n'

# what the name of each header can be used for when nothing but that header (and an input) is there
PC = '''
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/accept.hpp>
#include <boost/metaparse/reject.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/eval_if.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <string>
namespace t {
  struct msg { typedef msg type; static std::string get_value() { return "msg"; } };
  struct v { typedef v type; };
  // a parser which uses nothing of the library but accept and reject
  struct pc { typedef pc type;
    template <class S, class Pos> struct ok : boost::metaparse::accept<v, typename boost::mpl::pop_front<S>::type, Pos> {};
    template <class S, class Pos> struct apply : boost::mpl::eval_if<typename boost::mpl::empty<S>::type, boost::metaparse::reject<msg, Pos>, ok<S, Pos> > {}; };
  struct op { typedef op type; template <class A, class B> struct apply { typedef A type; }; };
  struct un { typedef un type; template <class A> struct apply { typedef v type; }; };
  struct pr { typedef pr type; template <class A> struct apply : boost::mpl::true_ {}; };
  struct te { typedef te type; template <class E> struct apply : boost::metaparse::reject<msg, boost::metaparse::start> {}; };
  template <class A> struct tp { typedef tp type; };
  typedef boost::mpl::int_<1> one; typedef boost::mpl::char_<97> ca; typedef boost::mpl::char_<98> cb;
  typedef boost::metaparse::string<'a','a'> in; typedef boost::metaparse::string<> none; typedef boost::metaparse::start st;
  typedef boost::metaparse::accept<v, in, st> acc; typedef boost::metaparse::reject<msg, st> rej;
'''
P = {}      # parsers
for h in 'alphanum digit digit_val int_ letter one_char space spaces'.split():
    P[h] = h
for h in 'entire_input fail_at_first_char_expected first_of last_of look_ahead one_of optional repeated repeated1 repeated_one_of repeated_one_of1 repeated_reject_incomplete repeated_reject_incomplete1 sequence token'.split():
    P[h] = h + '<pc>'
for h in 'foldl foldl1 foldl_reject_incomplete foldl_reject_incomplete1 foldr foldr1 foldr_reject_incomplete foldr_reject_incomplete1'.split():
    P[h] = h + '<pc,v,op>'
for h in 'foldl_reject_incomplete_start_with_parser foldl_start_with_parser foldr_start_with_parser'.split():
    P[h] = h + '<pc,pc,op>'
P.update({'accept_when': 'accept_when<pc,pr,msg>', 'always': 'always<pc,v>', 'always_c': "always_c<'a',v>", 'change_error_message': 'change_error_message<pc,msg>', 'empty': 'empty<v>', 'except': 'except<pc,v,msg>',
          'fail': 'fail<msg>', 'if_': 'if_<pc,v,v>', 'iterate': 'iterate<pc,one>', 'iterate_c': 'iterate_c<pc,2>', 'keyword': "keyword<in,v>", 'lit': 'lit<ca>', 'lit_c': "lit_c<'a'>", 'middle_of': 'middle_of<pc,pc,pc>',
          'nth_of': 'nth_of<one,pc,pc>', 'nth_of_c': 'nth_of_c<1,pc,pc>', 'one_char_except': 'one_char_except<ca>', 'one_char_except_c': "one_char_except_c<'b'>", 'one_of_c': "one_of_c<'a','b'>", 'range': 'range<ca,cb>',
          'range_c': "range_c<'a','b'>", 'return_': 'return_<v>', 'sequence_apply': 'sequence_apply1<tp,pc>', 'transform': 'transform<pc,un>', 'transform_error': 'transform_error<pc,te>', 'transform_error_message': 'transform_error_message<pc,un>'})
X = {       # other names: expressions whose ::type is a complete type
    'accept': ['accept<v,in,st>'], 'reject': ['reject<msg,st>'], 'accept_tag': ['accept_tag'], 'fail_tag': ['fail_tag'], 'string_tag': ['string_tag'], 'source_position_tag': ['source_position_tag'],
    'build_parser': ['build_parser<pc>::apply<in>'], 'get_col': ['get_col<st>'], 'get_line': ['get_line<st>'], 'get_prev_char': ['get_prev_char<st>'], 'get_message': ['get_message<rej>'], 'get_position': ['get_position<rej>', 'get_position<acc>'],
    'get_remaining': ['get_remaining<acc>'], 'get_result': ['get_result<acc>'], 'is_error': ['is_error<acc>', 'is_error<rej>'], 'next_char': ['next_char<st,ca>'], 'next_line': ['next_line<st,ca>'], 'source_position': ['source_position<one,one,ca>'],
    'start': ['start'], 'string': ["string<'a'>"], 'unless_error': ['unless_error<acc,v>', 'unless_error<rej,v>'], 'util/digit_to_int': ["util::digit_to_int<boost::mpl::char_<'1'> >", "util::digit_to_int<>::apply<boost::mpl::char_<'x'> >"],
    'util/digit_to_int_c': ["util::digit_to_int_c<'1'>", "util::digit_to_int_c<'x'>"], 'util/in_range': ['util::in_range<ca,cb,ca>', 'util::in_range<>', 'util::in_range<ca,cb>::apply<ca>', 'util::in_range<ca>::apply<cb,cb>'], 'util/in_range_c': ["util::in_range_c<char,'a','b'>::apply<ca>"],
    'util/int_to_digit': ['util::int_to_digit<one>', 'util::int_to_digit<>::apply<one>'], 'util/int_to_digit_c': ['util::int_to_digit_c<1>'], 'util/is_digit': ['util::is_digit<ca>', 'util::is_digit<>::apply<ca>'],
    'util/is_lcase_letter': ['util::is_lcase_letter<ca>', 'util::is_lcase_letter<>::apply<ca>'], 'util/is_letter': ['util::is_letter<ca>', 'util::is_letter<>::apply<ca>'], 'util/is_ucase_letter': ['util::is_ucase_letter<ca>', 'util::is_ucase_letter<>::apply<ca>'],
    'util/is_whitespace': ['util::is_whitespace<ca>', 'util::is_whitespace<>::apply<ca>'], 'util/is_whitespace_c': ["util::is_whitespace_c<'a'>"], 'grammar': ['grammar<>::import<string<\'S\'>,pc>', 'grammar<>::import<string<\'S\'>,pc>::type::apply<in,st>', "grammar<>::rule<string<'S',':',':','=','\\'','a','\\''> >::type::apply<in,st>"],
    'error/index_out_of_range': ['error::index_out_of_range<0,1,2>'], 'error/literal_expected': ["error::literal_expected<'a'>"], 'error/unpaired': ['error::unpaired<1,2,msg>', 'error::unpaired<1,2>::apply<msg>'],
}
for h in ROOT:
    if h.startswith('error/') and h not in X:
        X[h] = [h.replace('/', '::')]

def snippet(h, versioned):
    """text that includes only h, and uses its name"""
    t = inc(('v1/' if versioned else '') + h) + PC + '  namespace u { using namespace boost::metaparse%s;\n' % ('::v1' if versioned else '')
    n = 0
    for e in ([P[h] + '::apply<%s,st>' % s for s in ('in', 'none')] if h in P else X.get(h, [])):
        if h in ('grammar',) and versioned:
            pass
        t += '    typedef %s::type r%d; enum { z%d = sizeof(r%d) };\n' % (e, n, n, n)
        n += 1
    if h.startswith('error/'):
        for e in X[h]:
            t += '    inline std::string f%d() { return %s::type::get_value(); }\n' % (n, e); n += 1
    if h == 'define_error':
        t += '    BOOST_METAPARSE_%sDEFINE_ERROR(my_error, "x"); inline std::string f() { return my_error::type::get_value(); }\n' % ('V1_' if versioned else '')
        n = 1
    if h == 'debug_parsing_error':
        t += '    struct dbg { debug_parsing_error<pc, in> a; debug_parsing_error<pc, none> b; }; inline void f() { dbg d; (void)d; }\n'
        n = 1
    if h == 'version':
        # documented: the version in the form of BOOST_VERSION_NUMBER
        t += '    enum { ver = BOOST_METAPARSE_VERSION }; typedef char major_[(BOOST_METAPARSE_VERSION / 10000000) == 1 ? 1 : -1]; typedef char minor_[(BOOST_METAPARSE_VERSION / 100000) % 100 == 0 ? 1 : -1]; typedef char patch_[BOOST_METAPARSE_VERSION % 100000 == 0 ? 1 : -1];\n'; n = 1
    if h.startswith('limit_'):
        t += '    enum { lim = BOOST_METAPARSE_%s };\n' % h.upper(); n = 1
    if h == 'string_value':
        t += '#if BOOST_METAPARSE_STD >= 2011\n    inline void f() { auto x = BOOST_METAPARSE_%sSTRING_VALUE("abc"); (void)x; }\n#endif\n' % ('V1_' if versioned else ''); n = 1
    if h == 'string':
        t += '#if BOOST_METAPARSE_STD >= 2011\n    typedef BOOST_METAPARSE_%sSTRING("abc") lll;\n#ifdef BOOST_METAPARSE_V1_CONFIG_NO_BOOST_METAPARSE_STRING\n#error documented only for platforms without the macro\n#endif\n#elif !defined BOOST_METAPARSE_V1_CONFIG_NO_BOOST_METAPARSE_STRING\n#error documented for platforms without the macro\n#endif\n' % ('V1_' if versioned else '')
    if h == 'config':
        t += '''    enum { std_ = BOOST_METAPARSE_STD };
#if __cplusplus < 201103L
    typedef char std_is[std_ < 2011 ? 1 : -1];
#elif __cplusplus < 201402L
    typedef char std_is[std_ >= 2011 && std_ < 2014 ? 1 : -1];
#else
    typedef char std_is[std_ >= 2014 ? 1 : -1];
#endif
'''; n = 1
    return t + '  } }\n' if n else None

def same(h):
    """both using-declarations in one scope are only valid if they name the same entity"""
    t = inc(h)
    n = h.split('/')
    names = [n[-1]] if h not in NO_ENTITY else (['sequence_apply1', 'sequence_apply2', 'sequence_apply3', 'sequence_apply4'] if h == 'sequence_apply' else [])
    ns = ''.join(x + '::' for x in n[:-1])
    if not names:
        return None
    t += 'namespace q {\n'
    for x in names:
        t += 'using boost::metaparse::%s%s; using boost::metaparse::v1::%s%s;\n' % (ns, x, ns, x)
    return t + '}\n'

def check(e, thorough):
    jobs = []     # (desc, text, std)
    extra_stds = ALL_STDS
    for i, h in enumerate(ROOT + V1):
        for std in ALL_STDS:
            jobs.append(('%s on its own, twice' % h, inc(h) + inc(h), std))
        if h.startswith('v1/'):
            continue
        for k, std in enumerate(ALL_STDS):
            for ver in (False, True) if h not in ONLY_ROOT else (False,):
                if not thorough and (k + i + ver) % 2:
                    continue
                s = snippet(h, ver)
                if s:
                    jobs.append(('use of %s%s with only its header' % ('v1/' if ver else '', h), s, std))
        if same(h):
            for std in ALL_STDS if thorough else (ALL_STDS[i % 4],):
                jobs.append(('%s names the entity of v1' % h, same(h), std))
    # all of them, from each one on, in both directions; versioned first or last
    for i, h in enumerate(ROOT):
        std = ALL_STDS[i % 4]
        rot = ROOT[i:] + ROOT[:i]
        rev = ROOT[i::-1] + ROOT[:i:-1]
        if thorough or i % 2:
            jobs.append(('all headers starting with %s' % h, ''.join(map(inc, rot)), std))
        if thorough or not i % 2:
            jobs.append(('all headers starting with %s, backwards' % h, ''.join(map(inc, rev)), ALL_STDS[(i + 1) % 4]))
        if h not in ONLY_ROOT:
            jobs.append(('v1/%s before everything' % h, inc('v1/' + h) + MAIN + ''.join(map(inc, rot)), ALL_STDS[(i + 2) % 4]))
            jobs.append(('v1/%s after everything' % h, MAIN + inc('string_value') + ''.join(map(inc, rev)) + inc('v1/' + h), ALL_STDS[(i + 3) % 4]))
    for std in ALL_STDS:
        jobs.append(('metaparse.hpp twice', MAIN + MAIN, std))
        names = ''
        for h in ROOT:
            if h in NO_ENTITY:
                continue
            n = h.replace('/', '::')
            names += 'using boost::metaparse::%s; using boost::metaparse::v1::%s;\n' % (n, n)
        jobs.append(('every documented name after metaparse.hpp', MAIN + 'namespace q { ' + names + ' }', std))
    if thorough:
        for i, h in enumerate(ROOT):
            for j, g in enumerate(ROOT):
                jobs.append(('%s then %s' % (h, g), inc(h) + inc(g), ALL_STDS[(i + j) % 4]))
    e.states = len({tuple(l for l in j[1].split('\n') if l.startswith('#include <boost/metaparse')) for j in jobs})     # distinct sequences of inclusions
    e.transitions = len(jobs)
    bad = []
    def one(j):
        if len(bad) > 2:
            return False
        ok, err, to = e.compile_text(j[1] + 'int main() { return 0; }\n', Cfg(j[2]), use_pch=False)
        if ok or to:
            return None
        bad.append(j)
        return err
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for j, err in zip(jobs, res):
        if err is False:
            continue
        e.executions += 1
        k = 'compiles' if err is None else 'does not compile'
        e.outcomes[k] = e.outcomes.get(k, 0) + 1
        if len(e.samples) < 5 and e.executions % 300 == 1:
            e.samples.append({'case': j[0], 'config': 'g++-c++' + j[2], 'observed': k})
        if err is not None and len(e.violations) < 3:
            e.violation('%s [c++%s]' % (j[0], j[2]), 'compiles', first_error(err), j[1] + '/*\n' + err[:8000] + '\n*/')
    if not e.violations:
        link(e, thorough)
    return dict(assumptions=['g++, %d public headers (and their versioned forms); pairs of headers in one order per language standard in the thorough tier' % len(ROOT)])

def link(e, thorough):
    """translation units that include everything (in different orders) and use the same and different instantiations"""
    body = r'''
#include <boost/mpl/string.hpp>
#include <cstdio>
#include <cstring>
namespace {
  template <class P, class S> struct rs : boost::metaparse::get_result<typename P::template apply<S, boost::metaparse::start> > {};
}
namespace shared { BOOST_METAPARSE_DEFINE_ERROR(err, "shared error"); }
struct pdbg { typedef pdbg type; };
const char* tu%(k)d_ptr() { return boost::mpl::c_str<boost::metaparse::string<'s','h','a','r','e','d'> >::type::value; }
const char* tu%(k)d_empty() { return boost::mpl::c_str<boost::metaparse::string<> >::type::value; }
std::string tu%(k)d()
{
  using namespace boost::metaparse;
  std::string r;
  const char* const* pp; const char* q = boost::mpl::c_str<string<'x', %(c)s> >::type::value; pp = &q; r += *pp;
  r += boost::mpl::c_str<string<> >::type::value;
  r += error::literal_expected<%(c)s>::get_value(); r += error::index_out_of_range<0,1,%(k)d>::get_value(); r += error::unpaired<1,%(k)d,shared::err>::get_value();
  r += error::digit_expected::get_value(); r += error::end_of_input_expected::get_value(); r += error::expected_to_fail::get_value(); r += error::letter_expected::get_value();
  r += error::none_of_the_expected_cases_found::get_value(); r += error::unexpected_character::get_value(); r += error::unexpected_end_of_input::get_value(); r += error::whitespace_expected::get_value();
  r += get_message<fail<shared::err>::apply<string<>, start> >::type::get_value();
  r += (rs<int_, string<'4','2'> >::type::value == 42) ? '1' : '0';
  r += (rs<sequence<lit_c<'a'>, one_of<lit_c<'b'>, lit_c<'c'> > >, string<'a','c'> >::type::value_type_dummy_%(z)s) ? '1' : '0';
  r += build_parser<entire_input<foldl1<digit_val, boost::mpl::int_<0>, boost::metaparse::v1::impl::next_digit> > >::apply<string<'1','7'> >::type::value == 17 ? '1' : '0';
#if BOOST_METAPARSE_STD >= 2011
  r += boost::mpl::c_str<BOOST_METAPARSE_STRING("literal")>::type::value;
  r += boost::mpl::c_str<BOOST_METAPARSE_STRING("")>::type::value;
  { auto v = BOOST_METAPARSE_STRING_VALUE("val"); (void)v; r += boost::mpl::c_str<decltype(v)>::type::value; }
#endif
  return r;
}
void tu%(k)d_dbg() { boost::metaparse::debug_parsing_error<boost::metaparse::one_char, boost::metaparse::string<'a','b'> > d; (void)d; }
'''
    body = body.replace("  r += (rs<sequence<lit_c<'a'>, one_of<lit_c<'b'>, lit_c<'c'> > >, string<'a','c'> >::type::value_type_dummy_%(z)s) ? '1' : '0';\n", '')
    body = body.replace("  r += build_parser<entire_input<foldl1<digit_val, boost::mpl::int_<0>, boost::metaparse::v1::impl::next_digit> > >", "  r += build_parser<entire_input<int_> >")
    orders = [MAIN + inc('string_value'), ''.join(map(inc, ROOT)), ''.join(map(inc, ROOT[::-1])), ''.join(map(inc, V1)) + MAIN + inc('string_value')]
    def one(arg):
        std, cxx = arg
        d = os.path.join(e.tmp, 'l%s%s' % (cxx, std))
        os.mkdir(d)
        flags = [f for f in Cfg(std, cxx=cxx).flags()]
        objs = []
        for k, o in enumerate(orders):
            p = os.path.join(d, 'tu%d.cpp' % k)
            open(p, 'w').write(o + body % dict(k=k, c="'%s'" % 'pqrs'[k], z=''))
            rc, out, err, to = sh([cxx] + flags + ['-c', p, '-o', p + '.o'], 300)
            if rc:
                return None if to else (p, 'translation unit %d does not compile' % k, err)
            objs.append(p + '.o')
        m = os.path.join(d, 'main.cpp')
        n = len(orders)
        open(m, 'w').write('#include <string>\n#include <cstdio>\n' + ''.join('std::string tu%d(); const char* tu%d_ptr(); const char* tu%d_empty(); void tu%d_dbg();\n' % (k, k, k, k) for k in range(n)) +
            'int main() { ' + ''.join('std::printf("%%s\\n", tu%d().c_str()); ' % k for k in range(n)) +
            ' std::printf("%s%s\\n", tu0_ptr(), tu0_empty()); std::fflush(stdout); tu1_dbg(); return 1; }\n')
        rc, out, err, to = sh([cxx] + flags + [m] + objs + ['-o', m + '.x'], 300)
        if rc:
            return None if to else (m, 'does not link', err)
        rc, out, err, to = sh([m + '.x'], 60)
        exp = ''
        for k in range(n):
            c = 'pqrs'[k]
            exp += 'x%sExpected: %sindex (%d) out of range [0-1]shared error (see 1:%d)Digit expectedEnd of input expectedParser expected to failLetter expectedNone of the expected cases foundUnexpected characterUnexpected end of inputWhitespace expectedshared error11%s\n' % (c, c, k, k, 'literalval' if std != '98' else '')
        exp += 'shared\nCompile-time parsing results\n----------------------------\nInput text:\nab\n\nParsing was successful. Remaining string is:\nb\n'
        if rc != 0 or out != exp:
            return (m, 'exit %d, printed %r' % (rc, out), 'expected ' + exp)
        return True
    args = [(s, 'g++') for s in ALL_STDS]
    with ThreadPoolExecutor(JOBS) as ex:
        for a, r in zip(args, ex.map(one, args)):
            e.executions += 1
            e.transitions += len(orders)
            if r not in (None, True):
                e.violation('program of %d translation units [%s c++%s]' % (len(orders), a[1], a[0]), 'links and runs', r[1], r[2][:8000] + '\n' + open(r[0]).read()[-3000:])
