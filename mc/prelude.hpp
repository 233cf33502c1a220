// Harness prelude: observation of parsing results through the public interface only.
#ifndef MC_PRELUDE_HPP
#define MC_PRELUDE_HPP
#include <boost/metaparse.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/eval_if.hpp>
#include <boost/mpl/comparison.hpp>
#include <cstdio>
#include <string>

namespace vf
{
  using namespace boost::metaparse;

  template <int N> struct mi : boost::mpl::int_<N> { typedef boost::mpl::int_<N> type; };
  template <char C> struct ch : boost::mpl::char_<C> { typedef boost::mpl::char_<C> type; };

  extern std::string out;
  inline void num(long v) { char b[32]; std::sprintf(b, "%ld", v); out += b; }
  inline void esc(const std::string& s)
  {
    for (std::string::size_type i = 0; i != s.size(); ++i)
    {
      unsigned char c = s[i];
      if (c >= 32 && c < 127 && c != '\\') out += s[i];
      else { char b[8]; std::sprintf(b, "\\x%02x", c); out += b; }
    }
  }

  // user supplied values and operations
  struct S0 { typedef S0 type; };
  struct S1 { typedef S1 type; };
  struct S2 { typedef S2 type; };
  template <class A, class B> struct nd { typedef nd type; };
  template <class A, class B> struct ne { typedef ne type; };
  template <class A> struct w { typedef w type; };
  template <class A> struct x { typedef x type; };
  template <class A> struct sa1 { typedef sa1 type; };
  template <class A, class B> struct sa2 { typedef sa2 type; };
  template <class A, class B, class C> struct sa3 { typedef sa3 type; };
  template <class A, class B, class C, class D> struct sa4 { typedef sa4 type; };
  struct op { typedef op type; template <class A, class B> struct apply { typedef nd<A, B> type; }; };
  struct op2 { typedef op2 type; template <class A, class B> struct apply { typedef ne<A, B> type; }; };
  struct op_sum { typedef op_sum type; template <class A, class B> struct apply : boost::mpl::int_<A::type::value + B::type::value> {}; };
  struct op_sub { typedef op_sub type; template <class A, class B> struct apply : boost::mpl::int_<A::type::value - B::type::value> {}; };
  struct op_poly { typedef op_poly type; template <class A, class B> struct apply : boost::mpl::int_<A::type::value * 3 + B::type::value> {}; };
  struct wr { typedef wr type; template <class A> struct apply { typedef w<A> type; }; };
  struct wr2 { typedef wr2 type; template <class A> struct apply { typedef x<A> type; }; };
  template <char C> struct pred_is { typedef pred_is type; template <class A> struct apply : boost::mpl::bool_<(A::type::value == C)> {}; };
  template <char C> struct pred_isnt { typedef pred_isnt type; template <class A> struct apply : boost::mpl::bool_<(A::type::value != C)> {}; };
  struct pred_true { typedef pred_true type; template <class A> struct apply : boost::mpl::true_ {}; };
  struct pred_false { typedef pred_false type; template <class A> struct apply : boost::mpl::false_ {}; };
  BOOST_METAPARSE_DEFINE_ERROR(m0, "m0");
  BOOST_METAPARSE_DEFINE_ERROR(m1, "m1");
  BOOST_METAPARSE_DEFINE_ERROR(m2, "m2");
  BOOST_METAPARSE_DEFINE_ERROR(m9, "m9");
  template <class M> struct mwm { typedef mwm type; static std::string get_value() { return std::string("mw(") + M::type::get_value() + ")"; } };
  struct mwrap { typedef mwrap type; template <class M> struct apply { typedef mwm<M> type; }; };
  template <class M> struct tem { typedef tem type; static std::string get_value() { return std::string("te(") + M::type::get_value() + ")"; } };
  struct te_msg { typedef te_msg type; template <class E> struct apply : reject<tem<typename get_message<E>::type>, typename get_position<E>::type> {}; };
  struct te_const { typedef te_const type; template <class E> struct apply : reject<m9, source_position<mi<77>, mi<7>, ch<0> > > {}; };

  // user supplied parsers which look at the source position
  struct where { typedef where type; template <class S, class Pos> struct apply : accept<boost::mpl::int_<get_line<Pos>::type::value * 1000 + get_col<Pos>::type::value>, S, Pos> {}; };
  template <int C> struct at_col { typedef at_col type; template <class S, class Pos> struct apply : boost::mpl::eval_if_c<(get_col<Pos>::type::value == C), accept<S2, S, Pos>, reject<m2, Pos> > {}; };
  template <char C> struct after { typedef after type; template <class S, class Pos> struct apply : boost::mpl::eval_if_c<(get_prev_char<Pos>::type::value == C), accept<S1, S, Pos>, reject<m1, Pos> > {}; };
  template <int C> struct upto_col { typedef upto_col type; template <class S, class Pos> struct apply : boost::mpl::eval_if_c<(get_col<Pos>::type::value <= C), typename one_char::apply<S, Pos>, reject<m2, Pos> > {}; };

  // observation of values
  template <long> struct hv {};
  template <class T> struct has_val
  {
    typedef char y; struct n { char c[2]; };
    template <class U> static y t(hv<(long)U::type::value>*);
    template <class U> static n t(...);
    enum { value = sizeof(t<T>(0)) == sizeof(y) };
  };
  template <class T, bool Val> struct show_val { static void run() { num((long)T::type::value); } };
  template <class T> struct show_other { static void run() { out += '?'; } };
  template <class T> struct show_val<T, false> : show_other<T> {};
  template <class T, bool Seq> struct show_seq : show_val<T, has_val<T>::value> {};
  template <class T> struct show : show_seq<T, boost::mpl::is_sequence<T>::value> {};
  template <class I, class E> struct walk
  {
    static void run() { show<typename boost::mpl::deref<I>::type>::run(); out += ','; walk<typename boost::mpl::next<I>::type, E>::run(); }
  };
  template <class E> struct walk<E, E> { static void run() {} };
  template <class T> struct show_seq<T, true>
  {
    static void run() { out += '['; walk<typename boost::mpl::begin<T>::type, typename boost::mpl::end<T>::type>::run(); out += ']'; }
  };
  template <> struct show<void> { static void run() { out += '?'; } };
  template <> struct show<S0> { static void run() { out += "S0"; } };
  template <> struct show<S1> { static void run() { out += "S1"; } };
  template <> struct show<S2> { static void run() { out += "S2"; } };
  template <class A, class B> struct show<nd<A, B> > { static void run() { out += "nd("; show<A>::run(); out += ' '; show<B>::run(); out += ')'; } };
  template <class A, class B> struct show<ne<A, B> > { static void run() { out += "ne("; show<A>::run(); out += ' '; show<B>::run(); out += ')'; } };
  template <class A> struct show<w<A> > { static void run() { out += "w("; show<A>::run(); out += ')'; } };
  template <class A> struct show<x<A> > { static void run() { out += "x("; show<A>::run(); out += ')'; } };
  template <class A> struct show<sa1<A> > { static void run() { out += "sa("; show<A>::run(); out += ')'; } };
  template <class A, class B> struct show<sa2<A, B> > { static void run() { out += "sa("; show<A>::run(); out += ' '; show<B>::run(); out += ')'; } };
  template <class A, class B, class C> struct show<sa3<A, B, C> > { static void run() { out += "sa("; show<A>::run(); out += ' '; show<B>::run(); out += ' '; show<C>::run(); out += ')'; } };
  template <class A, class B, class C, class D> struct show<sa4<A, B, C, D> > { static void run() { out += "sa("; show<A>::run(); out += ' '; show<B>::run(); out += ' '; show<C>::run(); out += ' '; show<D>::run(); out += ')'; } };

  template <class P> struct showpos { static void run() { num(get_line<P>::type::value); out += ':'; num(get_col<P>::type::value); out += ':'; num(get_prev_char<P>::type::value); } };

  // observation of parsing results
  template <class R, bool Err> struct obs_impl;
  template <class R> struct obs_impl<R, true>
  {
    static void run() { out += "R "; esc(get_message<R>::type::get_value()); out += " | "; showpos<typename get_position<R>::type>::run(); }
  };
  template <class R> struct obs_impl<R, false>
  {
    static void run()
    {
      out += "A "; show<typename get_result<R>::type>::run(); out += " | ";
      show<typename get_remaining<R>::type>::run(); out += " | ";
      showpos<typename get_position<R>::type>::run();
    }
  };
  inline void begin(int id) { num(id); out += '\t'; }
  inline void end() { out += '\n'; }
  template <class R> void obs() { obs_impl<R, is_error<R>::type::value>::run(); }
  template <class P, class S, class Pos> void o(int id)
  {
    begin(id);
    obs<typename P::template apply<S, Pos>::type>();
    end();
  }
}
#endif
