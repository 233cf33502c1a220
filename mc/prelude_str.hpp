// observation of compile-time strings through every documented sequence operation
#ifndef MC_PRELUDE_STR_HPP
#define MC_PRELUDE_STR_HPP
#include <boost/mpl/string.hpp>
#include "prelude.hpp"
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/clear.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/back.hpp>
#include <boost/mpl/advance.hpp>
#include <boost/mpl/distance.hpp>
#include <boost/mpl/prior.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/type_traits/is_same.hpp>
#include <cstring>
namespace vf
{
  namespace mpl = boost::mpl;
  template <class I, class E> struct fwd { static void run() { num((long)mpl::deref<I>::type::value); out += ','; fwd<typename mpl::next<I>::type, E>::run(); } };
  template <class E> struct fwd<E, E> { static void run() {} };
  template <class B, class I> struct bwd { typedef typename mpl::prior<I>::type J; static void run() { num((long)mpl::deref<J>::type::value); out += ','; bwd<B, J>::run(); } };
  template <class B> struct bwd<B, B> { static void run() {} };
  // element I in four ways, iterator arithmetic around it
  template <class S, int I, int N> struct elems
  {
    typedef typename mpl::begin<S>::type B;
    typedef typename mpl::end<S>::type E;
    typedef typename mpl::advance<B, mpl::int_<I> >::type P;
    typedef typename mpl::advance<E, mpl::int_<I - N> >::type Q;
    static void run()
    {
      num((long)mpl::at<S, mpl::int_<I> >::type::value); out += '/';
      num((long)mpl::at_c<S, I>::type::value); out += '/';
      num((long)mpl::deref<P>::type::value); out += '/';
      num((long)mpl::deref<Q>::type::value); out += '/';
      num((long)mpl::distance<B, P>::type::value); out += '/';
      num((long)mpl::distance<P, E>::type::value); out += '/';
      num((long)mpl::distance<P, B>::type::value); out += '/';
      num(mpl::equal_to<P, Q>::type::value); num(boost::is_same<P, Q>::value);
      num(mpl::equal_to<P, E>::type::value); num(mpl::equal_to<P, typename mpl::next<P>::type>::type::value);
      out += ' ';
      elems<S, I + 1, N>::run();
    }
  };
  template <class S, int N> struct elems<S, N, N> { static void run() {} };
  template <class S, int N> struct ends { static void run() { num((long)mpl::front<S>::type::value); out += ','; num((long)mpl::back<S>::type::value); } };
  template <class S> struct ends<S, 0> { static void run() { out += '-'; } };
  // everything observable about a string; Same: the directly written one
  template <class S, class Same> void dump(int id)
  {
    enum { N = mpl::size<S>::type::value };
    typedef typename mpl::begin<S>::type B;
    typedef typename mpl::end<S>::type E;
    begin(id);
    num(N); out += (mpl::empty<S>::type::value ? " empty " : " nonempty ");
    num(mpl::distance<B, E>::type::value); out += ' ';
    fwd<B, E>::run(); out += ' '; bwd<B, E>::run(); out += ' ';
    ends<S, N>::run(); out += ' ';
    elems<S, 0, N>::run();
    num(mpl::equal_to<S, Same>::type::value); num(mpl::equal_to<Same, S>::type::value); num(boost::is_same<S, Same>::value);
    num(mpl::equal<S, Same>::type::value); num(mpl::is_sequence<S>::value); num(boost::is_same<typename S::type, S>::value);
    out += ' ';
    const char* p = mpl::c_str<S>::type::value;
    for (int i = 0; i <= N; ++i) { num((long)p[i]); out += ','; }
    end();
  }
  template <class S> void cs(int id)
  {
    begin(id);
    num(mpl::size<S>::type::value); out += ' ';
    fwd<typename mpl::begin<S>::type, typename mpl::end<S>::type>::run();
    end();
  }
}
#endif
