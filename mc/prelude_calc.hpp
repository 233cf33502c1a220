#ifndef MC_PRELUDE_CALC_HPP
#define MC_PRELUDE_CALC_HPP
#include "prelude.hpp"
#include <boost/mpl/front.hpp>
#include <boost/mpl/back.hpp>
#include <boost/mpl/at.hpp>
namespace vf
{
  template <char Op, int A, int B> struct arith;
  template <int A, int B> struct arith<'+', A, B> : boost::mpl::int_<A + B> {};
  template <int A, int B> struct arith<'-', A, B> : boost::mpl::int_<A - B> {};
  template <int A, int B> struct arith<'*', A, B> : boost::mpl::int_<A * B> {};
  template <int A, int B> struct arith<'/', A, B> : boost::mpl::int_<A / B> {};
  // state, [operator, operand]
  struct binop { typedef binop type; template <class S, class C> struct apply : arith<boost::mpl::front<C>::type::type::value, S::type::value, boost::mpl::back<C>::type::type::value> {}; };
  // right fold: state is the right operand, [operand, operator]
  struct rbinop { typedef rbinop type; template <class S, class C> struct apply : arith<boost::mpl::back<C>::type::type::value, boost::mpl::front<C>::type::type::value, S::type::value> {}; };
  struct sign { typedef sign type; template <class S, class C> struct apply : boost::mpl::int_<(C::type::value == '-' ? -S::type::value : S::type::value)> {}; };
  struct twice { typedef twice type; template <class S, class C> struct apply : boost::mpl::int_<2 * S::type::value + C::type::value> {}; };
  BOOST_METAPARSE_DEFINE_ERROR(missing_primary, "Missing primary expression");
}
#endif
