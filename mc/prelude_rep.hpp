#ifndef MC_PRELUDE_REP_HPP
#define MC_PRELUDE_REP_HPP
#include "prelude.hpp"
#include <boost/mpl/string.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/type_traits/integral_constant.hpp>
#endif
