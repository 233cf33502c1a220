#ifndef MC_PRELUDE_LIT_HPP
#define MC_PRELUDE_LIT_HPP
#include "prelude.hpp"
#include <boost/metaparse/string_value.hpp>
#include <boost/mpl/string.hpp>
#include <boost/mpl/size.hpp>
#include <type_traits>
#include <cstring>
#include "prelude_lit_core.hpp"
#endif
