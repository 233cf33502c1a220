#ifndef MC_PRELUDE_GEN_HPP
#define MC_PRELUDE_GEN_HPP
#include <boost/metaparse/string.hpp>
#include <cstdio>
#include <string>
namespace vf
{
  using namespace boost::metaparse;
  extern std::string out;
  inline void num(long v) { char b[32]; std::sprintf(b, "%ld", v); out += b; }
  inline void begin(int id) { num(id); out += '\t'; }
  inline void end() { out += '\n'; }
}
#define MC_PRELUDE_HPP
#include "prelude_lit_core.hpp"
#endif
