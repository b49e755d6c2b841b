// Stand-in for boost::iequals: the comparison of a parameter with a constant
// text, without regard to case, is the external function same_text, which
// enters the proofs by its contract.
#pragma once
#include_next <boost/algorithm/string.hpp>
#include <strings.h>
#include <string>
extern "C" __attribute__((noinline, weak)) bool same_text(const char * a, const char * b) { return strcasecmp(a, b) == 0; }
namespace boost {
inline bool iequals(const char * a, const char * b) { return same_text(a, b); }
inline bool iequals(const std::string & a, const char * b) { return same_text(a.c_str(), b); }
} // namespace boost
