#pragma once
#include <folly/Range.h>
#include <string>
namespace folly {
inline std::string humanify(const std::string& s) { return s; }
inline std::string errnoStr(int) { return "errno"; }
template <class D, class O> void split(const D& d, StringPiece in, O& out) {
  StringPiece p = in;
  size_t i;
  while ((i = p.find(d)) != StringPiece::npos) { out.push_back(typename O::value_type(p.data(), i)); p.advance(i + 1); }
  out.push_back(typename O::value_type(p.data(), p.size()));
}
}
