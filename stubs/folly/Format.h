// Stub of folly/Format.h (folly is not installed here): formatting only, never part of a property.
#pragma once
#include <string>
#include <sstream>
#include <utility>
namespace folly {
namespace stub {
inline void put(std::ostringstream& o, const char*& f) {
  while (*f) { if (f[0]=='{') { while (*f && *f!='}') ++f; if (*f) ++f; return; } o << *f++; }
}
template <class T> auto show(std::ostringstream& o, const T& v, int) -> decltype(o << v, void()) { o << v; }
template <class T> void show(std::ostringstream& o, const T&, long) { o << "?"; }
template <class T> void putArg(std::ostringstream& o, const char*& f, const T& v) { put(o, f); show(o, v, 0); }
} // namespace stub
template <class... A> std::string sformat(const char* f, const A&... a) {
  std::ostringstream o; (stub::putArg(o, f, a), ...); o << f; return o.str();
}
template <class... A> std::string sformat(const std::string& s, const A&... a) { return sformat(s.c_str(), a...); }
} // namespace folly
