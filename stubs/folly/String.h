#pragma once
#include <string>
#include <vector>
#include <sstream>
namespace folly {
template <class C> std::string join(const std::string& d, const C& c) { std::ostringstream o; bool f = true; for (const auto& x : c) { if (!f) o << d; f = false; o << x; } return o.str(); }
template <class V> void split(char d, const std::string& s, V& out) {
  size_t p = 0;
  for (;;) { size_t q = s.find(d, p); std::string t = s.substr(p, q == std::string::npos ? q : q - p);
    std::istringstream i(t); typename V::value_type v{}; i >> v; out.push_back(v);
    if (q == std::string::npos) return; p = q + 1; }
}
}
