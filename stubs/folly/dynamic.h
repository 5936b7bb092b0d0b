// Stub of folly/dynamic.h: a small ordered JSON-like value, enough for the metrics and example code.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace folly {
class dynamic {
 public:
  enum Type { NULLT, BOOL, INT64, DOUBLE, STRING, ARRAY, OBJECT };
  struct ObjectMaker;
  struct ObjectTag { dynamic operator()() const; template <class V> ObjectMaker operator()(const char* k, V v) const; };
  static constexpr ObjectTag object{};
  dynamic() : t(NULLT) {}
  dynamic(std::nullptr_t) : t(NULLT) {}
  dynamic(ObjectTag) : t(OBJECT) {}
  dynamic(const char* v) : t(STRING), s(v) {}
  dynamic(const std::string& v) : t(STRING), s(v) {}
  template <class T, std::enable_if_t<std::is_same<T, bool>::value, int> = 0> dynamic(T v) : t(BOOL), i(v) {}
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0> dynamic(T v) : t(INT64), i((int64_t)v) {}
  template <class T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0> dynamic(T v) : t(DOUBLE), d(v) {}
  template <class V> static dynamic array_range(const V& v) { dynamic r; r.t = ARRAY; for (const auto& x : v) r.arr.push_back(dynamic(x)); return r; }
  int64_t asInt() const { return t == DOUBLE ? (int64_t)d : t == STRING ? std::stoll(s) : i; }
  int64_t getInt() const { return asInt(); }
  bool asBool() const { return i != 0; }
  double asDouble() const { return t == DOUBLE ? d : (double)i; }
  const std::string& asString() const { return s; }
  const std::string& getString() const { return s; }
  dynamic& operator[](const std::string& k) { if (t == NULLT) t = OBJECT; return obj[k]; }
  const dynamic& operator[](const std::string& k) const { return obj.at(k); }
  const dynamic& at(const std::string& k) const { return obj.at(k); }
  const dynamic& operator[](size_t k) const { return arr.at(k); }
  const dynamic& at(size_t k) const { return arr.at(k); }
  size_t size() const { return t == ARRAY ? arr.size() : obj.size(); }
  std::vector<dynamic>::const_iterator begin() const { return arr.begin(); }
  std::vector<dynamic>::const_iterator end() const { return arr.end(); }
  std::vector<std::pair<dynamic, dynamic>> items() const;
  size_t count(const std::string& k) const { return obj.count(k); }
  bool isNumber() const { return t == INT64 || t == DOUBLE; }
  dynamic& operator+=(const dynamic& o) { if (t == DOUBLE || o.t == DOUBLE) { d = asDouble() + o.asDouble(); t = DOUBLE; } else { i += o.i; t = INT64; } return *this; }
  void push_back(const dynamic& v) { t = ARRAY; arr.push_back(v); }
  template <class K, class V> void insert(const K& k, V v) { t = OBJECT; obj[k] = dynamic(v); }
  bool operator==(const dynamic& o) const { return t == o.t && i == o.i && s == o.s && arr == o.arr && obj == o.obj; }
  bool isArray() const { return t == ARRAY; }
  Type type() const { return t; }
  Type t; int64_t i = 0; double d = 0; std::string s; std::vector<dynamic> arr; std::map<std::string, dynamic> obj;
  void merge_patch(const dynamic& o) { for (auto& kv : o.obj) obj[kv.first] = kv.second; }
};
struct dynamic::ObjectMaker {
  dynamic v;
  template <class V> ObjectMaker& operator()(const char* k, V x) { v.insert(k, x); return *this; }
  operator dynamic() const { return v; }
};
inline dynamic dynamic::ObjectTag::operator()() const { dynamic r; r.t = OBJECT; return r; }
template <class V> dynamic::ObjectMaker dynamic::ObjectTag::operator()(const char* k, V v) const { ObjectMaker m; m.v.t = OBJECT; m.v.insert(k, v); return m; }
inline std::vector<std::pair<dynamic, dynamic>> dynamic::items() const { std::vector<std::pair<dynamic, dynamic>> r; for (auto& kv : obj) r.emplace_back(dynamic(kv.first), kv.second); return r; }
} // namespace folly
