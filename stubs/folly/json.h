// Stub of folly/json.h: writer and reader for the subset produced by the examples.
#pragma once
#include "folly/dynamic.h"
#include <cctype>
namespace folly {
inline std::string toJson(const dynamic& d) {
  switch (d.t) {
    case dynamic::NULLT: return "null";
    case dynamic::BOOL: return d.i ? "true" : "false";
    case dynamic::INT64: return std::to_string(d.i);
    case dynamic::DOUBLE: return std::to_string(d.d);
    case dynamic::STRING: { std::string r = "\""; for (unsigned char c : d.s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
    case dynamic::ARRAY: { std::string r = "["; for (size_t k = 0; k < d.arr.size(); k++) { if (k) r += ","; r += toJson(d.arr[k]); } return r + "]"; }
    default: { std::string r = "{"; bool f = true; for (auto& kv : d.obj) { if (!f) r += ","; f = false; r += toJson(dynamic(kv.first)) + ":" + toJson(kv.second); } return r + "}"; }
  }
}
inline std::string toPrettyJson(const dynamic& d) { return toJson(d); }
namespace stub {
struct P {
  const std::string& s; size_t p = 0;
  void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
  dynamic val() {
    ws(); if (p >= s.size()) throw std::runtime_error("json");
    char c = s[p];
    if (c == '{') { dynamic r = dynamic::object(); p++; ws(); while (s.at(p) != '}') { dynamic k = val(); ws(); p++; r.insert(k.s, val()); ws(); if (s.at(p) == ',') p++; ws(); } p++; return r; }
    if (c == '[') { dynamic r; r.t = dynamic::ARRAY; p++; ws(); while (s.at(p) != ']') { r.arr.push_back(val()); ws(); if (s.at(p) == ',') p++; ws(); } p++; return r; }
    if (c == '"') { dynamic r(""); p++; while (s.at(p) != '"') { if (s[p] == '\\') { p++; if (s[p] == 'u') { r.s += (char)std::stoi(s.substr(p + 1, 4), nullptr, 16); p += 5; continue; } } r.s += s[p++]; } p++; return r; }
    if (c == 't') { p += 4; return dynamic(true); }
    if (c == 'f') { p += 5; return dynamic(false); }
    if (c == 'n') { p += 4; return dynamic(nullptr); }
    size_t q = p; while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '-')) p++;
    return dynamic((int64_t)std::stoll(s.substr(q, p - q)));
  }
};
}
inline dynamic parseJson(const std::string& s) { stub::P p{s}; return p.val(); }
} // namespace folly
