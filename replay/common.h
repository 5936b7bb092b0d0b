// Shared by the replay batteries: real code of /repo driven with generated inputs and checked against plain oracles.
#pragma once
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace bat {
inline std::string prop, tier = "quick";
inline uint64_t seed = 1;
inline std::vector<uint64_t> dict;
inline std::atomic<long> count{0};
inline std::atomic<int> nfail{0};
inline std::mutex mu;

inline bool thorough() { return tier == "thorough"; }
inline void sample(const std::string& s) {
  static int n = 0;
  std::lock_guard<std::mutex> l(mu);
  if (n++ < 6) { printf("SAMPLE %s\n", s.c_str()); fflush(stdout); }
}
inline void fail(const std::string& s) {
  std::lock_guard<std::mutex> l(mu);
  if (nfail++ < 10) { printf("FAIL %s\n", s.c_str()); fflush(stdout); }
}
inline void check(bool ok, const std::string& s) {
  count++;
  if (!ok) fail(s);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool bit() { return next() & 1; }
  std::vector<bool> bits(size_t n) { std::vector<bool> r(n); for (size_t i = 0; i < n; i++) r[i] = bit(); return r; }
  // values near the edges of the machine words, dictionary words and uniform ones
  uint64_t word() {
    switch (below(8)) {
      case 0: return below(4);
      case 1: return ~0ull - below(4);
      case 2: return 1ull << below(64);
      case 3: return (1ull << below(64)) - 1;
      case 4: if (!dict.empty()) return dict[below(dict.size())]; return next();
      default: return next();
    }
  }
  std::vector<uint64_t> words(size_t n) { std::vector<uint64_t> r(n); for (auto& x : r) x = word(); return r; }
  std::vector<unsigned char> bytes(size_t n) { std::vector<unsigned char> r(n); for (auto& x : r) x = next(); return r; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) { size_t j = below(i); auto t = v[i - 1]; v[i - 1] = v[j]; v[j] = t; } }
};

template <class T> std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size() && i < 40; i++) o << (i ? "," : "") << +v[i];
  if (v.size() > 40) o << ",...(" << v.size() << ")";
  o << "]";
  return o.str();
}
inline std::string show(const std::vector<bool>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 80; i++) s += v[i] ? '1' : '0';
  return s + "]";
}
template <class... A> std::string cat(const A&... a) {
  std::ostringstream o;
  (o << ... << a);
  return o.str();
}

// run one function per party in its own thread; exceptions are reported as failures of what
template <class F> bool parties(int n, const std::string& what, F f) {
  std::vector<std::thread> th;
  std::atomic<bool> ok{true};
  for (int p = 0; p < n; p++)
    th.emplace_back([&, p] {
      try {
        f(p);
      } catch (const std::exception& e) {
        ok = false;
        fail(what + ": party " + std::to_string(p) + " throws " + e.what());
        // the other parties would wait for messages for ever
        printf("COUNT %ld\n", count.load());
        fflush(stdout);
        _exit(1);
      }
    });
  for (auto& t : th) t.join();
  return ok;
}
// does f throw an exception of type E?
template <class E, class F> bool throws(F f) {
  try { f(); } catch (const E&) { return true; } catch (...) { return false; }
  return false;
}
template <class F> bool throwsAny(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}

struct Case { const char* prop; std::function<void()> run; const char* name; };
inline int run(int argc, char** argv, const std::vector<Case>& cases) {
  if (argc > 1) prop = argv[1];
  if (argc > 2) seed = strtoull(argv[2], 0, 10);
  if (argc > 3) tier = argv[3];
  if (argc > 4 && std::string(argv[4]) != "-") { std::ifstream f(argv[4]); uint64_t x; while (f >> x) dict.push_back(x); }
  for (auto& c : cases) {
    if (prop != "all" && std::string(c.prop).find(prop) == std::string::npos) continue;
    try {
      c.run();
    } catch (const std::exception& e) {
      fail(cat(c.name, " throws ", e.what()));
    }
  }
  printf("COUNT %ld\n", count.load());
  fflush(stdout);
  _exit(nfail ? 1 : 0);
}
} // namespace bat

// stand-ins: this machine's OpenSSL has no rdrand engine, and every random choice follows VERIF_SEED
#include <openssl/engine.h>
#include <openssl/rand.h>
extern "C" {
ENGINE* ENGINE_by_id(const char*) { static char x[8]; return (ENGINE*)x; }
int ENGINE_init(ENGINE*) { return 1; }
int ENGINE_set_default(ENGINE*, unsigned int) { return 1; }
int ENGINE_finish(ENGINE*) { return 1; }
int ENGINE_free(ENGINE*) { return 1; }
int RAND_bytes(unsigned char* buf, int n) {
  static std::mutex m;
  static bat::Rng r(bat::seed * 77 + 5);
  std::lock_guard<std::mutex> l(m);
  for (int i = 0; i < n; i++) buf[i] = (unsigned char)r.next();
  return 1;
}
}
