#pragma once
#include <cstdint>
#include <random>
namespace folly { struct Random {
  static uint32_t rand32() { static std::random_device d; return d(); }
  static uint64_t rand64() { return (uint64_t)rand32() << 32 | rand32(); }
  static uint32_t rand32(uint32_t m) { return rand32() % m; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a + rand32() % (b - a); }
  static uint64_t rand64(uint64_t a, uint64_t b) { return a + rand64() % (b - a); }
  static bool oneIn(uint32_t n) { return rand32() % n == 0; }
  template <class T> static T secureRandom() { return (T)rand64(); }
  static uint32_t secureRand32() { return rand32(); }
  static uint64_t secureRand64() { return rand64(); }
}; }
