// SOURCES: fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/aes.cpp fbpcf/engine/util/util.cpp fbpcf/primitive/mac/AesCmac.cpp fbpcf/primitive/mac/S2v.cpp
// Symmetric primitives against OpenSSL and plain definitions.
#include <openssl/cmac.h>
#include <openssl/evp.h>
#include <emmintrin.h>
#include <wmmintrin.h>
#include <cstring>
#include "common.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"
using namespace bat;
namespace eu = fbpcf::engine::util;
namespace pm = fbpcf::primitive::mac;
using VM = std::vector<__m128i>;
using VB = std::vector<bool>;
using VC = std::vector<unsigned char>;
static __m128i mk(uint64_t hi, uint64_t lo) { return _mm_set_epi64x(hi, lo); }
static uint64_t lo(__m128i x) { return _mm_extract_epi64(x, 0); }
static uint64_t hi(__m128i x) { return _mm_extract_epi64(x, 1); }
static bool same(__m128i a, __m128i b) { return lo(a) == lo(b) && hi(a) == hi(b); }
static std::string sh(__m128i x) { return cat(std::hex, "0x", hi(x), ":", lo(x)); }
static __m128i rnd(Rng& r) { uint64_t h = r.below(3) ? r.next() : r.word(); return mk(h, r.below(3) ? r.next() : r.word()); }
static VC bytes(__m128i x) { VC r(16); _mm_storeu_si128((__m128i*)r.data(), x); return r; }
static __m128i load(const unsigned char* p) { return _mm_loadu_si128((const __m128i*)p); }

// AES-128 of OpenSSL, block by block
static VM ossl(__m128i key, const VM& in) {
  VM out(in.size());
  auto* c = EVP_CIPHER_CTX_new();
  auto k = bytes(key);
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, k.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  for (size_t i = 0; i < in.size(); i++) {
    auto b = bytes(in[i]);
    VC o(32);
    int l = 0;
    EVP_EncryptUpdate(c, o.data(), &l, b.data(), 16);
    out[i] = load(o.data());
  }
  EVP_CIPHER_CTX_free(c);
  return out;
}
static void cipher() {
  for (int it = 0; it < (thorough() ? 3000 : 400); it++) {
    Rng r(seed * 7 + it);
    auto key = rnd(r);
    VM v(it % 40 == 39 ? 300 + r.below(800) : r.below(30));
    for (auto& x : v) x = rnd(r);
    auto want = ossl(key, v), got = v;
    eu::Aes a(key);
    a.encryptInPlace(got);
    bool ok = got.size() == v.size();
    for (size_t i = 0; ok && i < v.size(); i++) check(same(got[i], want[i]), cat("AES of block ", i, " of ", v.size(), " ", sh(v[i]), " under ", sh(key), " is ", sh(got[i]), ", not ", sh(want[i])));
    check(ok, "encryption changes the number of blocks");
    auto dk = eu::Aes::expandDecryptionKey(key);
    for (size_t i = 0; i < want.size() && i < 3; i++) {
      auto x = _mm_xor_si128(want[i], dk[0]);
      for (int q = 1; q < 10; q++) x = _mm_aesdec_si128(x, dk[q]);
      x = _mm_aesdeclast_si128(x, dk[10]);
      check(same(x, v[i]), cat("decrypting with the keys of ", sh(key), " gives ", sh(x), ", not ", sh(v[i])));
    }
    if (v.empty()) continue;
    auto h = v;
    a.inPlaceHash(h);
    for (size_t i = 0; i < v.size(); i++) check(same(h[i], _mm_xor_si128(want[i], v[i])), cat("hash of ", sh(v[i]), " under ", sh(key), " is ", sh(h[i])));
    int64_t ix = r.bit() ? r.below(1000) : r.next() >> 2;
    auto w = eu::Expander(ix).expand(VM(v));
    auto l = ossl(mk(0, (uint64_t)ix << 1), v), g = ossl(mk(1 + ((uint64_t)ix << 1), 0), v);
    check(w.size() == 2 * v.size(), "a key is expanded to two");
    for (size_t i = 0; i < v.size() && w.size() == 2 * v.size(); i++)
      check(same(w[2 * i], _mm_xor_si128(l[i], v[i])) && same(w[2 * i + 1], _mm_xor_si128(g[i], v[i])), cat("expansion ", ix, " of key ", i, " ", sh(v[i]), " is ", sh(w[2 * i]), " and ", sh(w[2 * i + 1])));
  }
}
// the stream of a seed: encryptions of 0, 1, 2, ...
static VC stream(__m128i key, size_t from, size_t n) {
  VM c(n / 16 + 2);
  for (size_t i = 0; i < c.size(); i++) c[i] = mk(0, from / 16 + i);
  c = ossl(key, c);
  VC r(c.size() * 16);
  memcpy(r.data(), c.data(), r.size());
  return VC(r.begin() + from % 16, r.begin() + from % 16 + n);
}
static void generator() {
  for (int it = 0; it < (thorough() ? 1500 : 250); it++) {
    Rng r(seed * 11 + it);
    auto key = rnd(r);
    int buf = 1 + r.below(it % 3 ? 6 : 200);
    std::unique_ptr<eu::IPrg> g;
    if (it & 1) g = std::make_unique<eu::AesPrg>(key, buf); else g = eu::AesPrgFactory(buf).create(key);
    size_t pos = 0;
    std::string hist;
    for (int q = 0, n = 1 + r.below(12); q < n; q++) {
      uint32_t k = r.below(5) ? r.below(70) : r.below(700);
      int what = r.below(4);
      hist += cat(q ? "," : "", "bbyu"[what], k);
      std::string d = cat("generator with a buffer of ", buf, " blocks, requests ", hist);
      if (what < 2) {
        auto x = g->getRandomBits(k);
        auto s = stream(key, pos, (k + 7) / 8);
        bool ok = x.size() == k;
        for (size_t i = 0; ok && i < k; i++) ok = x[i] == ((s[i / 8] >> (i % 8)) & 1);
        check(ok, cat(d, ": the bits are not the next ones of the stream"));
        pos += (k + 7) / 8;
      } else if (what == 2) {
        check(g->getRandomBytes(k) == stream(key, pos, k), cat(d, ": the bytes are not the next ones of the stream"));
        pos += k;
      } else {
        auto x = g->getRandomUInt64(k);
        auto s = stream(key, pos, k * 8);
        bool ok = x.size() == k;
        for (size_t i = 0; ok && i < k; i++) {
          uint64_t w = 0;
          for (int b = 0; b < 8; b++) w = w << 8 | s[i * 8 + b];
          ok = x[i] == w;
        }
        check(ok, cat(d, ": the integers are not the next ones of the stream"));
        pos += k * 8;
      }
    }
  }
}
static void inPlace() {
  for (int it = 0; it < (thorough() ? 1500 : 250); it++) {
    Rng r(seed * 13 + it);
    auto key = rnd(r);
    eu::AesPrg g(key);
    check(throwsAny([&] { g.getRandomBits(8); }) && throwsAny([&] { g.getRandomBytes(1); }) && throwsAny([&] { g.getRandomUInt64(1); }), "a generator without a buffer serves buffered requests");
    size_t ctr = 0;
    std::string hist;
    for (int q = 0, n = 1 + r.below(8); q < n; q++) {
      size_t k = r.below(4) ? r.below(300) : 128 * r.below(6) + r.below(3);
      if (r.bit()) {
        k = r.below(20);
        hist += cat(" d", k);
        VM x(k);
        g.getRandomDataInPlace(x);
        auto s = stream(key, ctr * 16, k * 16);
        check(k == 0 || memcmp(x.data(), s.data(), k * 16) == 0, cat("requests in place", hist, ": the blocks are not the next ones of the stream"));
        ctr += k;
      } else {
        hist += cat(" b", k);
        VB x(k);
        g.getRandomBitsInPlace(x);
        auto s = stream(key, ctr * 16, k / 8 + 1);
        bool ok = x.size() == k;
        for (size_t i = 0; ok && i < k; i++) ok = x[i] == ((s[i / 8] >> (i % 8)) & 1);
        check(ok, cat("requests in place", hist, ": the bits are not the next ones of the stream"));
        ctr += (k + 127) / 128;
      }
    }
  }
}
static void helpers() {
  for (int it = 0; it < (thorough() ? 20000 : 3000); it++) {
    Rng r(seed * 17 + it);
    auto x = rnd(r);
    unsigned __int128 v = (unsigned __int128)hi(x) << 64 | lo(x);
    check(eu::getLsb(x) == bool(lo(x) & 1) && eu::getMsb(x) == bool(hi(x) >> 63) && eu::getLast64Bits(x) == lo(x), cat("outermost bits of ", sh(x)));
    auto y = x;
    eu::setLsbTo0(y);
    check(same(y, mk(hi(x), lo(x) & ~1ull)), cat("clearing the last bit of ", sh(x), " gives ", sh(y)));
    y = x;
    eu::setLsbTo1(y);
    check(same(y, mk(hi(x), lo(x) | 1)), cat("setting the last bit of ", sh(x), " gives ", sh(y)));
    y = x;
    int s = r.below(128);
    eu::lShiftByBitsInPlace(y, s);
    check(same(y, mk((uint64_t)((v << s) >> 64), (uint64_t)(v << s))), cat("shifting ", sh(x), " left by ", s, " gives ", sh(y)));
    check(same(eu::buildM128i(bytes(x)), x), cat("building a block from the bytes of ", sh(x)));
    size_t n = it % 5 ? r.below(129) : it % 25 ? 64 : 128;
    VB b(n);
    eu::extractLnbToVector(x, b);
    bool ok = b.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok = b[i] == bool((v >> i) & 1);
    check(ok, cat("the last ", n, " bits of ", sh(x)));
    VB big(129 + r.below(300));
    check(throwsAny([&] { eu::extractLnbToVector(x, big); }), "more than 128 bits are extracted from a block");
  }
}
static VC cmac(const VC& key, const VC& text) {
  // RFC 4493 over the block cipher
  auto k = load(key.data());
  auto dbl = [](VC b) {
    bool m = b[0] >> 7;
    for (int i = 0; i < 16; i++) b[i] = b[i] << 1 | (i < 15 ? b[i + 1] >> 7 : 0);
    if (m) b[15] ^= 0x87;
    return b;
  };
  auto k1 = dbl(bytes(ossl(k, {mk(0, 0)})[0])), k2 = dbl(k1);
  size_t n = text.empty() ? 1 : (text.size() + 15) / 16;
  VC last(text.begin() + (n - 1) * 16, text.end());
  bool full = last.size() == 16;
  if (!full) { last.push_back(0x80); last.resize(16); }
  for (int i = 0; i < 16; i++) last[i] ^= full ? k1[i] : k2[i];
  __m128i x = mk(0, 0);
  for (size_t i = 0; i + 1 < n; i++) x = ossl(k, {_mm_xor_si128(x, load(text.data() + i * 16))})[0];
  return bytes(ossl(k, {_mm_xor_si128(x, load(last.data()))})[0]);
}
static void macs() {
  for (int it = 0; it < (thorough() ? 2000 : 300); it++) {
    Rng r(seed * 19 + it);
    auto key = r.bytes(16);
    auto text = r.bytes(it < 70 ? it : r.below(200));
    std::string d = cat("key ", show(key), ", text ", show(text));
    auto c = pm::AesCmacFactory().create(key);
    auto want = cmac(key, text);
    check(c->getMac128(text) == want, cat("AES-CMAC of ", d));
    check(c->getMac128(text) == want && same(c->getMacM128i(text), load(want.data())), cat("AES-CMAC as a block, or asked for again, of ", d));
    auto s = pm::S2vFactory().create(key);
    // the MAC of a zero block, doubled (as the 128-bit integer it is loaded as), goes into the last sixteen bytes
    auto z = load(cmac(key, VC(16)).data());
    unsigned __int128 v = (unsigned __int128)hi(z) << 64 | lo(z);
    v = v << 1 ^ (v >> 127 ? 0x87 : 0);
    auto m = bytes(mk((uint64_t)(v >> 64), (uint64_t)v));
    auto t = text;
    if (t.size() < 16) { t.push_back(0x80); t.resize(16); }
    for (int i = 0; i < 16; i++) t[t.size() - 16 + i] ^= m[i];
    auto w = cmac(key, t);
    check(s->getMac128(text) == w && same(s->getMacM128i(text), load(w.data())), cat("synthetic IV of ", d));
  }
}
static void noise() {
  std::set<std::pair<uint64_t, uint64_t>> seen;
  for (int i = 0; i < 50; i++) {
    auto x = eu::getRandomM128iFromSystemNoise();
    seen.insert({hi(x), lo(x)});
  }
  check(seen.size() == 50, "random seeds repeat");
}
int main(int argc, char** argv) {
  return run(argc, argv, {
    {"C01", cipher, "AES"},
    {"C01", generator, "generator"},
    {"C01", inPlace, "generator in place"},
    {"C01", helpers, "blocks"},
    {"C01", macs, "MACs"},
    {"C01", noise, "seeds"},
  });
}
