// SOURCES:
// Fixed-width integers of every width against 128-bit arithmetic, bit representations, functional helpers.
#include "common.h"
#include <emmintrin.h>
#include <smmintrin.h>
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/mpc_std_lib/util/util.h"
using namespace bat;
using namespace fbpcf::mpc_std_lib::util;
using W = __int128;
using VB = std::vector<bool>;
template <bool s, int w> W wrap(W x) {
  W m = (W)1 << w;
  x = ((x % m) + m) % m;
  return s && x >= m / 2 ? x - m : x;
}
template <bool s, int w> std::string nm(W x) { return cat(s ? "signed " : "unsigned ", w, "-bit ", (long long)x); }
template <bool s, int w> void ints() {
  using I = Intp<s, w>;
  using N = typename I::NativeType;
  Rng r(seed * 131 + w * 2 + s);
  const W lo = s ? -((W)1 << (w - 1)) : 0, hi = s ? ((W)1 << (w - 1)) - 1 : ((W)1 << w) - 1;
  std::vector<W> vs{lo, hi, 0, wrap<s, w>(1), wrap<s, w>(-1), lo + (w > 1), hi - (w > 1), wrap<s, w>(hi / 2)};
  for (int i = 0; i < (thorough() ? 60 : 8); i++) vs.push_back(wrap<s, w>((W)r.word()));
  auto as = [&](const std::string& what, W want, std::function<I()> f) {
    std::string got;
    bool ok = false;
    try {
      N v = f();
      ok = (W)v == want;
      got = cat((long long)v);
    } catch (const std::exception& e) { got = e.what(); }
    check(ok, cat(what, " gives ", got, ", not ", (long long)want));
  };
  for (auto a : vs) {
    as(cat("- ", nm<s, w>(a)), wrap<s, w>(-a), [&] { return -I((N)a); });
    VB bits;
    for (int i = 0; i < w; i++) bits.push_back((int)((a >> i) & 1));
    VB got;
    bool th = throwsAny([&] { got = Adapters<I>::convertToBits(I((N)a)); });
    check(!th && got == bits, cat("bits of ", nm<s, w>(a), ": ", show(got), ", not ", show(bits)));
    as(cat("value of bits ", show(bits), " as ", nm<s, w>(a)), a, [&] { return Adapters<I>::convertFromBits(bits); });
    auto k = _mm_set_epi64x(r.next(), r.next());
    as(cat("value of key ", _mm_extract_epi64(k, 0), " as ", s, " ", w), wrap<s, w>((W)(uint64_t)_mm_extract_epi64(k, 0)), [&] { return Adapters<I>::generateFromKey(k); });
    for (auto b : vs) {
      as(cat(nm<s, w>(a), " + ", (long long)b), wrap<s, w>(a + b), [&] { return I((N)a) + I((N)b); });
      as(cat(nm<s, w>(a), " - ", (long long)b), wrap<s, w>(a - b), [&] { return I((N)a) - I((N)b); });
    }
  }
  for (int m = 0; m < w; m += 1 + w / 6) {
    auto b = r.bits(m);
    W v = 0;
    for (int i = 0; i < m; i++) v |= (W)b[i] << i;
    as(cat("value of ", m, " bits ", show(b), " as ", s, " ", w), wrap<s, w>(v), [&] { return Adapters<I>::convertFromBits(b); });
  }
  check(throwsAny([&] { Adapters<I>::convertFromBits(r.bits(w + 1)); }), cat(w + 1, " bits are taken for a number of ", w));
  if (w < 64 && (W)(N)(hi + 1) == hi + 1) check(throwsAny([&] { I x((N)(hi + 1)); }), cat("range: ", nm<s, w>(hi + 1), " is taken"));
  if (s && w < 64 && (W)(N)(lo - 1) == lo - 1) check(throwsAny([&] { I x((N)(lo - 1)); }), cat("range: ", nm<s, w>(lo - 1), " is taken"));
  if constexpr (w < 64) ints<s, w + 1>();
}
static void words() {
  for (int it = 0; it < (thorough() ? 20000 : 2000); it++) {
    Rng r(seed * 5 + it);
    uint32_t a = r.word(), b = r.word(), c = r.word(), d = r.word();
    auto bits = Adapters<uint32_t>::convertToBits(a);
    bool ok = bits.size() == 32;
    for (int i = 0; ok && i < 32; i++) ok = bits[i] == ((a >> i) & 1);
    check(ok, cat("bits of ", a, ": ", show(bits)));
    check(Adapters<uint32_t>::convertFromBits(bits) == a, cat("bits of ", a, " read back"));
    auto sh = r.bits(r.below(33));
    uint32_t v = 0;
    for (size_t i = 0; i < sh.size(); i++) v |= (uint32_t)sh[i] << i;
    check(Adapters<uint32_t>::convertFromBits(sh) == v, cat("value of bits ", show(sh)));
    auto k = _mm_set_epi64x(r.next(), (uint64_t)b << 32 | a);
    check(Adapters<uint32_t>::generateFromKey(k) == a, "word of a key");
    auto av = Adapters<AggregationValue>::generateFromKey(k);
    check(av.conversionCount == b && av.conversionValue == a, "count and value of a key");
    AggregationValue x(a, b), y(c, d);
    auto p = x + y, q = x - y, n = -x;
    check(p.conversionCount == a + c && p.conversionValue == b + d, "sum of aggregation values");
    check(q.conversionCount == a - c && q.conversionValue == b - d, "difference of aggregation values");
    check(n.conversionCount == -a && n.conversionValue == -b, "negated aggregation value");
    auto z = x;
    z += y;
    check(z == p && (x == y) == (a == c && b == d) && !(x == AggregationValue(a, b + 1)) && !(x == AggregationValue(a + 1, b)), "aggregation values compare");
    auto ab = Adapters<AggregationValue>::convertToBits(x);
    ok = ab.size() == 64;
    for (int i = 0; ok && i < 64; i++) ok = ab[i] == (((i < 32 ? a : b) >> (i % 32)) & 1);
    check(ok && Adapters<AggregationValue>::convertFromBits(ab) == x, "bits of an aggregation value");
  }
  Rng r(seed);
  check(throwsAny([&] { Adapters<uint32_t>::convertFromBits(r.bits(33)); }), "33 bits are taken for a word");
  for (int n : {0, 32, 63, 65}) check(throwsAny([&] { Adapters<AggregationValue>::convertFromBits(r.bits(n)); }), cat(n, " bits are taken for an aggregation value"));
}
static void helpers() {
  for (int it = 0; it < (thorough() ? 3000 : 400); it++) {
    Rng r(seed * 3 + it);
    size_t n = r.below(40), m = r.below(3) ? n : r.below(40);
    auto a = r.words(n), b = r.words(m);
    std::vector<uint64_t> s, x;
    bool t1 = throwsAny([&] { s = fbpcf::vector::Add<uint64_t>(a, b); }), t2 = throwsAny([&] { x = fbpcf::vector::Xor<uint64_t>(a, b); });
    check(t1 == (n != m) && t2 == (n != m), cat("vectors of ", n, " and ", m, " values are ", t1 ? "" : "not ", "rejected"));
    if (n == m) {
      bool ok = s.size() == n && x.size() == n;
      for (size_t i = 0; ok && i < n; i++) ok = s[i] == a[i] + b[i] && x[i] == (a[i] ^ b[i]);
      check(ok, cat("sum or exclusive or of ", show(a), " and ", show(b)));
    }
    std::function<uint64_t(const uint64_t&)> f = [](const uint64_t& v) { return v * 3 + 1; };
    auto mp = fbpcf::functional::map<uint64_t, uint64_t>(a, f);
    bool ok = mp.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok = mp[i] == a[i] * 3 + 1;
    check(ok, cat("map over ", show(a)));
    std::function<uint64_t(const uint64_t&, const uint64_t&)> g = [](const uint64_t& p, const uint64_t& q) { return p * 31 + q * 7; };
    uint64_t got = 0;
    bool th = throwsAny([&] { got = fbpcf::functional::reduce<uint64_t>(a, g); });
    uint64_t w = n ? a[0] : 0;
    for (size_t i = 1; i < n; i++) w = w * 31 + a[i] * 7;
    check(th == (n == 0) && (n == 0 || got == w), cat("reduce over ", show(a)));
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, {
    {"U01", ints<true, 1>, "signed integers"},
    {"U01", ints<false, 1>, "unsigned integers"},
    {"U01", words, "words"},
    {"U01", helpers, "helpers"},
  });
}
