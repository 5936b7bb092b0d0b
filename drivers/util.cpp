#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/mpc_std_lib/util/util.h"
#include <string>
using namespace fbpcf::mpc_std_lib::util;
template <bool s, int8_t w>
void one(Intp<s, w> a, Intp<s, w> b, __m128i k) {
  using I = Intp<s, w>;
  I c = a + b;
  c = a - b;
  c = -a;
  typename I::NativeType v = c;
  c = I(v);
  c = Adapters<I>::convertFromBits(Adapters<I>::convertToBits(a));
  c = Adapters<I>::generateFromKey(k);
}
template <bool s, int8_t w>
void all(__m128i k) {
  one<s, w>(Intp<s, w>(), Intp<s, w>(), k);
  if constexpr (w < 64) all<s, w + 1>(k);
}
void use(__m128i k) {
  all<true, 1>(k);
  all<false, 1>(k);
  Adapters<uint32_t>::convertFromBits(Adapters<uint32_t>::convertToBits(3));
  Adapters<uint32_t>::generateFromKey(k);
  Adapters<AggregationValue>::convertFromBits(Adapters<AggregationValue>::convertToBits(AggregationValue(1)));
  AggregationValue v = Adapters<AggregationValue>::generateFromKey(k);
  v += AggregationValue(1, 2) + AggregationValue(3);
  v = v - v;
  v = -v;
  bool b = v == v;
  std::vector<uint64_t> x;
  x = fbpcf::vector::Add<uint64_t>(x, x);
  x = fbpcf::vector::Xor<uint64_t>(x, x);
  std::function<uint64_t(const uint64_t&)> f = [](const uint64_t& y) { return y + 1; };
  x = fbpcf::functional::map<uint64_t, uint64_t>(x, f);
  std::function<uint64_t(const uint64_t&, const uint64_t&)> g = [](const uint64_t& y, const uint64_t& z) { return y + z; };
  uint64_t r = fbpcf::functional::reduce<uint64_t>(x, g);
}
