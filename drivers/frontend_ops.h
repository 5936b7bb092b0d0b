// Operations of the frontend types as plain functions, so that each instantiation is reachable by name.
#pragma once
#include <array>
#include <memory>
namespace drv {
using namespace fbpcf::frontend;
template <bool S, int8_t W, bool P, bool Q, bool BT>
struct D {
  using L = Int<S, W, P, 0, BT>;
  using R = Int<S, W, Q, 0, BT>;
  using U = typename std::conditional<S, int64_t, uint64_t>::type;
  using V = typename std::conditional<BT, std::vector<U>, U>::type;
  static auto add(const L& a, const R& b) { return a + b; }
  static auto sub(const L& a, const R& b) { return a - b; }
  static auto neg(const L& a) requires(S) { return -a; }
  static auto lt(const L& a, const R& b) { return a < b; }
  static auto le(const L& a, const R& b) { return a <= b; }
  static auto gt(const L& a, const R& b) { return a > b; }
  static auto ge(const L& a, const R& b) { return a >= b; }
  static auto eq(const L& a, const R& b) { return a == b; }
  static auto muxs(const L& a, const Bit<true, 0, BT>& c, const R& b) { return a.mux(c, b); }
  static auto muxp(const L& a, const Bit<false, 0, BT>& c, const R& b) { return a.mux(c, b); }
  static auto max(const L& a, const R& b) { return fbpcf::frontend::max(a, b); }
  static auto min(const L& a, const R& b) { return fbpcf::frontend::min(a, b); }
  static auto abs(const L& a) requires(S) { return fbpcf::frontend::abs(a); }
  static auto pub(const V& v) requires(!P) { return L(v); }
  static auto priv(const V& v, int party) requires(P) { return L(v, party); }
  static auto value(const L& a) requires(!P) { return a.getValue(); }
  static auto open(const L& a, int party) requires(P) { return a.openToParty(party); }
  static auto extract(const L& a) requires(P) { return a.extractIntShare(); }
  static auto recover(typename L::ExtractedInt& x) requires(P) { return L(std::move(x)); }
  static auto shares(const V& v) requires(P) { return typename L::ExtractedInt(v); }
  static auto sharesValue(const typename L::ExtractedInt& v) requires(P) { return v.getValue(); }
  static auto sharesBits(const typename L::ExtractedInt& v) requires(P) { return v.getBooleanShares(); }
  static auto up(const L& a) requires(W < 64) { return a.template cast<(W < 32 ? W * 2 + 1 : 64)>(); }
  static auto same(const L& a) { return a.template cast<W>(); }
  static auto down(const L& a) requires(W > 1) { return a.template cast<(W + 1) / 2>(); }
  static auto batch(const L& a, const std::vector<L>& o) requires(BT && P) { return a.batchingWith(o); }
  static auto unbatch(const L& a, std::shared_ptr<std::vector<uint32_t>> s) requires(BT && P) { return a.unbatching(s); }
  static auto size(const L& a) requires(BT) { return a.getBatchSize(); }
  static auto index(const L& a, size_t i) { return a[i]; }
};
template <bool P, bool Q, bool BT>
struct B {
  using L = Bit<P, 0, BT>;
  using R = Bit<Q, 0, BT>;
  using V = typename std::conditional<BT, std::vector<bool>, bool>::type;
  static auto band(const L& a, const R& b) { return a & b; }
  static auto bxor(const L& a, const R& b) { return a ^ b; }
  static auto bor(const L& a, const R& b) { return a | b; }
  static auto bnot(const L& a) { return !a; }
  static auto bandv(const L& a, const std::vector<R>& b) { return a & b; }
  static auto bands(const L& a, const std::array<R, 3>& b) { return a & b; }
  static auto copy(const L& a) { L b(a); return b; }
  static void assign(L& a, const L& b) { a = b; }
  static void moveAssign(L& a, L& b) { a = std::move(b); }
  static auto moved(L& a) { L b(std::move(a)); return b; }
  static auto pub(const V& v) requires(!P) { return L(v); }
  static auto priv(const V& v, int party) requires(P) { return L(v, party); }
  static auto value(const L& a) requires(!P) { return a.getValue(); }
  static auto open(const L& a, int party) requires(P) { return a.openToParty(party); }
  static auto extract(const L& a) requires(P) { return a.extractBit(); }
  static auto recover(typename L::ExtractedBit& x) requires(P) { return L(std::move(x)); }
  static auto batch(const L& a, const std::vector<L>& o) requires(BT) { return a.batchingWith(o); }
  static auto unbatch(const L& a, std::shared_ptr<std::vector<uint32_t>> s) requires(BT) { return a.unbatching(s); }
  static auto size(const L& a) requires(BT) { return a.getBatchSize(); }
  using SL = BitString<P, 0, BT>;
  using SR = BitString<Q, 0, BT>;
  static auto sand(const SL& a, const SR& b) { return a & b; }
  static auto sxor(const SL& a, const SR& b) { return a ^ b; }
  static auto snot(const SL& a) { return !a; }
  static auto smux(const SL& a, const Bit<true, 0, BT>& c, const SR& b) { return a.mux(c, b); }
  static auto smuxp(const SL& a, const Bit<false, 0, BT>& c, const SR& b) { return a.mux(c, b); }
  static auto spub(const std::vector<V>& v) requires(!P) { return SL(v); }
  static auto spriv(const std::vector<V>& v, int party) requires(P) { return SL(v, party); }
  static auto svalue(const SL& a) requires(!P) { return a.getValue(); }
  static auto sopen(const SL& a, int party) requires(P) { return a.openToParty(party); }
  static auto sextract(const SL& a) requires(P) { return a.extractStringShare(); }
  static auto srecover(typename SL::ExtractedString& x) requires(P) { return SL(std::move(x)); }
  static auto sshares(const std::vector<V>& v) requires(P) { return typename SL::ExtractedString(v); }
  static auto ssharesValue(const typename SL::ExtractedString& v) requires(P) { return v.getValue(); }
  static auto sbatch(const SL& a, const std::vector<SL>& o) requires(BT && P) { return a.batchingWith(o); }
  static auto sunbatch(const SL& a, std::shared_ptr<std::vector<uint32_t>> s) requires(BT) { return a.unbatching(s); }
  static auto ssize(const SL& a) requires(BT) { return a.getBatchSize(); }
};
} // namespace drv
