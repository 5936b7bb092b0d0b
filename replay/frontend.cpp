// SOURCES: fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp
// OPT: -O0
#include "common.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "../drivers/frontend_ops.h"
using namespace bat;
using namespace fbpcf;
using namespace fbpcf::frontend;
using SK = scheduler::SchedulerKeeper<0>;
using VB = std::vector<bool>;

struct Open {  // a plaintext scheduler whose wires disappear with their last reference
  Open() { SK::setScheduler(std::make_unique<scheduler::PlaintextScheduler>(scheduler::WireKeeper::createWithUnorderedMap())); }
  ~Open() { SK::freeScheduler(); }
};
static long live() { auto s = SK::getWireStatistics(); return (long)s.first - (long)s.second; }

template <class T> struct One { static std::vector<T> list(const T& v) { return {v}; } };
template <> struct One<VB> { static VB list(const VB& v) { return v; } };
template <class T> struct One<std::vector<T>> { static std::vector<T> list(const std::vector<T>& v) { return v; } };

static uint64_t narrow(bool S, int W, uint64_t x) {
  if (W == 64) return x;
  x &= (1ull << W) - 1;
  if (S && (x >> (W - 1) & 1)) x |= ~0ull << W;
  return x;
}
static uint64_t pick(Rng& r, bool S, int W) {
  uint64_t v;
  switch (r.below(6)) {
    case 0: v = 0; break;
    case 1: v = ~0ull; break;
    case 2: v = 1ull << (W - 1); break;
    case 3: v = (1ull << (W - 1)) - 1; break;
    default: v = r.word();
  }
  return narrow(S, W, v);
}

template <bool S, int8_t W, bool P, bool Q, bool BT>
static void ints(int which) {
  using D = drv::D<S, W, P, Q, BT>;
  using U = typename D::U;
  using V = typename D::V;
  using L = typename D::L;
  using R = typename D::R;
  std::string nm = cat(S ? "Int" : "UInt", (int)W, P ? " secret" : " public", Q ? "/secret" : "/public", BT ? " batch" : "");
  Rng r(seed * 131 + W * 8 + S * 4 + P * 2 + Q + BT * 1000);
  auto ltf = [](uint64_t a, uint64_t b) { return S ? (int64_t)a < (int64_t)b : a < b; };
  int rounds = W <= 3 && !BT ? (1 << (2 * W)) : thorough() ? 300 : 40;
  for (int it = 0; it < rounds; it++) {
    Open world;
    {
      size_t n = BT ? 1 + r.below(5) : 1;
      std::vector<uint64_t> x(n), y(n);
      for (size_t i = 0; i < n; i++) {
        x[i] = pick(r, S, W); y[i] = r.below(5) ? pick(r, S, W) : x[i];
        if (W <= 3 && !BT) { x[i] = narrow(S, W, it & ((1 << W) - 1)); y[i] = narrow(S, W, it >> W); }
      }
      VB c = r.bits(n);
      V vx, vy;
      typename std::conditional<BT, VB, bool>::type vc;
      if constexpr (BT) { vx = V(x.begin(), x.end()); vy = V(y.begin(), y.end()); vc = c; } else { vx = (U)x[0]; vy = (U)y[0]; vc = c[0]; }
      auto mk = [](auto tag, const auto& v, int p) {
        using I = decltype(tag);
        if constexpr (std::is_same<I, typename std::conditional<true, Int<S, W, true, 0, BT>, int>::type>::value) return I(v, p); else return I(v);
      };
      L a = mk(L(), vx, 0);
      R b = mk(R(), vy, 1);
      std::string what = cat(nm, " x=", show(x), " y=", show(y));
      auto read = [&](auto pub) { auto v = One<V>::list(pub.getValue()); std::vector<uint64_t> o; for (auto e : v) o.push_back((uint64_t)(int64_t)e); return o; };
      auto readb = [&](auto pub) { return One<typename std::conditional<BT, VB, bool>::type>::list(pub.getValue()); };
      constexpr bool RS = P || Q;
      auto val = [&](const auto& o) { if constexpr (RS) return read(o.openToParty(0)); else return read(o); };
      auto bval = [&](const auto& o) { if constexpr (RS) { auto v = readb(o.openToParty(0)); return VB(v.begin(), v.end()); } else { auto v = readb(o); return VB(v.begin(), v.end()); } };
      auto valL = [&](const auto& o) { if constexpr (P) return read(o.openToParty(0)); else return read(o); };
      auto chk = [&](const char* op, const std::vector<uint64_t>& got, std::function<uint64_t(size_t)> f) {
        bool ok = got.size() == n;
        for (size_t i = 0; ok && i < n; i++) ok = got[i] == f(i);
        check(ok, cat(what, " ", op, " gives ", show(got)));
      };
      auto chkb = [&](const char* op, const VB& got, std::function<bool(size_t)> f) {
        bool ok = got.size() == n;
        for (size_t i = 0; ok && i < n; i++) ok = got[i] == f(i);
        check(ok, cat(what, " ", op, " gives ", show(got)));
      };
      if (which == 2) {
        chk("+", val(D::add(a, b)), [&](size_t i) { return narrow(S, W, x[i] + y[i]); });
        chk("-", val(D::sub(a, b)), [&](size_t i) { return narrow(S, W, x[i] - y[i]); });
        chk("max", val(D::max(a, b)), [&](size_t i) { return ltf(x[i], y[i]) ? y[i] : x[i]; });
        chk("min", val(D::min(a, b)), [&](size_t i) { return ltf(x[i], y[i]) ? x[i] : y[i]; });
        chkb("<", bval(D::lt(a, b)), [&](size_t i) { return ltf(x[i], y[i]); });
        chkb("<=", bval(D::le(a, b)), [&](size_t i) { return !ltf(y[i], x[i]); });
        chkb(">", bval(D::gt(a, b)), [&](size_t i) { return ltf(y[i], x[i]); });
        chkb(">=", bval(D::ge(a, b)), [&](size_t i) { return !ltf(x[i], y[i]); });
        chkb("==", bval(D::eq(a, b)), [&](size_t i) { return x[i] == y[i]; });
        if constexpr (S) {
          chk("negation", valL(D::neg(a)), [&](size_t i) { return narrow(S, W, -x[i]); });
          chk("abs", valL(D::abs(a)), [&](size_t i) { return (int64_t)x[i] < 0 ? narrow(S, W, -x[i]) : x[i]; });
        }
        {
          Bit<true, 0, BT> ch(vc, 0);
          auto o = D::muxs(a, ch, b);
          chk("mux secret", read(o.openToParty(0)), [&](size_t i) { return c[i] ? y[i] : x[i]; });
        }
        {
          Bit<false, 0, BT> ch(vc);
          chk("mux public", val(D::muxp(a, ch, b)), [&](size_t i) { return c[i] ? y[i] : x[i]; });
        }
        if (it == 0) sample(what);
      } else {
        chk("value", valL(a), [&](size_t i) { return x[i]; });
        if constexpr (W < 64) {
          V bad = vx;
          uint64_t over = S ? (r.bit() ? (1ull << (W - 1)) : (uint64_t)(-(int64_t)(1ull << (W - 1)) - 1)) : (1ull << W);
          if (r.bit()) over = S ? ((int64_t)over < 0 ? 1ull << 63 : ~0ull >> 1) : ~0ull;
          if constexpr (BT) bad[r.below(n)] = (U)over; else bad = (U)over;
          bool t = throwsAny([&] { L z = mk(L(), bad, 0); });
          check(t, cat(nm, " out of range input ", (int64_t)over, " accepted"));
        }
        if constexpr (P) {
          auto ex = D::extract(a);
          auto rec = D::recover(ex);
          chk("extract and recover", read(rec.openToParty(0)), [&](size_t i) { return x[i]; });
          auto ex2 = D::shares(vx);
          auto g = One<V>::list(D::sharesValue(ex2));
          std::vector<uint64_t> o; for (auto e : g) o.push_back((uint64_t)(int64_t)e);
          chk("shares value", o, [&](size_t i) { return x[i]; });
          auto rec2 = D::recover(ex2);
          chk("shares from a number", read(rec2.openToParty(0)), [&](size_t i) { return x[i]; });
        }
        chk("cast to the same width", valL(D::same(a)), [&](size_t i) { return x[i]; });
        if constexpr (W < 64) chk("wider cast", valL(D::up(a)), [&](size_t i) { return x[i]; });
        if constexpr (W > 1) chk("narrower cast", valL(D::down(a)), [&](size_t i) { return narrow(S, (W + 1) / 2, x[i]); });
        for (int k = 0; k < W; k++) {
          auto bit = D::index(a, k);
          VB g;
          if constexpr (P) { auto t = readb(bit.openToParty(0)); g = VB(t.begin(), t.end()); } else { auto t = readb(bit); g = VB(t.begin(), t.end()); }
          chkb("bit", g, [&](size_t i) { return (x[i] >> k) & 1; });
        }
        check(throwsAny([&] { D::index(a, W); }), nm + " index beyond the width accepted");
        if constexpr (BT) {
          check(D::size(a) == n, nm + " batch size");
          if constexpr (P && Q) {
            size_t k = r.below(8);
            std::vector<L> others;
            std::vector<V> vals{vx};
            auto strat = std::make_shared<std::vector<uint32_t>>();
            strat->push_back(n);
            for (size_t q = 0; q < k; q++) {
              size_t m = 1 + r.below(4);
              V w; for (size_t i = 0; i < m; i++) w.push_back((U)pick(r, S, W));
              others.push_back(L(w, 0)); vals.push_back(w); strat->push_back(m);
            }
            auto all = D::batch(a, others);
            std::vector<uint64_t> want; for (auto& w : vals) for (auto e : w) want.push_back((uint64_t)(int64_t)e);
            check(read(all.openToParty(0)) == want, cat(nm, " batching ", show(want), " gives ", show(read(all.openToParty(0)))));
            auto parts = D::unbatch(all, strat);
            check(parts.size() == vals.size(), nm + " number of unbatched parts");
            for (size_t q = 0; q < parts.size() && q < vals.size(); q++) {
              auto g = parts[q].openToParty(0).getValue();
              check(g == vals[q], cat(nm, " unbatched part ", q, " is ", show(g), " not ", show(vals[q])));
            }
          }
        }
      }
    }
    check(live() == 0, nm + " leaves wires behind");
  }
}

template <bool P, bool Q, bool BT>
static void bits(int which) {
  using D = drv::B<P, Q, BT>;
  using V = typename D::V;
  using L = typename D::L;
  using R = typename D::R;
  using SL = typename D::SL;
  using SR = typename D::SR;
  std::string nm = cat(P ? "secret" : "public", Q ? "/secret" : "/public", BT ? " batch bit" : " bit");
  Rng r(seed * 17 + P * 2 + Q + BT * 4);
  auto list = [](const V& v) { return One<V>::list(v); };
  auto lst = [&](const V& v) { auto t = list(v); return VB(t.begin(), t.end()); };
  auto mkL = [](const V& v) { if constexpr (P) return L(v, 0); else return L(v); };
  auto mkR = [](const V& v) { if constexpr (Q) return R(v, 0); else return R(v); };
  auto mkSL = [](const std::vector<V>& v) { if constexpr (P) return SL(v, 0); else return SL(v); };
  auto mkSR = [](const std::vector<V>& v) { if constexpr (Q) return SR(v, 0); else return SR(v); };
  auto get = [&](const auto& o) { if constexpr (requires { typename std::decay_t<decltype(o)>; }) {} if constexpr (std::is_same_v<std::decay_t<decltype(o)>, Bit<true, 0, BT>>) return lst(o.openToParty(0).getValue()); else return lst(o.getValue()); };
  auto gets = [&](const auto& o) { std::vector<V> v; if constexpr (std::is_same_v<std::decay_t<decltype(o)>, BitString<true, 0, BT>>) v = o.openToParty(0).getValue(); else v = o.getValue(); return v; };
  for (int it = 0; it < (thorough() ? 800 : 150); it++) {
    Open world;
    {
      size_t n = BT ? 1 + r.below(6) : 1;
      auto mkv = [&] { VB b = r.bits(n); V v; if constexpr (BT) v = b; else v = b[0]; return v; };
      V x = mkv(), y = mkv(), z = mkv();
      std::string what = cat(nm, " x=", show(lst(x)), " y=", show(lst(y)));
      auto zip = [&](const V& a, const V& b, auto f) { VB p = lst(a), q = lst(b), o(p.size()); for (size_t i = 0; i < p.size(); i++) o[i] = f(p[i], q[i]); return o; };
      auto AND = [](bool a, bool b) { return a && b; };
      auto XOR = [](bool a, bool b) { return a != b; };
      L a = mkL(x); R b = mkR(y), c = mkR(z);
      if (which == 1) {
        check(get(D::band(a, b)) == zip(x, y, AND), what + " &");
        check(get(D::bxor(a, b)) == zip(x, y, XOR), what + " ^");
        check(get(D::bor(a, b)) == zip(x, y, [](bool p, bool q) { return p || q; }), what + " |");
        check(get(D::bnot(a)) == zip(x, x, [](bool p, bool) { return !p; }), what + " !");
        for (size_t k : {size_t(0), size_t(1), size_t(3)}) {
          std::vector<R> rs; std::vector<V> vs;
          for (size_t i = 0; i < k; i++) { vs.push_back(mkv()); rs.push_back(mkR(vs[i])); }
          if (k == 0) continue;
          auto o = D::bandv(a, rs);
          check(o.size() == k, what + " composite size");
          for (size_t i = 0; i < o.size() && i < k; i++) check(get(o[i]) == zip(x, vs[i], AND), cat(what, " composite &, operand ", i));
        }
        std::array<R, 3> ar{b, c, b};
        auto o = D::bands(a, ar);
        for (int i = 0; i < 3; i++) check(get(o[i]) == zip(x, i == 1 ? z : y, AND), cat(what, " composite & array, operand ", i));
        if constexpr (P) {
          auto ex = D::extract(a);
          check(get(D::recover(ex)) == lst(x), what + " extract and recover");
        }
        if constexpr (BT) check(D::size(a) == n, what + " size");
        // references
        long base = live();
        {
          L p = D::copy(a);
          L q = mkL(z);
          D::assign(q, a);
          check(get(p) == lst(x) && get(q) == lst(x), what + " copies");
          check(live() == base, nm + ": copies and assignments use no new wires and release old ones");
          L u = D::moved(p);
          check(get(u) == lst(x), what + " move");
          L w = mkL(z);
          D::moveAssign(w, u);
          check(get(w) == lst(x) && live() == base, what + " move assignment");
          L s = mkL(z);
          D::assign(s, s);
          bool ok = false;
          try { ok = get(s) == lst(z); } catch (const std::exception&) {}
          check(ok, nm + " self assignment loses the value");
          L none;
          D::assign(s, none);
          check(live() == base, nm + " assigning an empty bit releases the wire");
          D::assign(none, a);
          check(get(none) == lst(x), nm + " assigning to an empty bit");
        }
        check(live() == base && get(a) == lst(x), nm + " references after scopes end");
        // strings
        size_t len = r.below(5);
        std::vector<V> xs, ys;
        for (size_t i = 0; i < len; i++) { xs.push_back(mkv()); ys.push_back(mkv()); }
        SL A = mkSL(xs); SR B = mkSR(ys);
        auto same = [&](const char* op, const std::vector<V>& got, auto f) {
          bool ok = got.size() == len;
          for (size_t i = 0; ok && i < len; i++) ok = lst(got[i]) == f(i);
          check(ok, cat(nm, " string of ", len, " ", op));
        };
        same("value", gets(A), [&](size_t i) { return lst(xs[i]); });
        same("&", gets(D::sand(A, B)), [&](size_t i) { return zip(xs[i], ys[i], AND); });
        same("^", gets(D::sxor(A, B)), [&](size_t i) { return zip(xs[i], ys[i], XOR); });
        same("!", gets(D::snot(A)), [&](size_t i) { return zip(xs[i], xs[i], [](bool p, bool) { return !p; }); });
        auto mx = [&](size_t i) { VB p = lst(xs[i]), q = lst(ys[i]), cc = lst(z), o(p.size()); for (size_t k = 0; k < o.size(); k++) o[k] = cc[k] ? q[k] : p[k]; return o; };
        if (len) {
          Bit<true, 0, BT> cs(z, 0); Bit<false, 0, BT> cp(z);
          same("mux secret", gets(D::smux(A, cs, B)), mx);
          same("mux public", gets(D::smuxp(A, cp, B)), mx);
        }
        std::vector<V> longer = ys; longer.push_back(mkv());
        SR BL = mkSR(longer);
        Bit<true, 0, BT> cs(z, 0);
        check(throwsAny([&] { D::sand(A, BL); }) && throwsAny([&] { D::sxor(A, BL); }) && throwsAny([&] { D::smux(A, cs, BL); }), nm + " strings of different lengths accepted");
        if constexpr (P) {
          auto e = D::sextract(A);
          same("shares", D::ssharesValue(e), [&](size_t i) { return lst(xs[i]); });
          same("extract and recover", gets(D::srecover(e)), [&](size_t i) { return lst(xs[i]); });
        }
        if constexpr (BT) {
          if (len) check(D::ssize(A) == n, nm + " string batch size");
          else check(throwsAny([&] { D::ssize(A); }), nm + " batch size of an empty string");
        }
        if (it == 0) sample(what);
      } else if constexpr (BT) {
        size_t k = r.below(9);
        auto strat = std::make_shared<std::vector<uint32_t>>();
        std::vector<VB> parts{lst(x)};
        std::vector<L> others; std::vector<SL> sothers;
        std::vector<VB> parts2{lst(y)};
        for (size_t q = 0; q < k; q++) { size_t m = 1 + r.below(5); parts.push_back(r.bits(m)); parts2.push_back(r.bits(m)); others.push_back(mkL(parts.back())); sothers.push_back(mkSL({parts.back(), parts2.back()})); }
        VB all, all2;
        for (auto& p : parts) { strat->push_back(p.size()); for (bool v : p) all.push_back(v); }
        for (auto& p : parts2) for (bool v : p) all2.push_back(v);
        auto o = D::batch(a, others);
        check(get(o) == all, cat(nm, " batching gives ", show(get(o)), " not ", show(all)));
        auto u = D::unbatch(o, strat);
        check(u.size() == parts.size(), nm + " unbatched parts");
        for (size_t q = 0; q < u.size() && q < parts.size(); q++) check(get(u[q]) == parts[q], cat(nm, " unbatched part ", q));
        if constexpr (P) {
          SL A = mkSL({x, y});
          auto so = D::sbatch(A, sothers);
          auto sv = gets(so);
          check(sv.size() == 2 && sv[0] == all && sv[1] == all2, nm + " string batching");
          auto su = D::sunbatch(so, strat);
          check(su.size() == parts.size(), nm + " unbatched strings");
          for (size_t q = 0; q < su.size() && q < parts.size(); q++) { auto g = gets(su[q]); check(g.size() == 2 && g[0] == parts[q] && g[1] == parts2[q], cat(nm, " unbatched string ", q)); }
          SL S1 = mkSL({x});
          check(throwsAny([&] { D::sbatch(A, {S1}); }), nm + " batching strings of different lengths accepted");
        }
      }
    }
    check(live() == 0, nm + " leaves wires behind");
  }
}

#define W1(w) ints<true, w, true, true, false>(k); ints<false, w, true, true, false>(k);
#define MIX(S, W, B) ints<S, W, true, false, B>(k); ints<S, W, false, true, B>(k); ints<S, W, false, false, B>(k);
static void allInts(int k) {
  W1(1) W1(2) W1(3) W1(5) W1(8) W1(16) W1(32) W1(33) W1(63) W1(64)
  MIX(true, 8, false) MIX(false, 8, false) MIX(true, 64, false) MIX(false, 64, false)
  MIX(true, 4, true) MIX(false, 4, true)
  ints<true, 1, true, true, true>(k); ints<false, 1, true, true, true>(k);
  ints<true, 8, true, true, true>(k); ints<false, 8, true, true, true>(k);
  ints<true, 64, true, true, true>(k); ints<false, 64, true, true, true>(k);
}
static void allBits(int k) {
  bits<true, true, false>(k); bits<true, false, false>(k); bits<false, true, false>(k); bits<false, false, false>(k);
  bits<true, true, true>(k); bits<true, false, true>(k); bits<false, true, true>(k); bits<false, false, true>(k);
}
int main(int argc, char** argv) {
  return run(argc, argv, {
    {"F01", [] { allBits(1); }, "bits"},
    {"F02", [] { allInts(2); }, "integers"},
    {"F03", [] { allInts(3); allBits(3); }, "conversions and batching"},
  });
}
