// SOURCES: fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/aes.cpp fbpcf/engine/util/util.cpp fbpcf/engine/tuple_generator/TupleGenerator.cpp fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.cpp fbpcf/engine/tuple_generator/ProductShareGenerator.cpp fbpcf/engine/tuple_generator/DummyProductShareGenerator.cpp fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplier.cpp
#include "dealer.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGenerator.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransfer.h"
#include "fbpcf/engine/util/Masker.h"
using namespace bat;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
namespace fer = fbpcf::engine::tuple_generator::oblivious_transfer::ferret;
namespace eu = fbpcf::engine::util;
using VB = std::vector<bool>;
using VU = std::vector<uint64_t>;
using VM = std::vector<__m128i>;
using Agent = std::unique_ptr<comm::IPartyCommunicationAgent>;

static __m128i mk(uint64_t hi, uint64_t lo) { return _mm_set_epi64x(hi, lo); }
static uint64_t lo(__m128i x) { return _mm_extract_epi64(x, 0); }
static uint64_t hi(__m128i x) { return _mm_extract_epi64(x, 1); }
static bool same(__m128i a, __m128i b) { return lo(a) == lo(b) && hi(a) == hi(b); }
static std::string sh(__m128i x) { return cat(std::hex, "0x", hi(x), ":", lo(x)); }
static __m128i rnd(Rng& r) { uint64_t h = r.next(); return mk(h, r.next()); }
static __m128i rndDelta(Rng& r) { auto d = rnd(r); return mk(hi(d), lo(d) | 1); }

// ideal correlated OT from a seed both sides know; checks of what is built on top do not depend on the OT protocols
struct DealerRcot : ot::IRandomCorrelatedObliviousTransfer {
  DealerRcot(bool sender, uint64_t seed, __m128i delta) : sender(sender), r(seed), delta(delta) {}
  VM rcot(int64_t n) override {
    VM v(n);
    for (auto& x : v) {
      auto k = rnd(r);
      k = mk(hi(k), lo(k) & ~1ull);
      bool c = r.bit();
      x = !sender && c ? _mm_xor_si128(k, delta) : k;
    }
    return v;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  bool sender;
  Rng r;
  __m128i delta;
};
struct DealerRcotFactory : ot::IRandomCorrelatedObliviousTransferFactory {
  explicit DealerRcotFactory(uint64_t s) : r(s) {}
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i delta, Agent a) override {
    uint64_t s = r.next();
    a->sendSingleT<uint64_t>(s);
    a->sendSingleT<__m128i>(delta);
    keep.push_back(std::move(a));
    return std::make_unique<DealerRcot>(true, s, delta);
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(Agent a) override {
    auto s = a->receiveSingleT<uint64_t>();
    auto d = a->receiveSingleT<__m128i>();
    keep.push_back(std::move(a));
    return std::make_unique<DealerRcot>(false, s, d);
  }
  Rng r;
  std::vector<Agent> keep;
};

static std::shared_ptr<fbpcf::util::MetricCollector> metrics() { return std::make_shared<fbpcf::util::MetricCollector>("battery"); }
enum Rc { DEALER, CLASSIC, FERRET };
static const char* RN[] = {"ideal OT", "classic OT", "Ferret OT"};
static std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcotFactory(Rc k, uint64_t s) {
  if (k == DEALER) return std::make_shared<DealerRcotFactory>(s);
  if (k == CLASSIC) return std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(ot::createClassicRcotFactory());
  return ot::createFerretRcotFactory(1024, 100, 8);
}

// ------------------------------------------------------------------ T03 correlated, bidirectional and base OT
static void checkCot(const VM& s, const VM& v, __m128i delta, const std::string& what, bool lsb0 = true) {
  check(s.size() == v.size(), cat(what, ": sizes ", s.size(), " and ", v.size()));
  for (size_t i = 0; i < s.size() && i < v.size(); i++) {
    bool c = lo(v[i]) & 1;
    auto w = c ? _mm_xor_si128(s[i], delta) : s[i];
    check(same(w, v[i]) && (!lsb0 || !(lo(s[i]) & 1)), cat(what, ": correlation ", i, " of ", s.size(), ": sender ", sh(s[i]), ", receiver ", sh(v[i]), ", delta ", sh(delta)));
  }
}
static void rcots(Rc kind) {
  int rounds = kind == CLASSIC ? (thorough() ? 8 : 2) : thorough() ? 12 : 3;
  for (int it = 0; it < rounds; it++) {
    Rng plan(seed * 77 + it * 3 + kind);
    std::vector<int64_t> sizes;
    int reqs = 1 + plan.below(6);
    for (int i = 0; i < reqs; i++) {
      static const int64_t edge[] = {0, 1, 127, 128, 129, 255, 256, 257, 700, 1000, 1024, 2100};
      sizes.push_back(plan.bit() ? edge[plan.below(12)] : plan.below(600));
    }
    __m128i delta = rndDelta(plan);
    int64_t ext = 128 << plan.below(5), base = 40 + plan.below(60), w = 2 << plan.below(3);
    auto fs = memFactories(2);
    std::vector<VM> got[2];
    parties(2, cat(RN[kind]), [&](int me) {
      std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f = kind == CLASSIC ? rcotFactory(CLASSIC, 1) : ot::createFerretRcotFactory(ext, base, w);
      if (kind == FERRET && ext <= base + w * 12) f = ot::createFerretRcotFactory(1024, base, w);
      auto a = fs[me]->create(1 - me, "t");
      auto o = me == 0 ? f->create(delta, std::move(a)) : f->create(std::move(a));
      for (auto s : sizes) got[me].push_back(o->rcot(s));
    });
    int ones = 0, total = 0;
    std::set<std::pair<uint64_t, uint64_t>> seen;
    for (size_t i = 0; i < sizes.size(); i++) {
      check((int64_t)got[0][i].size() == sizes[i], cat(RN[kind], ": asked for ", sizes[i], " correlations, got ", got[0][i].size()));
      checkCot(got[0][i], got[1][i], delta, cat(RN[kind], " request ", i, " of sizes ", show(sizes), " extended ", ext, " base ", base, " weight ", w));
      for (size_t j = 0; j < got[0][i].size(); j++) {
        ones += lo(got[1][i][j]) & 1;
        total++;
        seen.insert({hi(got[0][i][j]), lo(got[0][i][j])});
      }
    }
    check(total < 60 || (ones > total / 5 && ones < total - total / 5), cat(RN[kind], ": ", ones, " of ", total, " choice bits set"));
    check((int)seen.size() == total, cat(RN[kind], ": only ", seen.size(), " of ", total, " messages differ"));
  }
}
static void largeRcot(int64_t n) {
  Rng plan(seed * 79);
  __m128i delta = rndDelta(plan);
  auto fs = memFactories(2);
  VM got[2];
  parties(2, "classic OT", [&](int me) {
    auto a = fs[me]->create(1 - me, "t");
    auto f = rcotFactory(CLASSIC, 1);
    auto o = me == 0 ? f->create(delta, std::move(a)) : f->create(std::move(a));
    got[me] = o->rcot(n);
  });
  check((int64_t)got[0].size() == n, cat("classic OT: asked for ", n, " correlations, got ", got[0].size()));
  checkCot(got[0], got[1], delta, cat("classic OT, one request of ", n));
}
static void rejectsEvenDelta() {
  for (int i = 0; i < 2; i++) {
    auto fs = memFactories(2);
    Agent a = fs[0]->create(1, "x");
    fer::SinglePointCot s(a);
    check(throwsAny([&] { s.senderInit(mk(5, 6)); }), "single point: a delta with a zero last bit is accepted");
    fer::RegularErrorMultiPointCot m(std::make_unique<fer::SinglePointCot>(a));
    check(throwsAny([&] { m.senderInit(mk(5, 6), 64, 4); }), "multi point: a delta with a zero last bit is accepted");
  }
}
static void bidirection() {
  for (int it = 0; it < (thorough() ? 400 : 80); it++) {
    Rng plan(seed * 131 + it);
    size_t n = 1 + (plan.below(3) ? plan.below(20) : plan.below(300));
    std::string what = cat("bidirectional OT of ", n, " values, run ", it);
    VB b0[2], b1[2], c[2], o[2];
    VU u0[2], u1[2], w[2];
    for (int p = 0; p < 2; p++) { b0[p] = plan.bits(n); b1[p] = plan.bits(n); c[p] = plan.bits(n); u0[p] = plan.words(n); u1[p] = plan.words(n); }
    auto fs = memFactories(2);
    bool real = it % 20 == 19, dummy = it % 5 == 3;
    parties(2, what, [&](int me) {
      std::unique_ptr<ot::IBidirectionObliviousTransfer> x;
      if (dummy) x = std::make_unique<ot::insecure::DummyBidirectionObliviousTransfer>(fs[me]->create(1 - me, "d"));
      else x = ot::RcotBasedBidirectionObliviousTransferFactory(me, *fs[me], rcotFactory(real ? FERRET : DEALER, seed + it * 2 + me)).create(1 - me);
      bool first = it & 1;
      if (first) o[me] = x->biDirectionOT(b0[me], b1[me], c[me]);
      w[me] = x->biDirectionOT(u0[me], u1[me], c[me]);
      if (!first) o[me] = x->biDirectionOT(b0[me], b1[me], c[me]);
    });
    for (int p = 0; p < 2; p++) {
      check(o[p].size() == n && w[p].size() == n, cat(what, ": sizes ", o[p].size(), " and ", w[p].size()));
      for (size_t i = 0; i < n && i < o[p].size() && i < w[p].size(); i++) {
        bool wb = c[p][i] ? b1[1 - p][i] : b0[1 - p][i];
        uint64_t wu = c[p][i] ? u1[1 - p][i] : u0[1 - p][i];
        check(o[p][i] == wb, cat(what, ": party ", p, " choice ", c[p][i], " of bits ", b0[1 - p][i], b1[1 - p][i], " got ", o[p][i], " at ", i));
        check(w[p][i] == wu, cat(what, ": party ", p, " choice ", c[p][i], " of words ", u0[1 - p][i], ",", u1[1 - p][i], " got ", w[p][i], " at ", i));
      }
    }
  }
}
static void baseOt() {
  for (int it = 0; it < (thorough() ? 20 : 5); it++) {
    Rng plan(seed * 17 + it);
    size_t n = it == 0 ? 0 : 1 + plan.below(thorough() ? 60 : 25);
    VB c = plan.bits(n);
    if (it == 1) c.assign(n, false);
    if (it == 2) c.assign(n, true);
    auto fs = memFactories(2);
    std::pair<VM, VM> m, m2;
    VM g, g2;
    parties(2, "base OT", [&](int me) {
      ot::NpBaseObliviousTransfer x(fs[me]->create(1 - me, "b"));
      if (me == 0) { m = x.send(n); m2 = x.send(n); } else { g = x.receive(c); g2 = x.receive(c); }
    });
    check(m.first.size() == n && m.second.size() == n && g.size() == n, cat("base OT of ", n, " keys gives ", m.first.size(), ", ", m.second.size(), ", ", g.size()));
    for (size_t i = 0; i < n && i < g.size(); i++) {
      check(same(g[i], c[i] ? m.second[i] : m.first[i]), cat("base OT: choice ", c[i], " at ", i, " received ", sh(g[i]), " of ", sh(m.first[i]), ", ", sh(m.second[i])));
      check(same(g2[i], c[i] ? m2.second[i] : m2.first[i]), cat("base OT, second run: choice ", c[i], " at ", i));
      check(!same(m.first[i], m.second[i]) && !same(m.first[i], m2.first[i]), cat("base OT: keys repeat at ", i));
    }
  }
}

// ------------------------------------------------------------------ T04 Ferret's building blocks
static void spcot() {
  for (int it = 0; it < (thorough() ? 60 : 16); it++) {
    Rng plan(seed * 29 + it);
    int depth = 1 + it % 8;
    __m128i delta = rndDelta(plan);
    auto fs = memFactories(2);
    int reps = 1 + plan.below(3);
    std::vector<VM> bs, br, s, v;
    for (int k = 0; k < reps; k++) {
      VM a(depth), b(depth);
      for (int i = 0; i < depth; i++) {
        a[i] = rnd(plan);
        a[i] = mk(hi(a[i]), lo(a[i]) & ~1ull);
        b[i] = plan.bit() ? _mm_xor_si128(a[i], delta) : a[i];
      }
      bs.push_back(a);
      br.push_back(b);
    }
    parties(2, "single point COT", [&](int me) {
      Agent a = fs[me]->create(1 - me, "s");
      fer::SinglePointCot c(a);
      if (me == 0) c.senderInit(delta); else c.receiverInit();
      for (int k = 0; k < reps; k++)
        if (me == 0) s.push_back(c.senderExtend(VM(bs[k]))); else v.push_back(c.receiverExtend(VM(br[k])));
    });
    for (int k = 0; k < reps; k++) {
      std::string what = cat("single point COT of depth ", depth, " run ", k);
      check(s[k].size() == 1u << depth && v[k].size() == 1u << depth, cat(what, ": sizes ", s[k].size(), ", ", v[k].size()));
      size_t pos = 0;
      for (int i = 0; i < depth; i++) pos = pos * 2 + !(lo(br[k][i]) & 1);
      for (size_t i = 0; i < s[k].size() && i < v[k].size(); i++)
        check(same(v[k][i], i == pos ? _mm_xor_si128(s[k][i], delta) : s[k][i]) && !(lo(s[k][i]) & 1), cat(what, ": position ", i, " (chosen ", pos, "): sender ", sh(s[k][i]), ", receiver ", sh(v[k][i])));
    }
  }
}
static void mpcot() {
  for (int it = 0; it < (thorough() ? 40 : 12); it++) {
    Rng plan(seed * 41 + it);
    int64_t w = 1 + plan.below(9), blk = 2 << plan.below(6), len = w * blk;
    __m128i delta = rndDelta(plan);
    auto fs = memFactories(2);
    VM s, v;
    int need[2] = {0, 0};
    std::vector<uint8_t> bits;
    Rng ra(seed + it), rb(seed + it);
    parties(2, "multi point COT", [&](int me) {
      Agent a = fs[me]->create(1 - me, "s");
      auto c = fer::RegularErrorMultiPointCotFactory(std::make_unique<fer::SinglePointCotFactory>()).create(a);
      if (me == 0) c->senderInit(delta, len, w); else c->receiverInit(len, w);
      need[me] = c->getBaseCotNeeds();
      Rng& r = me ? ra : rb;
      VM b(need[me]);
      for (int off : {1, -1, 7, -need[me]}) {
        VM wrong(need[me] + off, mk(1, 2));
        check(need[me] + off == need[me] || throwsAny([&] { if (me == 0) c->senderExtend(std::move(wrong)); else c->receiverExtend(std::move(wrong)); }), cat("multi point COT of length ", len, " weight ", w, " needs ", need[me], " base correlations and accepts ", need[me] + off));
      }
      for (auto& x : b) {
        auto k = rnd(r);
        k = mk(hi(k), lo(k) & ~1ull);
        bool t = r.bit();
        if (me) bits.push_back(t);
        x = me && t ? _mm_xor_si128(k, delta) : k;
      }
      if (me == 0) s = c->senderExtend(std::move(b)); else v = c->receiverExtend(std::move(b));
    });
    std::string what = cat("multi point COT of length ", len, " weight ", w);
    check(need[0] == need[1], cat(what, ": the parties need ", need[0], " and ", need[1], " base correlations"));
    check((int64_t)s.size() == len && (int64_t)v.size() == len, cat(what, ": sizes ", s.size(), ", ", v.size()));
    int d = w ? need[0] / w : 0;
    for (int64_t j = 0; j < w; j++) {
      int64_t pos = 0;
      for (int i = 0; i < d; i++) pos = pos * 2 + !bits[j * d + i];
      for (int64_t i = 0; i < blk; i++) {
        size_t q = j * blk + i;
        if (q < s.size() && q < v.size())
          check(same(v[q], i == pos ? _mm_xor_si128(s[q], delta) : s[q]), cat(what, ": block ", j, " position ", i, " (chosen ", pos, "): sender ", sh(s[q]), ", receiver ", sh(v[q])));
      }
    }
  }
}
static void matrix() {
  fer::TenLocalLinearMatrixMultiplier m;
  for (int it = 0; it < (thorough() ? 300 : 60); it++) {
    Rng r(seed * 53 + it);
    int64_t n = it < 8 ? it + 1 : 1 + r.below(200), len = r.below(300);
    VM a(n), b(n), c(n);
    for (int64_t i = 0; i < n; i++) { a[i] = rnd(r); b[i] = rnd(r); c[i] = _mm_xor_si128(a[i], b[i]); }
    auto sd = rnd(r);
    auto x = m.multiplyWithRandomMatrix(sd, len, a), y = m.multiplyWithRandomMatrix(sd, len, b), z = m.multiplyWithRandomMatrix(sd, len, c);
    check((int64_t)x.size() == len && (int64_t)y.size() == len && (int64_t)z.size() == len, "matrix product has the wrong length");
    for (int64_t i = 0; i < len; i++) check(same(z[i], _mm_xor_si128(x[i], y[i])), cat("random matrix product of ", n, " elements is not linear at ", i, " of ", len));
    // every row combines ten positions: on unit vectors an even number of ones in total per row
    if (it < 20 && n <= 64) {
      for (int64_t i = 0; i < n; i++) a[i] = mk(0, 1ull << i);
      x = m.multiplyWithRandomMatrix(sd, len, a);
      for (int64_t i = 0; i < len; i++) {
        int k = __builtin_popcountll(lo(x[i]));
        check(hi(x[i]) == 0 && k <= 10 && k % 2 == 0, cat("row ", i, " of the random matrix for ", n, " elements combines ", k, " positions"));
      }
    }
  }
}

// ------------------------------------------------------------------ T02 product shares and integer tuples
static void products() {
  for (int it = 0; it < (thorough() ? 200 : 40); it++) {
    Rng plan(seed * 59 + it);
    size_t n = it == 3 ? 1025 + plan.below(300) : it == 4 && thorough() ? 66000 : 1 + plan.below(40);
    VB a[2], b[2], o[2];
    VU x[2], y[2], w[2];
    for (int p = 0; p < 2; p++) { a[p] = plan.bits(n); b[p] = plan.bits(n); x[p] = plan.words(n); y[p] = plan.words(n); }
    auto fs = memFactories(2);
    bool dummy = it % 7 == 6;
    parties(2, "product shares", [&](int me) {
      std::unique_ptr<tg::IProductShareGenerator> g;
      if (dummy) g = std::make_unique<tg::insecure::DummyProductShareGenerator>(fs[me]->create(1 - me, "p"));
      else g = tg::ProductShareGeneratorFactory(std::make_unique<eu::AesPrgFactory>(64), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *fs[me], rcotFactory(DEALER, seed + it * 2 + me))).create(1 - me);
      o[me] = g->generateBooleanProductShares(a[me], b[me]);
      w[me] = g->generateIntegerProductShares(x[me], y[me]);
      if (n) {
        VB s(n - 1);
        VU t(n + 1);
        check(throwsAny([&] { g->generateBooleanProductShares(a[me], s); }) && throwsAny([&] { g->generateIntegerProductShares(x[me], t); }), "operands of different lengths are accepted");
      }
    });
    for (int p = 0; p < 2; p++) check(o[p].size() == n && w[p].size() == n, "product shares have the wrong length");
    for (size_t i = 0; i < n && o[0].size() == n && o[1].size() == n; i++) {
      check((o[0][i] ^ o[1][i]) == ((a[0][i] && b[1][i]) ^ (a[1][i] && b[0][i])), cat("bits a,b = ", a[0][i], b[0][i], " and ", a[1][i], b[1][i], " give shares ", o[0][i], o[1][i]));
      check(w[0][i] + w[1][i] == x[0][i] * y[1][i] + x[1][i] * y[0][i], cat("integers a,b = ", x[0][i], ",", y[0][i], " and ", x[1][i], ",", y[1][i], " give shares ", w[0][i], ",", w[1][i]));
    }
  }
}
static void arith(Rc kind, int n, int rounds) {
  for (int it = 0; it < rounds; it++) {
    Rng plan(seed * 61 + it * 5 + n + kind);
    static const int bs[] = {1, 2, 3, 7, 16, 33};
    int buf = bs[plan.below(6)];
    std::vector<uint32_t> sizes;
    for (int i = 0, q = 1 + plan.below(6); i < q; i++) sizes.push_back(plan.below(5) ? plan.below(3 * buf) : plan.below(60));
    auto fs = memFactories(n);
    std::vector<std::vector<tg::IArithmeticTupleGenerator::IntegerTuple>> got[4];
    std::string what = cat("integer tuples, ", n, " parties, ", RN[kind], ", buffer of ", buf, ", requests ", show(sizes));
    parties(n, what, [&](int me) {
      auto psf = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(64), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *fs[me], rcotFactory(kind, seed + it * 8 + me)));
      auto g = tg::ArithmeticTupleGeneratorFactory(psf, std::make_unique<eu::AesPrgFactory>(64), buf, me, n).create();
      for (auto s : sizes) got[me].push_back(g->getIntegerTuple(s));
    });
    std::set<uint64_t> seen;
    long total = 0;
    for (size_t i = 0; i < sizes.size(); i++) {
      bool ok = true;
      for (int p = 0; p < n; p++) ok = ok && got[p][i].size() == sizes[i];
      check(ok, cat(what, ": request ", i, " has the wrong size"));
      if (!ok) continue;
      for (size_t j = 0; j < sizes[i]; j++) {
        uint64_t a = 0, b = 0, c = 0;
        for (int p = 0; p < n; p++) { a += got[p][i][j].getA(); b += got[p][i][j].getB(); c += got[p][i][j].getC(); }
        check(a * b == c, cat(what, ": tuple ", j, " of request ", i, ": ", a, " * ", b, " is not ", c));
        seen.insert(a);
        total++;
      }
    }
    check((long)seen.size() == total, cat(what, ": only ", seen.size(), " of ", total, " tuples differ: some were handed out twice"));
  }
}

// ------------------------------------------------------------------ T01 boolean tuples
static void booleans(Rc kind, int n, bool two, int rounds) {
  for (int it = 0; it < rounds; it++) {
    Rng plan(seed * 67 + it * 11 + n * 3 + kind + two);
    static const int bs[] = {1, 2, 5, 13, 64, 200, 1000};
    int buf = bs[plan.below(7)];
    if (kind == CLASSIC && buf < 13) buf = 64;
    struct Req { uint32_t k; std::map<size_t, uint32_t> m; int how; };
    std::vector<Req> rq;
    for (int i = 0, q = 1 + plan.below(7); i < q; i++) {
      Req x;
      x.k = plan.below(4) ? plan.below(40) : plan.below(4 * buf + 2);
      if (plan.below(6) == 0) x.k = 0;
      x.how = two ? plan.below(3) : 0;
      static const size_t cs[] = {0, 1, 2, 7, 8, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 300, 513};
      if (x.how) for (int j = 0, e = plan.below(4); j < e; j++) x.m[cs[plan.below(17)]] = plan.below(5) ? 1 + plan.below(6) : 1 + plan.below(2 * buf > 60 ? 60 : 2 * buf);
      rq.push_back(x);
    }
    auto fs = memFactories(n);
    std::vector<std::vector<tg::ITupleGenerator::BooleanTuple>> got[4];
    std::vector<std::map<size_t, std::vector<tg::ITupleGenerator::CompositeBooleanTuple>>> comp[4];
    std::string what = cat("boolean tuples, ", two ? "two party generator" : "generator over product shares", ", ", n, " parties, ", RN[kind], ", buffer of ", buf);
    parties(n, what, [&](int me) {
      auto mc = metrics();
      std::unique_ptr<tg::ITupleGenerator> g;
      auto rf = rcotFactory(kind, seed + it * 8 + me);
      if (two) g = tg::TwoPartyTupleGeneratorFactory(rf, *fs[me], me, buf, mc).create();
      else {
        auto psf = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(64), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *fs[me], rf));
        g = tg::TupleGeneratorFactory(psf, std::make_unique<eu::AesPrgFactory>(64), buf, me, n, mc).create();
      }
      check(g->supportsCompositeTupleGeneration() == two, cat(what, ": supports composite tuples? ", g->supportsCompositeTupleGeneration()));
      if (!two) check(throwsAny([&] { g->getCompositeTuple({{3, 1}}); }) , "composite tuples are handed out without support");
      for (auto& x : rq) {
        comp[me].push_back({});
        if (x.how == 0) got[me].push_back(g->getBooleanTuple(x.k));
        else if (x.how == 1) { comp[me].back() = g->getCompositeTuple(x.m); got[me].push_back({}); }
        else { auto pr = g->getNormalAndCompositeBooleanTuples(x.k, x.m); got[me].push_back(pr.first); comp[me].back() = pr.second; }
      }
    });
    long ones[2] = {0, 0}, total = 0, wide = 0;
    std::set<VB> seen;
    for (size_t i = 0; i < rq.size(); i++) {
      size_t k = rq[i].how == 1 ? 0 : rq[i].k;
      bool ok = true;
      for (int p = 0; p < n; p++) ok = ok && got[p][i].size() == k;
      check(ok, cat(what, ": request ", i, " for ", k, " tuples has the wrong size"));
      for (size_t j = 0; ok && j < k; j++) {
        bool a = 0, b = 0, c = 0;
        for (int p = 0; p < n; p++) { a ^= got[p][i][j].getA(); b ^= got[p][i][j].getB(); c ^= got[p][i][j].getC(); }
        check((a && b) == c, cat(what, ": tuple ", j, " of request ", i, ": ", a, " AND ", b, " is not ", c));
        ones[0] += a; ones[1] += b; total++;
      }
      for (int p = 0; p < n; p++) {
        bool keys = comp[p][i].size() == rq[i].m.size() * (rq[i].how != 0);
        for (auto& kv : comp[p][i]) keys = keys && rq[i].m.count(kv.first) && kv.second.size() == rq[i].m[kv.first];
        check(keys, cat(what, ": composite request ", i, " is answered with other sizes"));
        ok = ok && keys;
      }
      if (!ok || !rq[i].how) continue;
      for (auto& kv : rq[i].m)
        for (uint32_t j = 0; j < kv.second; j++) {
          bool a = 0;
          VB b(kv.first), c(kv.first);
          bool sz = true;
          for (int p = 0; p < n; p++) {
            auto& t = comp[p][i].at(kv.first)[j];
            a ^= t.getA();
            sz = sz && t.getB().size() == kv.first && t.getC().size() == kv.first;
            for (size_t q = 0; sz && q < kv.first; q++) { b[q] = b[q] ^ t.getB()[q]; c[q] = c[q] ^ t.getC()[q]; }
          }
          check(sz, cat(what, ": a composite tuple of size ", kv.first, " has another size"));
          if (sz && kv.first >= 63) {
            seen.insert(VB(b.begin(), b.begin() + 63));
            check((long)seen.size() == ++wide, cat(what, ": composite tuple of size ", kv.first, ", number ", j, " of request ", i, " shares its randomness with another one"));
            wide = seen.size();
          }
          for (size_t q = 0; sz && q < kv.first; q++) check((a && b[q]) == c[q], cat(what, ": composite tuple of size ", kv.first, ", number ", j, ", bit ", q, ": ", a, " AND ", b[q], " is not ", c[q]));
        }
    }
    check(total < 80 || (ones[0] > total / 6 && ones[0] < total - total / 6 && ones[1] > total / 6 && ones[1] < total - total / 6), cat(what, ": of ", total, " tuples ", ones[0], " have a set and ", ones[1], " have b set"));
  }
}
static void emptyGenerators() {
  tg::NullTupleGenerator t;
  tg::NullArithmeticTupleGenerator a;
  check(t.getBooleanTuple(0).empty() && t.getCompositeTuple({}).empty() && throwsAny([&] { t.getBooleanTuple(1); }) && throwsAny([&] { t.getCompositeTuple({{2, 1}}); }) && throwsAny([&] { t.getNormalAndCompositeBooleanTuples(1, {}); }), "an engine without boolean tuples must reject a request for some");
  check(a.getIntegerTuple(0).empty() && throwsAny([&] { a.getIntegerTuple(1); }), "an engine without integer tuples must reject a request for some");
}

int main(int argc, char** argv) {
  return run(argc, argv, {
    {"T03", [] { rcots(CLASSIC); }, "classic correlated OT"},
    {"T03 T04", [] { rcots(FERRET); }, "Ferret correlated OT"},
    {"T03", [] { largeRcot(thorough() ? 300000 : 70000); }, "large classic correlated OT"},
    {"T03", bidirection, "bidirectional OT"},
    {"T03", baseOt, "base OT"},
    {"T04", spcot, "single point COT"},
    {"T04", mpcot, "multi point COT"},
    {"T04", matrix, "matrix product"},
    {"T04", rejectsEvenDelta, "delta"},
    {"T02", products, "product shares"},
    {"T02", [] { arith(DEALER, 2, thorough() ? 60 : 12); arith(DEALER, 3, thorough() ? 40 : 8); arith(DEALER, 4, thorough() ? 20 : 3); arith(FERRET, 2, 1); }, "integer tuples"},
    {"T01", [] { booleans(DEALER, 2, true, thorough() ? 300 : 60); booleans(FERRET, 2, true, thorough() ? 6 : 1); booleans(CLASSIC, 2, true, 1); }, "two party tuples"},
    {"T01", [] { booleans(DEALER, 2, false, thorough() ? 80 : 15); booleans(DEALER, 3, false, thorough() ? 60 : 12); booleans(DEALER, 4, false, thorough() ? 20 : 4); booleans(FERRET, 3, false, 1); }, "tuples over product shares"},
    {"T01 T02", emptyGenerators, "engines without tuples"},
  });
}
