// SOURCES: fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/aes.cpp fbpcf/engine/util/util.cpp
#include "dealer.h"
using namespace bat;
using fbpcf::engine::SecretShareEngine;
using VB = std::vector<bool>;
using VW = std::vector<uint64_t>;

struct World {
  int n;
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> fs;
  std::vector<std::unique_ptr<SecretShareEngine>> e;
  World(int n, uint64_t seed, bool composite) : n(n), fs(memFactories(n)), e(n) {
    parties(n, "engine construction", [&](int p) { e[p] = dealerEngine(seed, p, n, *fs[p], composite); });
  }
};
static VB shareB(Rng& r, const VB& v, int n, std::vector<VB>& out) {
  out.assign(n, VB(v.size()));
  for (size_t i = 0; i < v.size(); i++) {
    bool a = v[i];
    for (int p = 0; p + 1 < n; p++) { out[p][i] = r.bit(); a = a ^ out[p][i]; }
    out[n - 1][i] = a;
  }
  return v;
}
static void shareW(Rng& r, const VW& v, int n, std::vector<VW>& out) {
  out.assign(n, VW(v.size()));
  for (size_t i = 0; i < v.size(); i++) {
    uint64_t a = v[i];
    for (int p = 0; p + 1 < n; p++) { out[p][i] = r.next(); a -= out[p][i]; }
    out[n - 1][i] = a;
  }
}
static VB xorAll(const std::vector<VB>& s) { VB r = s[0]; for (size_t p = 1; p < s.size(); p++) for (size_t i = 0; i < r.size(); i++) r[i] = r[i] ^ s[p].at(i); return r; }
static VW addAll(const std::vector<VW>& s) { VW r = s[0]; for (size_t p = 1; p < s.size(); p++) for (size_t i = 0; i < r.size(); i++) r[i] += s[p].at(i); return r; }

static void linear() {
  Rng r(seed * 7 + 1);
  for (int n : {2, 3, 4}) {
    World w(n, seed, false);
    for (int it = 0; it < (thorough() ? 400 : 60); it++) {
      size_t m = r.below(70);
      VB a = r.bits(m), b = r.bits(m);
      VW x = r.words(m), y = r.words(m);
      std::vector<VB> sa, sb;
      std::vector<VW> sx, sy;
      shareB(r, a, n, sa); shareB(r, b, n, sb); shareW(r, x, n, sx); shareW(r, y, n, sy);
      std::vector<VB> o(n); std::vector<VW> q(n);
      auto eqB = [&](const char* nm, VB want) { check(xorAll(o) == want, cat(nm, " n=", n, " a=", show(a), " b=", show(b), " got ", show(xorAll(o)))); };
      auto eqW = [&](const char* nm, VW want) { check(addAll(q) == want, cat(nm, " n=", n, " x=", show(x), " y=", show(y), " got ", show(addAll(q)))); };
      VB X(m), N(m), A(m); VW P(m), G(m), M(m);
      for (size_t i = 0; i < m; i++) { X[i] = a[i] ^ b[i]; N[i] = !a[i]; A[i] = a[i] && b[i]; P[i] = x[i] + y[i]; G[i] = -x[i]; M[i] = x[i] * y[i]; }
      for (int p = 0; p < n; p++) o[p] = w.e[p]->computeBatchSymmetricXOR(sa[p], sb[p]); eqB("batch symmetric XOR", X);
      for (int p = 0; p < n; p++) o[p] = w.e[p]->computeBatchAsymmetricXOR(sa[p], b); eqB("batch asymmetric XOR", X);
      for (int p = 0; p < n; p++) o[p] = w.e[p]->computeBatchAsymmetricNOT(sa[p]); eqB("batch asymmetric NOT", N);
      for (int p = 0; p < n; p++) o[p] = w.e[p]->computeBatchFreeAND(sa[p], b); eqB("batch free AND", A);
      for (int p = 0; p < n; p++) q[p] = w.e[p]->computeBatchSymmetricPlus(sx[p], sy[p]); eqW("batch symmetric plus", P);
      for (int p = 0; p < n; p++) q[p] = w.e[p]->computeBatchAsymmetricPlus(sx[p], y); eqW("batch asymmetric plus", P);
      for (int p = 0; p < n; p++) q[p] = w.e[p]->computeBatchSymmetricNeg(sx[p]); eqW("batch neg", G);
      for (int p = 0; p < n; p++) q[p] = w.e[p]->computeBatchFreeMult(sx[p], y); eqW("batch free mult", M);
      for (int p = 0; p < n; p++) check(w.e[p]->computeBatchSymmetricNOT(a) == N, cat("batch public NOT ", show(a)));
      for (size_t i = 0; i < m && i < 8; i++) {
        auto sb1 = [&](const char* nm, bool want, std::function<bool(int)> f) { bool g = false; for (int p = 0; p < n; p++) g = g ^ f(p); check(g == want, cat(nm, " n=", n, " a=", (int)a[i], " b=", (int)b[i])); };
        auto sw1 = [&](const char* nm, uint64_t want, std::function<uint64_t(int)> f) { uint64_t g = 0; for (int p = 0; p < n; p++) g += f(p); check(g == want, cat(nm, " n=", n, " x=", x[i], " y=", y[i])); };
        sb1("symmetric XOR", X[i], [&](int p) { return w.e[p]->computeSymmetricXOR(sa[p][i], sb[p][i]); });
        sb1("asymmetric XOR", X[i], [&](int p) { return w.e[p]->computeAsymmetricXOR(sa[p][i], b[i]); });
        sb1("asymmetric NOT", N[i], [&](int p) { return w.e[p]->computeAsymmetricNOT(sa[p][i]); });
        sb1("free AND", A[i], [&](int p) { return w.e[p]->computeFreeAND(sa[p][i], b[i]); });
        sw1("symmetric plus", P[i], [&](int p) { return w.e[p]->computeSymmetricPlus(sx[p][i], sy[p][i]); });
        sw1("asymmetric plus", P[i], [&](int p) { return w.e[p]->computeAsymmetricPlus(sx[p][i], y[i]); });
        sw1("neg", G[i], [&](int p) { return w.e[p]->computeSymmetricNeg(sx[p][i]); });
        sw1("free mult", M[i], [&](int p) { return w.e[p]->computeFreeMult(sx[p][i], y[i]); });
        for (int p = 0; p < n; p++) check(w.e[p]->computeSymmetricNOT(a[i]) == N[i], "public NOT");
      }
      if (it == 0) sample(cat("linear gates n=", n, " batch of ", m, " a=", show(a)));
      VB longer = a; longer.push_back(true);
      VW longw = x; longw.push_back(1);
      check(throwsAny([&] { w.e[0]->computeBatchSymmetricXOR(longer, b); }), "XOR of unequal batches accepted");
      check(throwsAny([&] { w.e[1]->computeBatchAsymmetricXOR(longer, b); }), "asymmetric XOR of unequal batches accepted");
      check(throwsAny([&] { w.e[0]->computeBatchFreeAND(a, longer); }), "free AND of unequal batches accepted");
      check(throwsAny([&] { w.e[0]->computeBatchSymmetricPlus(longw, y); }), "plus of unequal batches accepted");
      check(throwsAny([&] { w.e[1]->computeBatchAsymmetricPlus(longw, y); }), "asymmetric plus of unequal batches accepted");
      check(throwsAny([&] { w.e[0]->computeBatchFreeMult(x, longw); }), "mult of unequal batches accepted");
    }
  }
}

// rounds of mixed scheduled gates, results compared with the plaintext operation
static void gates(bool boolean, bool integer) {
  Rng r(seed * 13 + (boolean ? 1 : 0) + (integer ? 2 : 0));
  for (int n : {2, 3, 4})
    for (bool comp : {true, false}) {
      World w(n, seed + n, comp);
      for (int round = 0; round < (thorough() ? 60 : 14); round++) {
        struct G { int kind; VB l; std::vector<VB> rs; VW wl, wr; std::vector<VB> sl; std::vector<std::vector<VB>> srs; std::vector<VW> swl, swr; std::vector<uint32_t> id; };
        std::vector<G> gs;
        int k = round == 0 ? 1 : r.below(12) + 1;
        for (int i = 0; i < k; i++) {
          G g;
          std::vector<int> kinds;
          if (boolean) kinds = {0, 1, 2, 3};
          if (integer) { kinds.push_back(4); kinds.push_back(5); if (round % 3 == 0) { kinds.push_back(0); kinds.push_back(1); } }
          g.kind = kinds[r.below(kinds.size())];
          size_t m = g.kind == 0 || g.kind == 2 || g.kind == 4 ? 1 : n == 2 && round == 5 && i == 0 ? 66000 + r.below(500) : r.below(20) + 1;
          size_t c = g.kind == 2 || g.kind == 3 ? r.below(5) + 1 : 1;
          g.id.resize(n);
          if (g.kind < 4) {
            g.l = r.bits(m);
            shareB(r, g.l, n, g.sl);
            g.srs.resize(n);
            for (size_t q = 0; q < c; q++) {
              g.rs.push_back(r.bits(m));
              std::vector<VB> t;
              shareB(r, g.rs.back(), n, t);
              for (int p = 0; p < n; p++) g.srs[p].push_back(t[p]);
            }
          } else {
            g.wl = r.words(m); g.wr = r.words(m);
            shareW(r, g.wl, n, g.swl); shareW(r, g.wr, n, g.swr);
          }
          gs.push_back(g);
        }
        std::string what;
        for (auto& g : gs) what += cat(" ", "AND\0BAND\0CAND\0BCAND\0MUL\0BMUL"[0] ? std::vector<std::string>{"AND", "batchAND", "compositeAND", "batchCompositeAND", "mult", "batchMult"}[g.kind] : "", "(", g.kind < 4 ? g.l.size() : g.wl.size(), "x", g.rs.size(), ")");
        std::vector<std::vector<std::vector<VB>>> rb(n, std::vector<std::vector<VB>>(gs.size()));
        std::vector<std::vector<VW>> rw(n, std::vector<VW>(gs.size()));
        parties(n, cat("gates n=", n, what), [&](int p) {
          auto& e = *w.e[p];
          for (auto& g : gs) {
            VB flat;
            for (auto& v : g.kind < 4 ? g.srs[p] : std::vector<VB>{}) flat.push_back(v[0]);
            switch (g.kind) {
              case 0: g.id[p] = e.scheduleAND(g.sl[p][0], g.srs[p][0][0]); break;
              case 1: g.id[p] = e.scheduleBatchAND(g.sl[p], g.srs[p][0]); break;
              case 2: g.id[p] = e.scheduleCompositeAND(g.sl[p][0], flat); break;
              case 3: g.id[p] = e.scheduleBatchCompositeAND(g.sl[p], g.srs[p]); break;
              case 4: g.id[p] = e.scheduleMult(g.swl[p][0], g.swr[p][0]); break;
              case 5: g.id[p] = e.scheduleBatchMult(g.swl[p], g.swr[p]); break;
            }
          }
          e.executeScheduledOperations();
          for (size_t i = 0; i < gs.size(); i++) {
            auto& g = gs[i];
            switch (g.kind) {
              case 0: rb[p][i] = {VB{e.getANDExecutionResult(g.id[p])}}; break;
              case 1: rb[p][i] = {e.getBatchANDExecutionResult(g.id[p])}; break;
              case 2: for (bool x : e.getCompositeANDExecutionResult(g.id[p])) rb[p][i].push_back(VB{x}); break;
              case 3: rb[p][i] = e.getBatchCompositeANDExecutionResult(g.id[p]); break;
              case 4: rw[p][i] = {e.getMultExecutionResult(g.id[p])}; break;
              case 5: rw[p][i] = e.getBatchMultExecutionResult(g.id[p]); break;
            }
          }
        });
        for (size_t i = 0; i < gs.size(); i++) {
          auto& g = gs[i];
          if (g.kind < 4) {
            for (size_t q = 0; q < g.rs.size(); q++) {
              VB want(g.l.size());
              for (size_t j = 0; j < want.size(); j++) want[j] = g.l[j] && g.rs[q][j];
              std::vector<VB> sh;
              bool ok = true;
              for (int p = 0; p < n; p++) { if (rb[p][i].size() != g.rs.size() || rb[p][i][q].size() != want.size()) ok = false; else sh.push_back(rb[p][i][q]); }
              check(ok && xorAll(sh) == want, cat("AND gate ", i, " of", what, " n=", n, " composite=", comp, " round ", round, " left ", show(g.l), " right ", show(g.rs[q]), ok ? " got " + show(xorAll(sh)) : " wrong size"));
            }
          } else {
            VW want(g.wl.size());
            for (size_t j = 0; j < want.size(); j++) want[j] = g.wl[j] * g.wr[j];
            std::vector<VW> sh;
            bool ok = true;
            for (int p = 0; p < n; p++) { if (rw[p][i].size() != want.size()) ok = false; else sh.push_back(rw[p][i]); }
            check(ok && addAll(sh) == want, cat("product gate ", i, " of", what, " n=", n, " round ", round, " left ", show(g.wl), " right ", show(g.wr)));
          }
        }
        if (round < 2) sample(cat("n=", n, " composite tuples=", comp, ":", what));
      }
      // immediate evaluation
      for (int it = 0; it < 6; it++) {
        size_t m = r.below(40) + 1;
        if (boolean) {
          VB a = r.bits(m), b = r.bits(m), want(m);
          for (size_t i = 0; i < m; i++) want[i] = a[i] && b[i];
          std::vector<VB> sa, sb, o(n);
          shareB(r, a, n, sa); shareB(r, b, n, sb);
          parties(n, "immediate AND", [&](int p) { o[p] = w.e[p]->computeBatchANDImmediately(sa[p], sb[p]); });
          bool ok = true;
          for (auto& v : o) ok = ok && v.size() == m;
          check(ok && xorAll(o) == want, cat("immediate AND n=", n, " a=", show(a), " b=", show(b)));
        }
        if (integer) {
          VW a = r.words(m), b = r.words(m), want(m);
          for (size_t i = 0; i < m; i++) want[i] = a[i] * b[i];
          std::vector<VW> sa, sb, o(n);
          shareW(r, a, n, sa); shareW(r, b, n, sb);
          parties(n, "immediate product", [&](int p) { o[p] = w.e[p]->computeBatchMultImmediately(sa[p], sb[p]); });
          bool ok = true;
          for (auto& v : o) ok = ok && v.size() == m;
          check(ok && addAll(o) == want, cat("immediate product n=", n, " a=", show(a), " b=", show(b)));
        }
      }
      if (boolean) check(throwsAny([&] { w.e[0]->scheduleBatchAND(VB(3), VB(2)); }), "batch AND of unequal sizes accepted");
      if (boolean) check(throwsAny([&] { w.e[0]->scheduleBatchCompositeAND(VB(3), {VB(3), VB(2)}); }), "batch composite AND of unequal sizes accepted");
      if (integer) check(throwsAny([&] { w.e[0]->scheduleBatchMult(VW(3), VW(2)); }), "batch product of unequal sizes accepted");
    }
}

static void io() {
  Rng r(seed * 17 + 3);
  for (int n : {2, 3, 4}) {
    World w(n, seed, false);
    for (int it = 0; it < (thorough() ? 200 : 40); it++) {
      int owner = r.below(n), to = r.below(n);
      size_t m = r.below(60) + 1;
      bool b = r.bit();
      uint64_t x = r.word();
      VB vb = r.bits(m);
      VW vw = r.words(m);
      std::vector<VB> s1(n), sb(n), ob(n);
      std::vector<VW> s2(n), sw(n), ow(n);
      parties(n, "input and reveal", [&](int p) {
        auto& e = *w.e[p];
        s1[p] = {e.setInput(owner, p == owner ? std::optional<bool>(b) : std::nullopt)};
        sb[p] = e.setBatchInput(owner, p == owner ? vb : VB(m));
        s2[p] = {e.setIntegerInput(owner, p == owner ? std::optional<uint64_t>(x) : std::nullopt)};
        sw[p] = e.setBatchIntegerInput(owner, p == owner ? vw : VW(m));
        ob[p] = e.revealToParty(to, sb[p]);
        ow[p] = e.revealToParty(to, sw[p]);
      });
      check(xorAll(s1)[0] == b, cat("input bit of party ", owner, " of ", n));
      check(xorAll(sb) == vb, cat("batch input ", show(vb), " of party ", owner, " of ", n, " shares reconstruct ", show(xorAll(sb))));
      check(addAll(s2)[0] == x, cat("integer input ", x, " of party ", owner, " of ", n));
      check(addAll(sw) == vw, cat("batch integer input ", show(vw), " of party ", owner, " of ", n));
      check(ob[to] == vb, cat("reveal ", show(vb), " to ", to, " of ", n, " got ", show(ob[to])));
      check(ow[to] == vw, cat("reveal ", show(vw), " to ", to, " of ", n, " got ", show(ow[to])));
      for (int p = 0; p < n; p++)
        if (p != to) check(ob[p].size() == m && ow[p].size() == m && (m < 40 || ob[p] != vb) && (m < 2 || ow[p] != vw), cat("party ", p, " learns what was opened to ", to));
      if (it < 1) sample(cat("n=", n, " owner=", owner, " revealed to ", to, " bits ", show(vb)));
      // a share alone carries nothing: it changes with the masks even for a constant input
      if (m > 40) check(sb[owner] != vb, "the owner's share is the input itself");
    }
    check(throwsAny([&] { w.e[0]->setInput(0, std::nullopt); }), "missing input accepted");
    check(throwsAny([&] { w.e[0]->setIntegerInput(0, std::nullopt); }), "missing integer input accepted");
    check(throwsAny([&] { w.e[0]->setBatchInput(0, {}); }), "empty batch accepted");
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, {{"E01", linear, "linear gates"}, {"E02", [] { gates(true, false); gates(true, true); }, "boolean gates"}, {"E03", [] { gates(false, true); gates(true, true); }, "integer products"}, {"E04", io, "inputs and outputs"}});
}
