// SOURCES: fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/aes.cpp fbpcf/engine/util/util.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
#include "dealer.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
using namespace bat;
namespace sc = fbpcf::scheduler;
using IS = sc::IScheduler;
using BW = IS::WireId<IS::Boolean>;
using AW = IS::WireId<IS::Arithmetic>;
using VB = std::vector<bool>;
using VU = std::vector<uint64_t>;

enum Kind { PLAIN, NETPLAIN, EAGER, LAZY };
static const char* KN[] = {"plaintext", "network plaintext", "eager", "lazy"};
enum Keeper { MAP, SAFE, UNSAFE };
static std::unique_ptr<sc::IWireKeeper> keeper(Keeper k) {
  if (k == MAP) return sc::WireKeeper::createWithUnorderedMap();
  if (k == SAFE) return sc::WireKeeper::createWithVectorArena<false>();
  return sc::WireKeeper::createWithVectorArena<true>();
}
static std::unique_ptr<sc::IArithmeticScheduler> make(Kind k, Keeper w, int me, int n, comm::IPartyCommunicationAgentFactory& f, uint64_t s, bool comp) {
  switch (k) {
    case PLAIN: return std::make_unique<sc::PlaintextScheduler>(keeper(w));
    case NETPLAIN: return std::make_unique<sc::NetworkPlaintextScheduler>(me, comm::getAgentMap(n, me, f), keeper(w));
    case EAGER: return std::make_unique<sc::EagerScheduler>(dealerEngine(s, me, n, f, comp), keeper(w));
    default: {
      std::shared_ptr<sc::IWireKeeper> wk = keeper(w);
      return std::make_unique<sc::LazyScheduler>(dealerEngine(s, me, n, f, comp), wk, std::make_unique<sc::GateKeeper>(wk));
    }
  }
}

// values extracted by the parties, checked against the plaintext once all have arrived
struct Board {
  struct E { std::vector<VU> by; VU want; bool arith; std::string what; };
  std::map<int, E> m;
  std::mutex mu;
};

struct Wire {
  bool arith, batch, secret;
  int seen;        // -1: public everywhere, otherwise only this party knows the value
  VU v;            // plaintext (bits as 0/1)
  BW b;
  AW a;
  int refs = 1;
};

struct Prog {
  sc::IArithmeticScheduler& s;
  Kind kind;
  int me, n;
  uint64_t id;
  Rng r;          // the same in every party
  Board& board;
  std::string nm;
  std::vector<Wire> ws;
  int ticket = 0;
  long live = 0;
  std::string trace;

  Prog(sc::IArithmeticScheduler& s, Kind k, int me, int n, uint64_t sd, Board& b, const std::string& nm) : s(s), kind(k), me(me), n(n), id(sd), r(sd), board(b), nm(nm) {}
  static VB vb(const VU& v) { VB r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i] & 1; return r; }
  static VU vu(const VB& v) { VU r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
  void ok(bool c, const std::string& what) { check(c, cat(nm, " [party ", me, " of ", n, "] ", what, "; program ", trace.size() > 300 ? trace.substr(trace.size() - 300) : trace)); }
  size_t add(Wire w) { ws.push_back(w); live++; return ws.size() - 1; }
  Wire like(const Wire& o) { Wire w; w.arith = o.arith; w.batch = o.batch; w.secret = o.secret; w.seen = -1; w.v = o.v; return w; }

  VU dummy(const VU& v, bool arith) {  // what a party that is not the owner hands over
    VU d(v.size());
    for (auto& x : d) x = 0;
    return d;
  }
  void input() {
    Wire w;
    w.arith = r.bit() && r.bit();
    w.batch = r.bit();
    w.seen = -1;
    size_t k = w.batch ? 1 + r.below(r.below(6) ? 9 : 150) : 1;
    w.v.resize(k);
    for (auto& x : w.v) x = w.arith ? r.word() : r.bit();
    int how = r.below(3);
    w.secret = how != 0;
    if (how == 0) {
      trace += "pub ";
      if (w.arith) { if (w.batch) w.a = s.publicIntegerInputBatch(w.v); else w.a = s.publicIntegerInput(w.v[0]); }
      else { if (w.batch) w.b = s.publicBooleanInputBatch(vb(w.v)); else w.b = s.publicBooleanInput(w.v[0]); }
    } else if (how == 1) {
      int p = r.below(n);
      trace += cat("in", p, " ");
      VU v = kind == PLAIN || p == me ? w.v : dummy(w.v, w.arith);
      if (w.arith) { if (w.batch) w.a = s.privateIntegerInputBatch(v, p); else w.a = s.privateIntegerInput(v[0], p); }
      else { if (w.batch) w.b = s.privateBooleanInputBatch(vb(v), p); else w.b = s.privateBooleanInput(v[0], p); }
    } else {
      trace += "rec ";
      VU mine = w.v, acc = w.v;
      if (kind != PLAIN) {
        for (int p = 0; p < n; p++)
          for (size_t i = 0; i < k; i++) {
            uint64_t x = w.arith ? r.next() : r.bit();
            if (p + 1 == n) x = acc[i];
            acc[i] = w.arith ? acc[i] - x : acc[i] ^ x;
            if (p == me) mine[i] = x;
          }
      }
      if (w.arith) { if (w.batch) w.a = s.recoverIntegerWireBatch(mine); else w.a = s.recoverIntegerWire(mine[0]); }
      else { if (w.batch) w.b = s.recoverBooleanWireBatch(vb(mine)); else w.b = s.recoverBooleanWire(mine[0]); }
    }
    add(w);
  }
  // a live wire that every party may use as an operand
  int pick(std::function<bool(const Wire&)> f) {
    std::vector<int> c;
    for (size_t i = 0; i < ws.size(); i++)
      if (ws[i].refs > 0 && ws[i].seen < 0 && f(ws[i])) c.push_back(i);
    if (c.empty()) return -1;
    // mostly recent wires: deep circuits
    return r.bit() ? c[r.below(c.size())] : c[c.size() - 1 - r.below(std::min<size_t>(3, c.size()))];
  }
  void binary() {
    int i = pick([](const Wire&) { return true; });
    if (i < 0) return;
    Wire x = ws[i];
    int j = pick([&](const Wire& y) { return y.arith == x.arith && y.batch == x.batch && y.v.size() == x.v.size(); });
    if (j < 0) return;
    Wire y = ws[j];
    if (!x.secret && y.secret) std::swap(x, y);
    Wire w = like(x);
    w.secret = x.secret || y.secret;
    bool op = r.bit();
    trace += cat(op ? (x.arith ? "mul" : "and") : (x.arith ? "add" : "xor"), x.secret, y.secret, x.batch ? "b" : "", "(", i, ",", j, ") ");
    for (size_t k = 0; k < x.v.size(); k++) w.v[k] = x.arith ? (op ? x.v[k] * y.v[k] : x.v[k] + y.v[k]) : (op ? x.v[k] & y.v[k] : x.v[k] ^ y.v[k]);
#define GO(F, f) if (x.secret && y.secret) w.f = s.private##F##Private##BT(x.f, y.f); else if (x.secret) w.f = s.private##F##Public##BT(x.f, y.f); else w.f = s.public##F##Public##BT(x.f, y.f)
#define BT Batch
#define GO2(F, f, B) if (x.secret && y.secret) w.f = s.private##F##Private##B(x.f, y.f); else if (x.secret) w.f = s.private##F##Public##B(x.f, y.f); else w.f = s.public##F##Public##B(x.f, y.f)
    if (x.arith) {
      if (x.batch) { if (op) { GO2(Mult, a, Batch); } else { GO2(Plus, a, Batch); } }
      else { if (op) { GO2(Mult, a, ); } else { GO2(Plus, a, ); } }
    } else {
      if (x.batch) { if (op) { GO2(And, b, Batch); } else { GO2(Xor, b, Batch); } }
      else { if (op) { GO2(And, b, ); } else { GO2(Xor, b, ); } }
    }
    add(w);
  }
  void unary() {
    int i = pick([](const Wire&) { return true; });
    if (i < 0) return;
    Wire x = ws[i], w = like(x);
    trace += cat(x.arith ? "neg" : "not", x.secret, x.batch ? "b" : "", "(", i, ") ");
    for (auto& v : w.v) v = x.arith ? -v : v ^ 1;
    if (x.arith) {
      if (x.batch) w.a = x.secret ? s.negPrivateBatch(x.a) : s.negPublicBatch(x.a);
      else w.a = x.secret ? s.negPrivate(x.a) : s.negPublic(x.a);
    } else {
      if (x.batch) w.b = x.secret ? s.notPrivateBatch(x.b) : s.notPublicBatch(x.b);
      else w.b = x.secret ? s.notPrivate(x.b) : s.notPublic(x.b);
    }
    add(w);
  }
  void composite() {
    int i = pick([](const Wire& w) { return !w.arith; });
    if (i < 0) return;
    Wire x = ws[i];
    bool rs = r.bit();
    std::vector<int> ids;
    size_t k = 1 + r.below(4);
    for (size_t q = 0; q < k; q++) {
      int j = pick([&](const Wire& y) { return !y.arith && y.batch == x.batch && y.v.size() == x.v.size() && y.secret == rs; });
      if (j >= 0) ids.push_back(j);
    }
    if (ids.empty()) return;
    if (!x.secret && rs) return;   // the secret side is the left one
    trace += cat("comp", x.secret, rs, x.batch ? "b" : "", "(", i, ";", ids.size(), ") ");
    std::vector<BW> ys, out;
    for (int j : ids) ys.push_back(ws[j].b);
    if (x.batch) out = rs ? s.privateAndPrivateCompositeBatch(x.b, ys) : x.secret ? s.privateAndPublicCompositeBatch(x.b, ys) : s.publicAndPublicCompositeBatch(x.b, ys);
    else out = rs ? s.privateAndPrivateComposite(x.b, ys) : x.secret ? s.privateAndPublicComposite(x.b, ys) : s.publicAndPublicComposite(x.b, ys);
    ok(out.size() == ys.size(), "composite AND: number of results");
    for (size_t q = 0; q < out.size(); q++) {
      Wire w = like(x);
      w.secret = x.secret || rs;
      for (size_t e = 0; e < w.v.size(); e++) w.v[e] &= ws[ids[q]].v[e];
      w.b = out[q];
      add(w);
    }
  }
  void rebatch() {
    int i = pick([](const Wire& w) { return !w.arith && w.batch; });
    if (i < 0) return;
    Wire x = ws[i];
    if (r.bit()) {
      std::vector<BW> src;
      Wire w = like(x);
      w.v.clear();
      size_t k = 1 + r.below(4);
      for (size_t q = 0; q < k; q++) {
        int j = pick([&](const Wire& y) { return !y.arith && y.batch && y.secret == x.secret; });
        if (w.v.size() + ws[j].v.size() > 400) continue;
        src.push_back(ws[j].b);
        w.v.insert(w.v.end(), ws[j].v.begin(), ws[j].v.end());
        trace += cat("up(", j, ") ");
      }
      if (src.empty()) return;
      w.b = s.batchingUp(src);
      size_t e = add(w);
      ok(s.getBatchSize(ws[e].b) == w.v.size(), cat("batchingUp: batch size ", s.getBatchSize(ws[e].b), " instead of ", w.v.size()));
    } else {
      auto st = std::make_shared<std::vector<uint32_t>>();
      size_t left = x.v.size();
      while (left && st->size() < 4) { size_t q = 1 + r.below(left); st->push_back(q); left -= q; }
      if (left) { if (r.bit()) st->push_back(left); }   // a prefix may be left over
      trace += cat("down(", i, ") ");
      auto out = s.unbatching(x.b, st);
      ok(out.size() == st->size(), "unbatching: number of results");
      size_t off = 0;
      for (size_t q = 0; q < out.size(); q++) {
        Wire w = like(x);
        w.v.assign(x.v.begin() + off, x.v.begin() + off + st->at(q));
        off += st->at(q);
        w.b = out[q];
        add(w);
        ok(s.getBatchSize(w.b) == w.v.size(), "unbatching: batch size");
      }
    }
  }
  void open() {
    int i = pick([](const Wire& w) { return w.secret; });
    if (i < 0) return;
    Wire x = ws[i], w = like(x);
    int p = r.below(n);
    trace += cat("open", p, x.arith ? "i" : "", x.batch ? "b" : "", "(", i, ") ");
    w.secret = false;
    w.seen = p;
    if (x.arith) { if (x.batch) w.a = s.openIntegerValueToPartyBatch(x.a, p); else w.a = s.openIntegerValueToParty(x.a, p); }
    else { if (x.batch) w.b = s.openBooleanValueToPartyBatch(x.b, p); else w.b = s.openBooleanValueToParty(x.b, p); }
    add(w);
  }
  VU get(const Wire& x) {
    if (x.arith) return x.batch ? s.getIntegerValueBatch(x.a) : VU{s.getIntegerValue(x.a)};
    return x.batch ? vu(s.getBooleanValueBatch(x.b)) : VU{s.getBooleanValue(x.b)};
  }
  void readAny(int i) {
    Wire& x = ws[i];
    if (x.refs <= 0) return;
    trace += cat("read(", i, ") ");
    if (x.batch) ok((x.arith ? s.getBatchSize(x.a) : s.getBatchSize(x.b)) == x.v.size(), "batch size of a wire");
    if (!x.secret) {
      VU g = get(x);
      if (x.seen < 0 || x.seen == me) ok(g == x.v, cat("wire ", i, ": value ", show(g), " instead of ", show(x.v)));
      else ok(g.size() == x.v.size(), cat("wire ", i, ": length of an opening for somebody else"));
      return;
    }
    VU g;
    if (x.arith) g = x.batch ? s.extractIntegerSecretShareBatch(x.a) : VU{s.extractIntegerSecretShare(x.a)};
    else g = x.batch ? vu(s.extractBooleanSecretShareBatch(x.b)) : VU{s.extractBooleanSecretShare(x.b)};
    if (kind == PLAIN) { ok(g == x.v, cat("wire ", i, ": share")); return; }
    std::lock_guard<std::mutex> l(board.mu);
    auto& e = board.m[ticket++];
    e.by.push_back(g);
    e.want = x.v;
    e.arith = x.arith;
    e.what = cat(nm, " wire ", i, " (secret, ", x.arith ? "integer" : "boolean", x.batch ? " batch" : "", "); program ", trace.size() > 300 ? trace.substr(trace.size() - 300) : trace);
  }
  void ref(int i, int d) {
    Wire& x = ws[i];
    trace += cat(d > 0 ? "ref(" : "unref(", i, ") ");
    if (x.arith) {
      if (d > 0) { if (x.batch) s.increaseReferenceCountBatch(x.a); else s.increaseReferenceCount(x.a); }
      else { if (x.batch) s.decreaseReferenceCountBatch(x.a); else s.decreaseReferenceCount(x.a); }
    } else {
      if (d > 0) { if (x.batch) s.increaseReferenceCountBatch(x.b); else s.increaseReferenceCount(x.b); }
      else { if (x.batch) s.decreaseReferenceCountBatch(x.b); else s.decreaseReferenceCount(x.b); }
    }
    x.refs += d;
    if (!x.refs) live--;
  }
  void step() {
    switch (r.below(14)) {
      case 0: case 1: case 2: input(); break;
      case 3: case 4: case 5: case 6: binary(); break;
      case 7: unary(); break;
      case 8: composite(); break;
      case 9: rebatch(); break;
      case 10: open(); break;
      case 11: if (!ws.empty() && r.below(3) == 0) readAny(r.below(ws.size())); break;
      case 12: if (!ws.empty()) { int i = r.below(ws.size()); if (ws[i].refs > 0 && ws[i].refs < 4) ref(i, 1); } break;
      case 13: if (ws.size() > 4) { int i = r.below(ws.size()); if (ws[i].refs > 0) ref(i, -1); } break;
    }
  }
  long alive() { auto t = s.getWireStatistics(); return (long)t.first - (long)t.second; }
  // read everything that is left, then drop it: every wire is given back
  void finish() {
    for (size_t i = 0; i < ws.size(); i++) readAny(i);
    if (kind != LAZY) ok(alive() == live, cat("wires alive: ", alive(), " instead of ", live));
    for (size_t i = 0; i < ws.size(); i++)
      while (ws[i].refs > 0) ref(i, -1);
    if (kind == LAZY) {
      // force what nobody needs any more: a last gate far enough up
      Wire w;
      BW x = s.publicBooleanInput(true);
      BW y = s.openBooleanValueToParty(x, 0);
      for (int k = 0; k < 3; k++) { BW z = s.openBooleanValueToParty(y, 0); s.getBooleanValue(z); s.decreaseReferenceCount(y); y = z; }
      s.decreaseReferenceCount(x); s.decreaseReferenceCount(y);
    }
  }
};

static void settle(Board& b, int n) {
  for (auto& kv : b.m) {
    auto& e = kv.second;
    if ((int)e.by.size() != n) { check(false, e.what + ": parties disagree about what is extracted"); continue; }
    VU t(e.want.size(), 0);
    bool good = true;
    for (auto& v : e.by) {
      if (v.size() != t.size()) { good = false; break; }
      for (size_t i = 0; i < t.size(); i++) t[i] = e.arith ? t[i] + v[i] : t[i] ^ v[i];
    }
    check(good && t == e.want, cat(e.what, ": shares reconstruct to ", show(t), " instead of ", show(e.want)));
  }
}

static void world(Kind k, Keeper w, int n, uint64_t sd, bool comp, int steps, std::function<void(Prog&)> extra = {}) {
  Board board;
  std::string nm = cat(KN[k], " scheduler, ", w == MAP ? "map" : w == SAFE ? "safe arena" : "arena", ", seed ", sd);
  auto fs = memFactories(k == PLAIN ? 1 : n);
  parties(k == PLAIN ? 1 : n, nm, [&](int me) {
    auto s = make(k, w, me, n, *fs[me], sd * 31 + 7, comp);
    {
      Prog p(*s, k, me, n, sd, board, nm);
      if (extra) extra(p);
      for (int i = 0; i < steps; i++) p.step();
      p.finish();
      long a = p.alive();
      p.ok(a == 0, cat("wires never given back: ", a));
    }
  });
  settle(board, k == PLAIN ? 1 : n);
}

static void random(Kind k) {
  int reps = thorough() ? 4000 : 400;
  for (int it = 0; it < reps; it++) {
    Rng r(seed * 1000 + it * 7 + k);
    int n = 2 + (it % 3 == 2);
    world(k, (Keeper)(it % 3), n, r.next() % 1000000, it & 1, it % 10 == 9 ? 400 : 60);
  }
  sample(cat(KN[k], ": ", reps, " random programs"));
}

// gates over empty batches, alone on their level or beside others
static void empties(Kind k) {
  if (k == NETPLAIN) return;
  for (int it = 0; it < 8; it++) {
    auto fs = memFactories(1);
    auto s = make(k, (Keeper)(it % 3), 0, 1, *fs[0], 3, it & 1);
    auto a = s->recoverBooleanWireBatch({1, 1, 0}), e = s->recoverBooleanWireBatch({});
    auto ia = s->recoverIntegerWireBatch({5, 7}), ie = s->recoverIntegerWireBatch({});
    BW x;
    AW u;
    if (it & 2) { x = s->privateAndPrivateBatch(a, a); u = s->privateMultPrivateBatch(ia, ia); }
    auto y = s->privateAndPrivateBatch(e, e);
    auto v = s->privateMultPrivateBatch(ie, ie);
    check(s->extractBooleanSecretShareBatch(y).empty() && s->extractIntegerSecretShareBatch(v).empty(), cat(KN[k], ": AND or product of empty batches is not empty"));
    if (it & 2) check(s->extractBooleanSecretShareBatch(x) == VB({1, 1, 0}) && s->extractIntegerSecretShareBatch(u) == VU({25, 49}), cat(KN[k], ": gate beside a gate over empty batches"));
  }
}

// sizes that do not match are rejected instead of computed
static void mismatched(Kind k) {
  Rng r(seed + 5);
  for (int it = 0; it < 4; it++) {
    auto fs = memFactories(1);
    if (k == NETPLAIN) continue;
    auto s = make(k, (Keeper)(it % 2), 0, 1, *fs[0], 3, true);
    size_t a = 1 + r.below(5), b = a + 1 + r.below(3);
    if (it & 1) std::swap(a, b);
    auto x = s->recoverBooleanWireBatch(r.bits(a)), y = s->recoverBooleanWireBatch(r.bits(b));
    auto u = s->recoverIntegerWireBatch(r.words(a)), v = s->recoverIntegerWireBatch(r.words(b));
    check(throwsAny([&] { s->extractBooleanSecretShareBatch(s->privateXorPrivateBatch(x, y)); }), cat(KN[k], ": XOR of batches of different sizes is computed"));
    check(throwsAny([&] { s->extractIntegerSecretShareBatch(s->privatePlusPrivateBatch(u, v)); }), cat(KN[k], ": sum of batches of different sizes is computed"));
    auto s2 = make(k, (Keeper)(it % 2), 0, 1, *fs[0], 3, true);
    auto x2 = s2->recoverBooleanWireBatch(r.bits(a)), y2 = s2->recoverBooleanWireBatch(r.bits(b));
    check(throwsAny([&] { s2->extractBooleanSecretShareBatch(s2->privateAndPrivateBatch(x2, y2)); }), cat(KN[k], ": AND of batches of different sizes is computed"));
  }
}

// wires: released at the last reference and only then; never handed out twice
static void keepers() {
  for (Keeper kk : {MAP, SAFE, UNSAFE}) {
    auto wk = keeper(kk);
    Rng r(seed + kk);
    struct M { int kind; uint64_t id; VU v; size_t ebs; uint32_t lvl; int refs; };
    std::vector<M> live;
    long alloc = 0, freed = 0;
    auto bw = [](uint64_t i) { return BW(i); };
    auto aw = [](uint64_t i) { return AW(i); };
    std::string nm = cat("wire keeper ", kk == MAP ? "map" : kk == SAFE ? "safe arena" : "arena");
    for (int it = 0; it < (thorough() ? 60000 : 12000); it++) {
      int grow = it < 6000 ? 5 : 3;
      int c = r.below(10);
      if (c < grow) {
        M m;
        m.kind = r.below(4);
        m.lvl = r.below(100);
        m.refs = 1;
        size_t k = m.kind & 1 ? r.below(6) : 1;
        m.v.resize(k);
        m.ebs = m.kind & 1 ? (r.bit() ? k : r.below(50)) : 0;
        for (auto& x : m.v) x = m.kind & 2 ? r.next() : r.bit();
        if (m.kind == 0) m.id = wk->allocateBooleanValue(m.v[0], m.lvl).getId();
        if (m.kind == 1) m.id = wk->allocateBatchBooleanValue(Prog::vb(m.v), m.ebs, m.lvl).getId();
        if (m.kind == 2) m.id = wk->allocateIntegerValue(m.v[0], m.lvl).getId();
        if (m.kind == 3) m.id = wk->allocateBatchIntegerValue(m.v, m.ebs, m.lvl).getId();
        live.push_back(m);
        alloc++;
      } else if (!live.empty()) {
        size_t i = r.below(live.size());
        M& m = live[i];
        bool dead = false;
        switch (r.below(6)) {
          case 0:
            m.refs++;
            if (m.kind == 0) wk->increaseReferenceCount(bw(m.id));
            if (m.kind == 1) wk->increaseBatchReferenceCount(bw(m.id));
            if (m.kind == 2) wk->increaseReferenceCount(aw(m.id));
            if (m.kind == 3) wk->increaseBatchReferenceCount(aw(m.id));
            break;
          case 1: case 2:
            m.refs--;
            if (m.kind == 0) wk->decreaseReferenceCount(bw(m.id));
            if (m.kind == 1) wk->decreaseBatchReferenceCount(bw(m.id));
            if (m.kind == 2) wk->decreaseReferenceCount(aw(m.id));
            if (m.kind == 3) wk->decreaseBatchReferenceCount(aw(m.id));
            if (!m.refs) { freed++; dead = true; }
            break;
          case 3:
            if (m.kind & 1) m.v.resize(m.kind == 3 ? m.ebs : r.below(6));
            for (auto& x : m.v) x = m.kind & 2 ? r.next() : r.bit();
            if (m.kind == 0) wk->setBooleanValue(bw(m.id), m.v[0]);
            if (m.kind == 1) wk->setBatchBooleanValue(bw(m.id), Prog::vb(m.v));
            if (m.kind == 2) wk->setIntegerValue(aw(m.id), m.v[0]);
            if (m.kind == 3) wk->setBatchIntegerValue(aw(m.id), m.v);
            break;
          case 4:
            m.lvl = r.below(1000);
            if (m.kind == 0) wk->setFirstAvailableLevel(bw(m.id), m.lvl);
            if (m.kind == 1) wk->setBatchFirstAvailableLevel(bw(m.id), m.lvl);
            if (m.kind == 2) wk->setFirstAvailableLevel(aw(m.id), m.lvl);
            if (m.kind == 3) wk->setBatchFirstAvailableLevel(aw(m.id), m.lvl);
            break;
          default: {
            VU g;
            uint32_t l = 0;
            size_t e = m.ebs;
            if (m.kind == 0) { g = {wk->getBooleanValue(bw(m.id))}; l = wk->getFirstAvailableLevel(bw(m.id)); }
            if (m.kind == 1) { g = Prog::vu(wk->getBatchBooleanValue(bw(m.id))); l = wk->getBatchFirstAvailableLevel(bw(m.id)); e = wk->getBatchSize(bw(m.id)); }
            if (m.kind == 2) { g = {wk->getIntegerValue(aw(m.id))}; l = wk->getFirstAvailableLevel(aw(m.id)); }
            if (m.kind == 3) { g = wk->getBatchIntegerValue(aw(m.id)); l = wk->getBatchFirstAvailableLevel(aw(m.id)); e = wk->getBatchSize(aw(m.id)); }
            check(g == m.v && l == m.lvl && e == m.ebs, cat(nm, ": a live wire reads ", show(g), " level ", l, " batch size ", e, " instead of ", show(m.v), " level ", m.lvl, " batch size ", m.ebs, " after ", it, " operations"));
          }
        }
        if (dead) {
          if (kk != UNSAFE) {
            M q = m;
            check(throwsAny([&] {
                    if (q.kind == 0) wk->getBooleanValue(bw(q.id));
                    if (q.kind == 1) wk->getBatchBooleanValue(bw(q.id));
                    if (q.kind == 2) wk->getIntegerValue(aw(q.id));
                    if (q.kind == 3) wk->getBatchIntegerValue(aw(q.id));
                  }),
                  cat(nm, ": a released wire can still be read"));
          }
          live[i] = live.back();
          live.pop_back();
        }
        auto st = wk->getWireStatistics();
        check((long)st.first == alloc && (long)st.second == freed, cat(nm, ": ", st.first, " allocated, ", st.second, " released instead of ", alloc, ", ", freed));
      }
    }
  }
}

// more gates than one round may hold, more wires than one arena chunk
static void large(Kind k) {
  world(k, k == LAZY ? UNSAFE : SAFE, 2, seed + 77, true, 10, [&](Prog& p) {
    Rng& r = p.r;
    int N = thorough() ? 130000 : k == LAZY ? 101500 : 5000;
    Wire x, y;
    x.arith = y.arith = false; x.batch = y.batch = false; x.secret = y.secret = true; x.seen = y.seen = -1;
    x.v = {1}; y.v = {0};
    bool xin = p.kind == PLAIN || p.me == 0;
    x.b = p.s.privateBooleanInput(xin, 0);
    y.b = p.s.privateBooleanInput(false, 1);
    int xi = p.add(x), yi = p.add(y);
    BW acc = p.s.privateXorPrivate(x.b, y.b);
    bool v = true;
    for (int i = 0; i < N; i++) {
      BW t;
      switch (r.below(i % 50 == 0 ? 3 : 2)) {
        case 0: t = p.s.privateXorPrivate(acc, x.b); v = v ^ 1; break;
        case 1: t = p.s.notPrivate(acc); v = !v; break;
        default: t = p.s.privateAndPrivate(acc, x.b);
      }
      p.s.decreaseReferenceCount(acc);
      acc = t;
    }
    Wire w = x;
    w.v = {v};
    w.b = acc;
    p.trace = "many gates ";
    p.add(w);
    (void)xi; (void)yi;
  });
  // wide: thousands of independent ANDs on one level, all kinds mixed
  world(k, k == LAZY ? SAFE : MAP, 2, seed + 78, true, 10, [&](Prog& p) {
    Rng& r = p.r;
    for (int i = 0; i < (k == LAZY ? 900 : 300); i++) { p.input(); if (i % 3 == 2) p.binary(); if (i % 40 == 39) { p.composite(); p.rebatch(); p.open(); } }
  });
}

int main(int argc, char** argv) {
  std::vector<Case> cs;
  for (Kind k : {PLAIN, NETPLAIN, EAGER, LAZY}) {
    cs.push_back({"S01 S02", [k] { random(k); }, "random programs"});
    cs.push_back({"S01", [k] { mismatched(k); }, "mismatched batches"});
    cs.push_back({"S01", [k] { empties(k); }, "empty batches"});
    cs.push_back({"S01 S02", [k] { large(k); }, "large programs"});
  }
  cs.push_back({"S02", keepers, "wire keepers"});
  return run(argc, argv, cs);
}
