// SOURCES: fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
// The message layer: every agent delivers what was sent, in order, however the messages are cut.
#include <arpa/inet.h>
#include <emmintrin.h>
#include <smmintrin.h>
#include <netinet/in.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <signal.h>
#include <sys/socket.h>
#include <cstring>
#include "common.h"
#include "dealer.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
using namespace bat;
namespace ec = fbpcf::engine::communication;
using A = ec::IPartyCommunicationAgent;
using VC = std::vector<unsigned char>;

// ---- a script of typed messages --------------------------------------------------------------------------
struct Msg {
  int kind;
  size_t n;
  uint64_t s;
};
static const int KINDS = 11;
static uint64_t gen(const Msg& m, size_t i) { Rng r(m.s * 1000003 + i); return r.word(); }
static __m128i gen128(const Msg& m, size_t i) { return _mm_set_epi64x(gen(m, 2 * i), gen(m, 2 * i + 1)); }
template <class T> static std::vector<T> vec(const Msg& m) { std::vector<T> v; for (size_t i = 0; i < m.n; i++) v.push_back((T)gen(m, i)); return v; }
template <> std::vector<__m128i> vec<__m128i>(const Msg& m) { std::vector<__m128i> v; for (size_t i = 0; i < m.n; i++) v.push_back(gen128(m, i)); return v; }
static std::vector<bool> vbits(const Msg& m) { std::vector<bool> v; for (size_t i = 0; i < m.n; i++) v.push_back(Rng(m.s * 1000003 + i).bit()); return v; }
template <class T> static bool eq(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0); }
static size_t bytesOf(const Msg& m) {
  switch (m.kind) {
    case 0: case 4: return m.n;
    case 1: case 3: return (m.n + 7) / 8;
    case 2: case 6: return m.n * 8;
    case 5: return m.n * 4;
    case 7: return m.n * 16;
    case 8: return 4;
    case 9: return 8;
    default: return 16;
  }
}
static void snd(A& a, const Msg& m) {
  switch (m.kind) {
    case 0: a.send(vec<unsigned char>(m)); break;
    case 1: a.sendBool(vbits(m)); break;
    case 2: a.sendInt64(vec<uint64_t>(m)); break;
    case 3: a.sendT<bool>(vbits(m)); break;
    case 4: a.sendT<unsigned char>(vec<unsigned char>(m)); break;
    case 5: a.sendT<uint32_t>(vec<uint32_t>(m)); break;
    case 6: a.sendT<uint64_t>(vec<uint64_t>(m)); break;
    case 7: a.sendT<__m128i>(vec<__m128i>(m)); break;
    case 8: a.sendSingleT<int>((int)gen(m, 0)); break;
    case 9: a.sendSingleT<uint64_t>(gen(m, 0)); break;
    default: a.sendSingleT<__m128i>(gen128(m, 0)); break;
  }
}
static bool rcv(A& a, const Msg& m) {
  switch (m.kind) {
    case 0: return eq(a.receive(m.n), vec<unsigned char>(m));
    case 1: return a.receiveBool(m.n) == vbits(m);
    case 2: return eq(a.receiveInt64(m.n), vec<uint64_t>(m));
    case 3: return a.receiveT<bool>(m.n) == vbits(m);
    case 4: return eq(a.receiveT<unsigned char>(m.n), vec<unsigned char>(m));
    case 5: return eq(a.receiveT<uint32_t>(m.n), vec<uint32_t>(m));
    case 6: return eq(a.receiveT<uint64_t>(m.n), vec<uint64_t>(m));
    case 7: return eq(a.receiveT<__m128i>(m.n), vec<__m128i>(m));
    case 8: return a.receiveSingleT<int>() == (int)gen(m, 0);
    case 9: return a.receiveSingleT<uint64_t>() == gen(m, 0);
    default: { auto x = a.receiveSingleT<__m128i>(), y = gen128(m, 0); return memcmp(&x, &y, 16) == 0; }
  }
}
static std::string sh(const Msg& m) { return cat("kind ", m.kind, " n=", m.n, " seed ", m.s); }
static std::vector<Msg> script(Rng& r, size_t len, size_t big) {
  std::vector<Msg> v;
  for (size_t i = 0; i < len; i++) {
    Msg m;
    m.kind = r.below(KINDS);
    m.n = r.below(12) == 0 ? r.below(big) : r.below(6) ? 1 + r.below(40) : r.below(3) * 8;
    m.s = r.next();
    v.push_back(m);
  }
  return v;
}
// both directions at once; p says in which thread
static void both(A& a, A& b, Rng& r, size_t len, size_t big, const std::string& what, bool stats) {
  auto ab = script(r, len, big), ba = script(r, len, big);
  auto t0a = a.getTrafficStatistics(), t0b = b.getTrafficStatistics();
  auto side = [&](A& x, const std::vector<Msg>& out, const std::vector<Msg>& in, bool leads) {
    for (size_t i = 0; i < len; i++) {
      if (leads) snd(x, out[i]);
      bool ok = rcv(x, in[i]);
      check(ok, cat(what, ": message ", i, " (", sh(in[i]), ") does not arrive as it was sent"));
      if (!leads) snd(x, out[i]);
    }
  };
  parties(2, what, [&](int p) { p == 0 ? side(a, ab, ba, true) : side(b, ba, ab, false); });
  if (stats) {
    size_t sa = 0, sb = 0;
    for (auto& m : ab) sa += bytesOf(m);
    for (auto& m : ba) sb += bytesOf(m);
    auto ta = a.getTrafficStatistics(), tb = b.getTrafficStatistics();
    check(ta.first - t0a.first == sa && ta.second - t0a.second == sb, cat(what, ": traffic of the first party is ", ta.first - t0a.first, "/", ta.second - t0a.second, " for ", sa, "/", sb, " bytes"));
    check(tb.first - t0b.first == sb && tb.second - t0b.second == sa, cat(what, ": traffic of the second party is ", tb.first - t0b.first, "/", tb.second - t0b.second, " for ", sb, "/", sa, " bytes"));
  }
}
// raw bytes cut differently at the two ends
static void cuts(A& a, A& b, Rng& r, size_t total, const std::string& what) {
  auto data = r.bytes(total);
  auto cut = [](uint64_t s, size_t n) { Rng q(s); std::vector<size_t> c; while (n) { size_t k = 1 + q.below(q.below(3) ? 20 : n); if (k > n) k = n; c.push_back(k); n -= k; } return c; };
  auto cs = cut(r.next(), total), cr = cut(r.next(), total);
  VC got;
  parties(2, what, [&](int p) {
    size_t o = 0;
    if (p == 0) for (auto k : cs) { a.send(VC(data.begin() + o, data.begin() + o + k)); o += k; }
    else for (auto k : cr) { auto x = b.receive(k); check(x.size() == k, cat(what, ": asked for ", k, " bytes, got ", x.size())); got.insert(got.end(), x.begin(), x.end()); }
  });
  check(got == data, cat(what, ": ", total, " bytes cut into ", show(cs), " and read as ", show(cr), " arrive changed"));
}
static void packing() {
  Rng r(seed + 1);
  int rounds = thorough() ? 4000 : 800;
  for (int i = 0; i < rounds; i++) {
    size_t n = i < 80 ? i : 1 + r.below(r.below(20) ? 200 : 20000);
    auto v = r.bits(n);
    ec::InMemoryPartyCommunicationAgentHost h;
    auto a = h.getAgent(0), b = h.getAgent(1);
    a->sendBool(v);
    auto raw = b->receive((n + 7) / 8);
    bool ok = true;
    for (size_t k = 0; k < raw.size() * 8; k++) ok = ok && ((raw[k / 8] >> (7 - k % 8)) & 1) == (k < n && v[k]);
    check(ok, cat("sendBool of ", n, " bits: packed bytes are ", show(raw)));
    b->send(raw);
    check(a->receiveBool(n) == v, cat("receiveBool of ", n, " bits"));
  }
}
static void inMemory() {
  Rng r(seed + 2);
  int rounds = thorough() ? 300 : 60;
  for (int i = 0; i < rounds; i++) {
    ec::InMemoryPartyCommunicationAgentHost h;
    auto a = h.getAgent(0), b = h.getAgent(1);
    check(throwsAny([&] { h.getAgent(i % 2); }), "an agent can be taken twice");
    both(*a, *b, r, 30, 3000, "in-memory agents", true);
    cuts(*a, *b, r, 1 + r.below(2000), "in-memory agents");
    cuts(*b, *a, r, 1 + r.below(2000), "in-memory agents");
  }
  // factories: several parties, each pair with its own channel, several channels per pair
  for (int i = 0; i < (thorough() ? 40 : 10); i++) {
    int n = 2 + r.below(3);
    auto f = bat::memFactories(n);
    std::vector<std::map<int, std::unique_ptr<A>>> m1, m2;
    for (int p = 0; p < n; p++) { m1.push_back(ec::getAgentMap(n, p, *f[p])); m2.push_back(ec::getAgentMap(n, p, *f[p])); }
    for (int p = 0; p < n; p++) check((int)m1[p].size() == n - 1 && !m1[p].count(p), "the agent map has one agent per other party");
    for (int p = 0; p < n; p++)
      for (int q = 0; q < n; q++)
        if (p != q) { m1[p].at(q)->sendSingleT<uint64_t>(100 * p + q); m2[p].at(q)->sendSingleT<uint64_t>(10000 + 100 * p + q); }
    for (int p = 0; p < n; p++)
      for (int q = 0; q < n; q++)
        if (p != q) check(m2[p].at(q)->receiveSingleT<uint64_t>() == 10000u + 100 * q + p && m1[p].at(q)->receiveSingleT<uint64_t>() == 100u * q + p, "messages of the channels between the parties are mixed up");
  }
}
// opening of shared secrets among n parties
static void opening() {
  Rng r(seed + 3);
  int rounds = thorough() ? 200 : 50;
  for (int i = 0; i < rounds; i++) {
    int n = 2 + r.below(4);
    auto f = bat::memFactories(n);
    std::vector<std::unique_ptr<ec::SecretShareEngineCommunicationAgent>> ag;
    for (int p = 0; p < n; p++) ag.push_back(std::make_unique<ec::SecretShareEngineCommunicationAgent>(p, ec::getAgentMap(n, p, *f[p])));
    size_t k = r.below(5) ? r.below(40) : 0;
    int to = r.below(n);
    std::vector<std::vector<bool>> b(n);
    std::vector<std::vector<uint64_t>> w(n);
    std::vector<bool> ob(k);
    std::vector<uint64_t> ow(k);
    for (int p = 0; p < n; p++) {
      b[p] = r.bits(k); w[p] = r.words(k);
      for (size_t j = 0; j < k; j++) { ob[j] = ob[j] ^ b[p][j]; ow[j] += w[p][j]; }
    }
    std::vector<uint64_t> keys(n * n);
    for (auto& x : keys) x = r.next();
    std::vector<std::pair<uint64_t, uint64_t>> tr(n);
    parties(n, "opening", [&](int p) {
      auto what = cat(" of ", k, " shares among ", n, " parties, party ", p);
      check(ag[p]->openSecretsToAll(b[p]) == ob, "opening bits" + what);
      check(ag[p]->openSecretsToAll(w[p]) == ow, "opening integers" + what);
      auto rb = ag[p]->openSecretsToParty(to, b[p]);
      check(p == to ? rb == ob : rb.size() == k, cat("opening bits to party ", to) + what);
      if (p != to) for (auto x : rb) check(!x, cat("opening bits to party ", to, ": a dummy value is not 0"));
      auto rw = ag[p]->openSecretsToParty(to, w[p]);
      check(p == to ? rw == ow : rw.size() == k, cat("opening integers to party ", to) + what);
      if (p != to) for (auto x : rw) check(!x, cat("opening integers to party ", to, ": a dummy value is not 0"));
      std::map<int, __m128i> mine;
      for (int q = 0; q < n; q++) if (q != p) mine[q] = _mm_set_epi64x(keys[p * n + q], ~keys[p * n + q]);
      auto got = ag[p]->exchangeKeys(mine);
      check((int)got.size() == n - 1, "exchangeKeys: one key per other party");
      for (auto& [q, x] : got) check((uint64_t)_mm_extract_epi64(x, 1) == keys[q * n + p] && (uint64_t)_mm_extract_epi64(x, 0) == ~keys[q * n + p], "exchangeKeys: a key arrives at the wrong party or changed");
      tr[p] = ag[p]->getTrafficStatistics();
    });
    for (int p = 0; p < n; p++) {
      size_t per = (k + 7) / 8 + 8 * k, s = (n - 1) * (per + 16) + (p == to ? 0 : per), q = (n - 1) * (per + 16) + (p == to ? (n - 1) * per : 0);
      check(tr[p].first == s && tr[p].second == q, cat("traffic of party ", p, " of ", n, " opening ", k, " shares: ", tr[p].first, "/", tr[p].second, " for ", s, "/", q, " bytes"));
    }
  }
}
// ---- sockets -----------------------------------------------------------------------------------------------
static int freePort() {
  int s = socket(AF_INET, SOCK_STREAM, 0);
  if (s < 0) return 0;
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t l = sizeof(a);
  int p = 0;
  if (bind(s, (sockaddr*)&a, sizeof(a)) == 0 && getsockname(s, (sockaddr*)&a, &l) == 0) p = ntohs(a.sin_port);
  close(s);
  return p;
}
// a key and a certificate for 127.0.0.1 signed by itself
static bool certificate() {
  EVP_PKEY* k = EVP_RSA_gen(2048);
  X509* x = X509_new();
  if (!k || !x) return false;
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
  X509_gmtime_adj(X509_getm_notBefore(x), -86400);
  X509_gmtime_adj(X509_getm_notAfter(x), 864000);
  X509_set_pubkey(x, k);
  auto n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
  X509_set_issuer_name(x, n);
  X509V3_CTX c;
  X509V3_set_ctx_nodb(&c);
  X509V3_set_ctx(&c, x, x, nullptr, nullptr, 0);
  for (auto& [nid, v] : std::vector<std::pair<int, const char*>>{{NID_basic_constraints, "critical,CA:TRUE"}, {NID_subject_alt_name, "DNS:localhost"}}) {
    auto e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
    if (!e) return false;
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  }
  if (!X509_sign(x, k, EVP_sha256())) return false;
  FILE* f = fopen("key.pem", "w");
  bool ok = PEM_write_PrivateKey(f, k, EVP_aes_128_cbc(), (const unsigned char*)"sesame", 6, nullptr, nullptr);
  fclose(f);
  f = fopen("cert.pem", "w");
  ok = PEM_write_X509(f, x) && ok;
  fclose(f);
  std::ofstream("passphrase.pem") << "sesame\n";
  return ok;
}
static void sockets(bool tls) {
  signal(SIGPIPE, SIG_IGN);
  Rng r(seed + 4 + tls);
  std::string what = tls ? "TLS sockets" : "plain sockets";
  if (!freePort()) { printf("NOTE no loopback network: sockets not exercised\n"); return; }
  ec::SocketPartyCommunicationAgent::TlsInfo ti{tls, "cert.pem", "key.pem", "passphrase.pem", "cert.pem"};
  if (tls && !certificate()) { printf("NOTE no certificate: TLS not exercised\n"); return; }
  int rounds = thorough() ? 6 : 2;
  for (int i = 0; i < rounds; i++) {
    int n = tls ? 2 : 2 + i % 2;
    // ports[p][q]: where p listens for q > p
    std::map<std::pair<int, int>, int> port;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) port[{p, q}] = freePort();
    std::vector<std::unique_ptr<ec::SocketPartyCommunicationAgentFactory>> f(n);
    std::vector<std::shared_ptr<fbpcf::util::MetricCollector>> mc(n);
    for (int p = 0; p < n; p++) mc[p] = std::make_shared<fbpcf::util::MetricCollector>("m");
    parties(n, what, [&](int p) {
      std::map<int, ec::SocketPartyCommunicationAgentFactory::PartyInfo> info;
      for (int q = 0; q < n; q++) if (q != p) info[q] = {"localhost", port[{std::min(p, q), std::max(p, q)}]};
      f[p] = std::make_unique<ec::SocketPartyCommunicationAgentFactory>(p, info, ti, mc[p], 20);
    });
    for (int k = 0; k < 2; k++) {
      std::vector<std::map<int, std::unique_ptr<A>>> m(n);
      parties(n, what, [&](int p) { for (int q = 0; q < n; q++) if (q != p) m[p][q] = f[p]->create(q, cat("c", k, "_", q)); });
      check(throwsAny([&] { f[0]->create(0, "self"); }) && throwsAny([&] { f[0]->create(n, "nobody"); }), what + ": an agent to oneself or to an unknown party");
      for (int p = 0; p < n; p++)
        for (int q = p + 1; q < n; q++) {
          both(*m[p].at(q), *m[q].at(p), r, 25, 5000, what, true);
          cuts(*m[p].at(q), *m[q].at(p), r, 1 + r.below(100000), what);
          cuts(*m[q].at(p), *m[p].at(q), r, 1 + r.below(100000), what);
        }
      // the sender goes away: a receive must not invent data
      auto& a = m[0].at(1);
      auto& b = m[1].at(0);
      for (int rev = 0; rev < 2; rev++) (rev ? b : a)->sendSingleT<int>(rev);
      check(a->receiveSingleT<int>() == 1 && b->receiveSingleT<int>() == 0, what + ": last message");
      a->send({1, 2, 3});
      auto ended = std::async(std::launch::async, [&] { return throwsAny([&] { b->receive(5); }); });
      a.reset();
      if (ended.wait_for(std::chrono::seconds(20)) != std::future_status::ready) {
        fail(what + ": a receive never returns after the sender has gone");
        printf("COUNT %ld\n", count.load()); fflush(stdout); _exit(1);
      }
      check(ended.get(), what + ": a receive returns although the sender has gone before sending the whole message");
    }
  }
}
int main(int c, char** v) {
  return run(c, v, {{"M01", packing, "packing"}, {"M01", inMemory, "in-memory agents"}, {"M01", opening, "opening"}, {"M01", [] { sockets(false); }, "plain sockets"}, {"M01", [] { sockets(true); }, "TLS sockets"}});
}
