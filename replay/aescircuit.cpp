// SOURCES: fbpcf/engine/util/aes.cpp fbpcf/engine/util/util.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp
// The AES circuit and its counter mode on plain bits and on secret batches, against OpenSSL.
#include <openssl/evp.h>
#include "common.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
using namespace bat;
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
using VC = std::vector<unsigned char>;
using VB = std::vector<bool>;
static VC ossl(const VC& key, const VC& in) {
  VC out(in.size() + 32);
  auto* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  int l = 0;
  EVP_EncryptUpdate(c, out.data(), &l, in.data(), in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(in.size());
  return out;
}
static VB bits(const VC& x) {
  VB r;
  for (auto c : x)
    for (int i = 7; i >= 0; i--) r.push_back((c >> i) & 1);
  return r;
}
static unsigned char mul(unsigned char a, unsigned char b) {
  unsigned char r = 0;
  for (; b; b >>= 1, a = (a << 1) ^ (a & 0x80 ? 0x1b : 0))
    if (b & 1) r ^= a;
  return r;
}
static unsigned char sbox(unsigned char x) {
  int inv = 0;
  for (int y = 1; y < 256; y++)
    if (mul(x, y) == 1) inv = y;
  int r = 0x63;
  for (int k = 0; k < 5; k++) r ^= ((inv << k) | (inv >> (8 - k))) & 255;
  return r;
}
static VC expand(const VC& key) {
  static std::vector<unsigned char> S = [] { std::vector<unsigned char> s; for (int i = 0; i < 256; i++) s.push_back(sbox(i)); return s; }();
  VC w = key;
  unsigned char rc = 1;
  for (int i = 4; i < 44; i++) {
    unsigned char t[4];
    for (int j = 0; j < 4; j++) t[j] = w[4 * i - 4 + j];
    if (i % 4 == 0) {
      unsigned char u = t[0];
      for (int j = 0; j < 4; j++) t[j] = S[j < 3 ? t[j + 1] : u];
      t[0] ^= rc;
      rc = mul(rc, 2);
    }
    for (int j = 0; j < 4; j++) w.push_back(w[4 * i - 16 + j] ^ t[j]);
  }
  return w;
}
// round keys of the equivalent inverse cipher: last first, the inner ones through the inverse column mixing
static VC inverse(const VC& k) {
  VC r;
  const unsigned char m[4] = {14, 11, 13, 9};
  for (int i = 10; i >= 0; i--)
    for (int c = 0; c < 4; c++)
      for (int j = 0; j < 4; j++) {
        if (i == 0 || i == 10) { r.push_back(k[16 * i + 4 * c + j]); continue; }
        unsigned char x = 0;
        for (int q = 0; q < 4; q++) x ^= mul(k[16 * i + 4 * c + q], m[(q - j + 4) % 4]);
        r.push_back(x);
      }
  return r;
}
static void plain() {
  ac::AesCircuitFactory<bool> f;
  ac::AesCircuitCtrFactory<bool> cf;
  for (int it = 0; it < (thorough() ? 3000 : 300); it++) {
    Rng r(seed * 11 + it);
    auto key = r.bytes(16);
    size_t n = it % 10 == 9 ? 10 + r.below(20) : r.below(4);
    auto text = r.bytes(16 * n), ctr = r.bytes(16 * n);
    auto ek = expand(key);
    auto c = f.create();
    auto d = cat("key ", show(key), ", text ", show(text));
    auto got = c->encrypt(bits(text), bits(ek));
    check(got == bits(ossl(key, text)), cat("encryption, ", d));
    check(c->decrypt(got, bits(inverse(ek))) == bits(text), cat("decryption, ", d));
    auto pad = ossl(key, ctr), x = text;
    for (size_t i = 0; i < x.size(); i++) x[i] ^= pad[i];
    auto cc = cf.create();
    auto g2 = cc->encrypt(bits(text), bits(ek), bits(ctr));
    check(g2 == bits(x), cat("counter mode, ", d, ", counters ", show(ctr)));
    check(cc->decrypt(g2, bits(ek), bits(ctr)) == bits(text), cat("counter mode decryption, ", d));
    for (int q : {127, 1, 129}) {
      auto k = bits(ek);
      check(throwsAny([&] { c->encrypt(r.bits(q), k); }) && throwsAny([&] { c->decrypt(r.bits(q), k); }) && throwsAny([&] { cc->encrypt(r.bits(q), k, r.bits(q)); }) && throwsAny([&] { cc->decrypt(r.bits(q), k, r.bits(q)); }), cat("a text of ", q, " bits is taken"));
    }
    for (int q : {0, 128, 1407, 1409, 1280}) {
      auto k = r.bits(q), t = r.bits(128);
      check(throwsAny([&] { c->encrypt(t, k); }) && throwsAny([&] { c->decrypt(t, k); }) && throwsAny([&] { cc->encrypt(t, k, t); }) && throwsAny([&] { cc->decrypt(t, k, t); }), cat("round keys of ", q, " bits are taken"));
    }
    auto k = bits(ek);
    for (auto [a, b] : {std::pair{128, 256}, {256, 128}, {0, 128}, {128, 0}, {128, 129}})
      check(throwsAny([&] { cc->encrypt(r.bits(a), k, r.bits(b)); }) && throwsAny([&] { cc->decrypt(r.bits(a), k, r.bits(b)); }), cat("counters of ", b, " bits are taken for a text of ", a));
  }
}
static void secret() {
  using Sec = fbpcf::frontend::Bit<true, 0, true>;
  for (int it = 0; it < (thorough() ? 20 : 3); it++) {
    Rng r(seed * 17 + it);
    fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::make_unique<fbpcf::scheduler::PlaintextScheduler>(fbpcf::scheduler::WireKeeper::createWithVectorArena<true>()));
    size_t n = 1 + r.below(2), b = 1 + r.below(5);
    std::vector<VC> keys, texts;
    std::vector<VB> kb, db, tb;
    for (size_t i = 0; i < b; i++) {
      keys.push_back(r.bytes(16));
      texts.push_back(r.bytes(16 * n));
      kb.push_back(bits(expand(keys[i])));
      db.push_back(bits(inverse(expand(keys[i]))));
      tb.push_back(bits(texts[i]));
    }
    auto in = [&](const std::vector<VB>& v) {
      std::vector<Sec> out;
      for (size_t i = 0; i < v[0].size(); i++) {
        VB col(b);
        for (size_t j = 0; j < b; j++) col[j] = v[j][i];
        out.emplace_back(col, 0);
      }
      return out;
    };
    ac::AesCircuitFactory<Sec> f;
    auto c = f.create();
    auto enc = c->encrypt(in(tb), in(kb));
    auto dec = c->decrypt(enc, in(db));
    for (size_t j = 0; j < b; j++) {
      auto w = bits(ossl(keys[j], texts[j]));
      bool ok = enc.size() == w.size() && dec.size() == w.size(), ok2 = true;
      for (size_t i = 0; ok && i < w.size(); i++) {
        ok = enc[i].openToParty(0).getValue().at(j) == w[i];
        ok2 = ok2 && dec[i].openToParty(0).getValue().at(j) == tb[j][i];
      }
      check(ok, cat("encryption of secret batches: entry ", j, ", key ", show(keys[j]), ", text ", show(texts[j])));
      check(ok2, cat("decryption of secret batches: entry ", j, ", key ", show(keys[j]), ", text ", show(texts[j])));
    }
  }
}
int main(int argc, char** argv) {
  return run(argc, argv, {
    {"L01", plain, "plain bits"},
    {"L01", secret, "secret batches"},
  });
}
