// A trusted dealer: correlated tuples handed to all parties from one seed, so that the engine is exercised with random correlations.
#pragma once
#include <emmintrin.h>
#include "common.h"
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/IArithmeticTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/ITupleGenerator.h"
#include "fbpcf/engine/util/AesPrgFactory.h"

namespace bat {
namespace tg = fbpcf::engine::tuple_generator;
namespace comm = fbpcf::engine::communication;

inline std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> memFactories(int n) {
  using F = comm::InMemoryPartyCommunicationAgentFactory;
  std::vector<std::map<int, std::shared_ptr<F::HostInfo>>> maps(n);
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      auto info = std::make_shared<F::HostInfo>();
      info->mutex = std::make_unique<std::mutex>();
      maps[i].emplace(j, info);
      maps[j].emplace(i, info);
    }
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> r;
  for (int i = 0; i < n; i++) r.push_back(std::make_unique<F>(i, std::move(maps[i])));
  return r;
}

class DealerTuples : public tg::ITupleGenerator {
 public:
  DealerTuples(uint64_t seed, int me, int n, bool composite) : r(seed), me(me), n(n), comp(composite) {}
  std::vector<bool> share(const std::vector<bool>& v) {
    std::vector<bool> mine(v.size()), acc = v;
    for (int p = 0; p < n; p++) {
      std::vector<bool> s = p + 1 == n ? acc : r.bits(v.size());
      for (size_t i = 0; i < v.size(); i++) acc[i] = acc[i] ^ s[i];
      if (p == me) mine = s;
    }
    return mine;
  }
  std::vector<BooleanTuple> getBooleanTuple(uint32_t size) override {
    auto a = r.bits(size), b = r.bits(size);
    std::vector<bool> c(size);
    for (size_t i = 0; i < size; i++) c[i] = a[i] && b[i];
    auto sa = share(a), sb = share(b), sc = share(c);
    std::vector<BooleanTuple> t;
    for (size_t i = 0; i < size; i++) t.emplace_back(sa[i], sb[i], sc[i]);
    return t;
  }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& sizes) override {
    std::map<size_t, std::vector<CompositeBooleanTuple>> m;
    for (auto& kv : sizes) {
      std::vector<CompositeBooleanTuple> v;
      for (uint32_t q = 0; q < kv.second; q++) {
        bool a = r.bit();
        auto b = r.bits(kv.first);
        std::vector<bool> c(b.size());
        for (size_t i = 0; i < b.size(); i++) c[i] = a && b[i];
        auto sa = share({a});
        auto sb = share(b);
        auto sc = share(c);
        v.emplace_back(sa[0], sb, sc);
      }
      m.emplace(kv.first, v);
    }
    return m;
  }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>> getNormalAndCompositeBooleanTuples(uint32_t k, const std::map<size_t, uint32_t>& m) override {
    auto a = getBooleanTuple(k);
    return {a, getCompositeTuple(m)};
  }
  bool supportsCompositeTupleGeneration() override { return comp; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  Rng r;
  int me, n;
  bool comp;
};

class DealerArith : public tg::IArithmeticTupleGenerator {
 public:
  DealerArith(uint64_t seed, int me, int n) : r(seed), me(me), n(n) {}
  uint64_t share(uint64_t v) {
    uint64_t mine = 0;
    for (int p = 0; p < n; p++) {
      uint64_t s = p + 1 == n ? v : r.next();
      v -= s;
      if (p == me) mine = s;
    }
    return mine;
  }
  std::vector<IntegerTuple> getIntegerTuple(uint32_t size) override {
    std::vector<IntegerTuple> t;
    for (uint32_t i = 0; i < size; i++) {
      uint64_t a = r.next(), b = r.next();
      uint64_t sa = share(a), sb = share(b), sc = share(a * b);
      t.emplace_back(sa, sb, sc);
    }
    return t;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  Rng r;
  int me, n;
};

inline std::unique_ptr<fbpcf::engine::SecretShareEngine> dealerEngine(uint64_t seed, int me, int n, comm::IPartyCommunicationAgentFactory& f, bool composite) {
  return std::make_unique<fbpcf::engine::SecretShareEngine>(
      std::make_unique<DealerTuples>(seed, me, n, composite), std::make_unique<DealerArith>(seed + 1, me, n),
      std::make_unique<comm::SecretShareEngineCommunicationAgent>(me, comm::getAgentMap(n, me, f)),
      std::make_unique<fbpcf::engine::util::AesPrgFactory>(1024), me, n);
}
} // namespace bat
