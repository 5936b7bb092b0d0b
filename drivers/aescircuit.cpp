#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtr.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
using namespace fbpcf::mpc_std_lib::aes_circuit;
void use(const std::vector<bool>& p) {
  AesCircuit<bool> a;
  auto c = a.encrypt(p, p);
  c = a.decrypt(p, p);
  AesCircuitCtr<bool> d(std::make_unique<AesCircuit<bool>>());
  c = d.encrypt(p, p, p);
  c = d.decrypt(p, p, p);
  AesCircuitFactory<bool> f;
  auto x = f.create();
  AesCircuitCtrFactory<bool> g;
  auto y = g.create();
}
