#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp"
#include <emmintrin.h>

using A = fbpcf::engine::communication::IPartyCommunicationAgent;
template <class T>
void useT(A& a) {
  std::vector<T> v = a.receiveT<T>(3);
  a.sendT<T>(v);
}
template <class T>
void useS(A& a) {
  T x = a.receiveSingleT<T>();
  a.sendSingleT<T>(x);
}
void use(A& a) {
  useT<bool>(a);
  useT<unsigned char>(a);
  useT<uint32_t>(a);
  useT<uint64_t>(a);
  useT<__m128i>(a);
  useS<int>(a);
  useS<uint64_t>(a);
  useS<__m128i>(a);
  a.sendBool(a.receiveBool(1));
  a.sendInt64(a.receiveInt64(1));
  a.send(a.receive(1));
}
