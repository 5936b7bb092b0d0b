#include "fbpcf/scheduler/PlaintextScheduler.cpp"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.cpp"
#include "fbpcf/scheduler/EagerScheduler.cpp"
#include "fbpcf/scheduler/LazyScheduler.cpp"
#include "fbpcf/scheduler/WireKeeper.cpp"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.cpp"
namespace drv {
using namespace fbpcf::scheduler;
void keepers() {
  WireKeeper::createWithVectorArena<true>();
  WireKeeper::createWithVectorArena<false>();
  WireKeeper::createWithUnorderedMap();
}
}
