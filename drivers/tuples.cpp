#include "fbpcf/engine/tuple_generator/TupleGenerator.cpp"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.cpp"
#include "fbpcf/engine/tuple_generator/ProductShareGenerator.cpp"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp"
#include "fbpcf/engine/tuple_generator/DummyProductShareGenerator.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.cpp"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplier.cpp"
#include "fbpcf/engine/util/util.cpp"
#include "fbpcf/engine/util/aes.cpp"
#include "fbpcf/engine/util/AesPrg.cpp"
#include "fbpcf/primitive/mac/S2v.cpp"
