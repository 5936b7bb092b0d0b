From 8e7df8647b2e21de1dc76bd223fb9ec72dcbb3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 01/10] fix: one-bit Int addition and subtraction folded the
 carry into bit 0 a second time

---
 fbpcf/frontend/Int_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..e07fc58 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +180,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From f15718460614191f569b5118537f4f6d34dc98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 02/10] fix: self-assigning a Bit freed its wire before taking
 the new reference

---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..63520a5 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // hold the new wire before releasing the old one, they may be the same
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From b9a5c7ad38df7a5755551f1875875c2f2eaa1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 03/10] fix: lazy batchingUp sized its result by values that
 may not be computed yet

---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From 6a9e71b8435b07de8ca1c2a762074888e5926132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 04/10] fix: a lazy AND or product of empty batches read the
 result of another gate

---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 4 ++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6a5af23 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,10 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..7f7b8d7 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,10 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From e49cfeb8bbe52cab72916bc99867035371933a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 05/10] fix: base OT passed an unterminated hex string to the
 point decoder

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From 5abc3a470f34380fe9a3b2f9af710191b9a4836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 06/10] fix: socket agent returned from send and receive
 without the whole message

---
 .../SocketPartyCommunicationAgent.cpp              | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..22a844c 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -128,7 +128,9 @@ void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
   } else {
     bytesWritten = SSL_write(ssl_, data, nBytes);
   }
-  assert(bytesWritten == nBytes);
+  if (bytesWritten != nBytes) {
+    throw std::runtime_error("Failed to send the whole message.");
+  }
   recorder_->addSentData(bytesWritten);
   if (!ssl_) {
     fflush(outgoingPort_);
@@ -146,13 +148,19 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
     while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+      const int rst = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (rst <= 0) {
+        throw std::runtime_error("Failed to receive the whole message.");
+      }
+      bytesRead += rst;
     }
   }
-  assert(bytesRead == nBytes);
+  if (bytesRead != nBytes) {
+    throw std::runtime_error("Failed to receive the whole message.");
+  }
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From e8f98430958c4784f16c6f3e4135d19e57af8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 07/10] fix: in-memory agent delivered the start of a partly
 read message again

---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..58af976 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      const auto missing = size - result.size();
+      result.insert(result.end(), buf.begin(), buf.begin() + missing);
+      buf.erase(buf.begin(), buf.begin() + missing);
     }
   }
   return result;
-- 
2.43.0


From 8240ab04cac551635e8cacd98c3dc8262e2ea1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 08/10] fix: negating an unsigned Intp of value 0 threw for
 widths other than 8, 16, 32 and 64

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..dd74c76 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return round(kOffSet - v_);
     }
   }
 
-- 
2.43.0


From abc1062788e768968f0f65a713a8df6913a09bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 09/10] fix: bits of a negative Intp were written past the end
 of the result

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index dd74c76..d24a02d 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -157,7 +157,7 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    for (size_t t = 0; t < width; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From 0c81671565550c8edae44a353c2b2f6cc7344a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 10/10] fix: unsigned Intp subtraction threw, and 31-bit signed
 results overflowed, when the result wrapped around

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index d24a02d..51fa2d8 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -82,15 +82,16 @@ class Intp {
   static constexpr NativeType kOffSet =
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
+  // keep the lowest width bits, extending the sign of signed integers.
   inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
-        return v + kOffSet;
+    constexpr uint64_t mask = ULLONG_MAX >> (64 - width);
+    uint64_t rst = static_cast<uint64_t>(v) & mask;
+    if constexpr (isSigned) {
+      if ((rst >> (width - 1)) != 0) {
+        rst |= ~mask;
       }
     }
-    return v;
+    return static_cast<NativeType>(rst);
   }
 
  private:
-- 
2.43.0

