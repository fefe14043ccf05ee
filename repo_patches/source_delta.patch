From 2768b6fdebe325a6dc7b21ce1f463340b1718d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 01/38] fix: lazy AND/multiplication of empty batches read a
 result that was never scheduled

---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 4 ++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6a5af23 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,10 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..7f7b8d7 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,10 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From b1571d2cd58f99c5cce40e96df9a4eb8e712c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 02/38] fix: lazily batched-up wires reported the batch size of
 operands that had not run yet as 0

---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From e8003e2857062e49c6bd60cb3a79878df205471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 03/38] fix: executing only empty batched requests discarded
 their (empty) results

---
 fbpcf/engine/SecretShareEngine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..ea96b12 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -524,8 +524,8 @@ SecretShareEngine::computeAllScheduledOperations(
       openedSecretCount += batchSize * (1 + compositeSize);
     }
 
-    if (normalTupleCount == 0 && compositeTupleCount.empty() &&
-        integerTupleCount == 0) {
+    if (ands.empty() && batchAnds.empty() && compositeAnds.empty() &&
+        batchCompositeAnds.empty() && mults.empty() && batchMults.empty()) {
       return {
           std::vector<bool>(),
           std::vector<std::vector<bool>>(),
@@ -591,7 +591,8 @@ SecretShareEngine::computeAllScheduledOperations(
       normalTupleCount += compositeSize * batchSize;
     }
 
-    if (normalTupleCount == 0 && integerTupleCount == 0) {
+    if (ands.empty() && batchAnds.empty() && compositeAnds.empty() &&
+        batchCompositeAnds.empty() && mults.empty() && batchMults.empty()) {
       return {
           std::vector<bool>(),
           std::vector<std::vector<bool>>(),
-- 
2.43.0


From 9aaee7bccdd3ec022f0b137160dcb5550b70e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 04/38] fix: the engine's traffic statistics left out the
 arithmetic tuple generator

---
 fbpcf/engine/SecretShareEngine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..faf9d26 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
-- 
2.43.0


From 8e1571c3d75e9f9c55b83b0c970fc91a08ec99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 05/38] fix: assigning a bit to itself released its wire

---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..6a7e69d 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // increase first so that assigning a bit to itself doesn't free its wire
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From 2207febea7f0e789e7a5982f558a9fe158234188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 06/38] fix: the received base-OT point was handed to OpenSSL
 without a terminating zero

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From bb7247e1ec42e982bc224071bcf28b6d31baefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 07/38] fix: a failed background generation terminated the
 process in AsyncBuffer's destructor

---
 fbpcf/engine/util/AsyncBuffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fbpcf/engine/util/AsyncBuffer.h b/fbpcf/engine/util/AsyncBuffer.h
index b8927f8..3a7804f 100644
--- a/fbpcf/engine/util/AsyncBuffer.h
+++ b/fbpcf/engine/util/AsyncBuffer.h
@@ -31,7 +31,11 @@ class AsyncBuffer {
   }
 
   ~AsyncBuffer() {
-    futureBuffer_.get();
+    // A failed generation must not escape from a destructor, and after a read
+    // has failed there is nothing left to wait for.
+    if (futureBuffer_.valid()) {
+      futureBuffer_.wait();
+    }
   }
 
   std::vector<T> getData(uint64_t size) {
-- 
2.43.0


From 6f9a3d7eb796580a2c98502eedcf9697673eaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 08/38] fix: in-memory channel delivered the bytes of a partly
 received message again

---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..6e9b92b 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      auto end = buf.begin() + (size - result.size());
+      result.insert(result.end(), buf.begin(), end);
+      buf.erase(buf.begin(), end);
     }
   }
   return result;
-- 
2.43.0


From c56b4ec68f65b8a4662d929a902266d7d0fd788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 09/38] fix: a socket peer that went away was reported as data,
 or never

---
 .../SocketPartyCommunicationAgent.cpp         | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..054c988 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -122,17 +122,16 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
 }
 
 void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
-  size_t bytesWritten;
   if (!ssl_) {
-    bytesWritten = fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
-  } else {
-    bytesWritten = SSL_write(ssl_, data, nBytes);
-  }
-  assert(bytesWritten == nBytes);
-  recorder_->addSentData(bytesWritten);
-  if (!ssl_) {
-    fflush(outgoingPort_);
+    if (fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_) != nBytes ||
+        fflush(outgoingPort_) != 0) {
+      throw std::runtime_error("error on sending data to the peer");
+    }
+  } else if (nBytes > 0 && SSL_write(ssl_, data, nBytes) != nBytes) {
+    throw std::runtime_error(
+        "error on sending data to the peer " + getErrorInfo());
   }
+  recorder_->addSentData(nBytes);
 }
 
 void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
@@ -140,19 +139,26 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
 
   if (!ssl_) {
     bytesRead = fread(data, sizeof(unsigned char), nBytes, incomingPort_);
+    if (bytesRead != nBytes) {
+      throw std::runtime_error("the peer closed the connection");
+    }
   } else {
     // fread is blocking, but SSL_read is nonblocking. This discrepancy
     // can cause issues at the application level. We need to make sure that
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
     while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+      auto rst = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (rst <= 0) {
+        throw std::runtime_error(
+            "the peer closed the connection " + getErrorInfo());
+      }
+      bytesRead += rst;
     }
   }
-  assert(bytesRead == nBytes);
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From 138b7053fba33051aa3ff1b34677b4c1940fef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 10/38] fix: TLS connections were never closed

---
 .../communication/SocketPartyCommunicationAgent.cpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 054c988..151eabe 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -116,8 +116,11 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
     fclose(outgoingPort_);
     fclose(incomingPort_);
   } else {
+    // SSL_set_fd leaves the socket to its owner
+    auto sockFd = SSL_get_fd(ssl_);
     SSL_shutdown(ssl_);
     SSL_free(ssl_);
+    close(sockFd);
   }
 }
 
@@ -212,6 +215,9 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  // a session ticket that the client never reads would make it reset the
+  // connection, and drop data on its way, when it closes
+  SSL_CTX_set_num_tickets(ctx, 0);
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
@@ -277,6 +283,9 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  // a session ticket that the client never reads would make it reset the
+  // connection, and drop data on its way, when it closes
+  SSL_CTX_set_num_tickets(ctx, 0);
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
-- 
2.43.0


From 01fa017d136f1c97c8f379641e179d23e188ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 11/38] fix: addition and subtraction of one-bit integers

---
 fbpcf/frontend/Int_impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..653761b 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  // with a single bit there is nothing left to carry into
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +181,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  // with a single bit there is nothing left to borrow from
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From af039024575c538f9cf4da01a8012cda6f2e6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 12/38] fix: composite AND of an empty list threw under the
 lazy scheduler

Multiplexing strings of no bits (or AND-ing a bit with an empty vector) is
accepted by every other scheduler.
---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 948023f..30c251e 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -290,6 +290,9 @@ std::vector<IScheduler::WireId<IScheduler::Boolean>> GateKeeper::compositeGate(
     IScheduler::WireId<IScheduler::Boolean> left,
     std::vector<IScheduler::WireId<IScheduler::Boolean>> rights) {
   auto compositeSize = rights.size();
+  if (compositeSize == 0) {
+    return {};
+  }
   std::vector<IScheduler::WireId<IScheduler::Boolean>> outputWires(
       compositeSize);
   auto level = getOutputLevel(
@@ -315,6 +318,9 @@ GateKeeper::compositeGateBatch(
     IScheduler::WireId<IScheduler::Boolean> left,
     std::vector<IScheduler::WireId<IScheduler::Boolean>> rights) {
   auto compositeSize = rights.size();
+  if (compositeSize == 0) {
+    return {};
+  }
   std::vector<IScheduler::WireId<IScheduler::Boolean>> outputWires(
       compositeSize);
   auto level = getOutputLevel(
-- 
2.43.0


From 12d8dba679e82074cbe9cf5e9cf1506d97b5e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 13/38] fix: compaction of a list without a labelled record
 threw std::out_of_range

---
 fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
index 596f58c..b2e8dcd 100644
--- a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
+++ b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
@@ -89,6 +89,18 @@ class ShuffleBasedCompactor final
       }
     }
 
+    if (compactifiedLabel.empty()) {
+      // nothing is selected: return empty batches
+      auto split = std::make_shared<std::vector<uint32_t>>(
+          std::vector<uint32_t>{0, size});
+      return {
+          util::MpcAdapters<T, schedulerId>::unbatching(shuffledSrc, split)
+              .at(0),
+          util::MpcAdapters<LabelT, schedulerId>::unbatching(
+              shuffledLabel, split)
+              .at(0)};
+    }
+
     // rebatch
     auto rstLabel = util::MpcAdapters<LabelT, schedulerId>::batchingWith(
         compactifiedLabel.at(0),
-- 
2.43.0


From 4c16b40aab775c60e1a319b0ed8bb5e79c322fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 14/38] fix: negation and subtraction of unsigned Intp of odd
 widths threw

Also the wrap-around of 31- and 63-bit signed values, and the bits of negative values, no longer rely on undefined behaviour.
---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..b033268 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return Intp<isSigned, width>(subtract(0, v_));
     }
   }
 
@@ -84,10 +84,11 @@ class Intp {
 
   inline static NativeType round(NativeType v) {
     if (v > kMax) {
-      return v - kOffSet;
+      // kOffSet itself may not be representable in a signed native type
+      return uint64_t(v) - uint64_t(kOffSet);
     } else if constexpr (isSigned) {
       if (v < kMin) {
-        return v + kOffSet;
+        return uint64_t(v) + uint64_t(kOffSet);
       }
     }
     return v;
@@ -131,7 +132,9 @@ class Intp {
       // width (e.g. overflow is possible).
       return round(uint64_t(a) - uint64_t(b));
     } else {
-      return round(a - b);
+      // the difference of two narrow values may be as small as -kMax, which
+      // wraps around at the native type rather than at 2^width.
+      return round(isSigned || a >= b ? a - b : kOffSet - (b - a));
     }
   }
 
@@ -157,7 +160,7 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    for (size_t t = 0; t < width; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From b9932f2104c7ea3385c4b4ee89a0994d8fbbcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 15/38] fix: decoding a breakdown mapping that has the empty
 tuple threw

---
 fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
index 3efe5b1..c5b386c 100644
--- a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
+++ b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
@@ -16,7 +16,9 @@ OramDecoder::OramDecoder(std::unique_ptr<OramMappingConfig> config) {
   for (const auto& singleMapping : config->getBreakdownMapping()) {
     // parse the key into a vector of uint values
     std::vector<std::string> tuple(0);
-    folly::split(',', singleMapping.first, tuple);
+    if (!singleMapping.first.empty()) { // otherwise a tuple without values
+      folly::split(',', singleMapping.first, tuple);
+    }
     std::vector<uint32_t> converted(tuple.size());
     std::transform(
         tuple.begin(), tuple.end(), converted.begin(), [](std::string str) {
-- 
2.43.0


From 6cce1021e7094a3d5e1a7a883c190112eda2e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 16/38] fix: S2V did not follow RFC 5297, so that padded and
 full texts shared a code

---
 fbpcf/primitive/mac/S2v.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index 8d687b6..08bd437 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -15,26 +15,29 @@ __m128i S2v::getMacM128i(const std::vector<unsigned char>& text) const {
 
 std::vector<unsigned char> S2v::getMac128(
     const std::vector<unsigned char>& text) const {
-  __m128i rb = _mm_set_epi64x(0, rb_nonce);
   std::vector<unsigned char> textCopy(text);
-  std::vector<unsigned char> initialBlock(16);
+  const std::vector<unsigned char> zeroBlock(16);
 
-  __m128i initalMac = mac_->getMacM128i(initialBlock);
+  std::vector<unsigned char> initialBlock = mac_->getMac128(zeroBlock);
 
-  // dbl
-  bool msb = engine::util::getMsb(initalMac);
-  engine::util::lShiftByBitsInPlace(initalMac, 1);
-  if (msb) {
-    initalMac = _mm_xor_si128(initalMac, rb);
-  }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
-
-  // pad
+  // A text of at least one block is xor-ended with the mac of the zero block; a
+  // shorter one is padded and xored with the double of it (RFC5297, 2.4), such
+  // that a padded text isn't confused with a full block.
   if (textCopy.size() < 16) {
-    textCopy.push_back(0x80);
-    while (textCopy.size() < 16) {
-      textCopy.push_back(0x00);
+    // dbl, the first byte is the most significant one
+    const bool msb = initialBlock.at(0) >> 7;
+    for (size_t i = 0; i < 15; ++i) {
+      initialBlock.at(i) =
+          (initialBlock.at(i) << 1) | (initialBlock.at(i + 1) >> 7);
     }
+    initialBlock.at(15) <<= 1;
+    if (msb) {
+      initialBlock.at(15) ^= rb_nonce;
+    }
+
+    // pad
+    textCopy.push_back(0x80);
+    textCopy.resize(16, 0x00);
   }
 
   // xor or xorend
-- 
2.43.0


From 59d04303df56ae608a61ab309c278f649185700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 17/38] fix: UDP row indexes were truncated to 32 bits when
 picking peer's rows

---
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From 16cf3cc04a93e043aedb01cca73be37530aa08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 18/38] fix: UDP indexes peer had not sent were kept for the
 next data set

---
 .../unified_data_process/data_processor/UdpEncryption.cpp        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index 1e8ed73..f464404 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -62,6 +62,7 @@ void UdpEncryption::prepareToProcessPeerData(
   }
   statusOfProcessingPeerData_ = Status::inProgress;
 
+  indexToOrderMap_.clear();
   for (size_t i = 0; i < indexes.size(); i++) {
     indexToOrderMap_.emplace(indexes.at(i), i);
   }
-- 
2.43.0


From 9644176510c2536c00149039730dc409624672e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 19/38] fix: UDP local encryption ignored the index offset

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From 7830c3b23662e3630489a446c174f1812c6042ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 20/38] fix: UDP local encryption cut rows longer than the
 first one

---
 .../unified_data_process/data_processor/UdpUtil.cpp       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index 5b91b09..a49c664 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -14,6 +14,7 @@
 #include <iterator>
 #include <numeric>
 #include <stdexcept>
+#include <string>
 #include "fbpcf/io/api/FileIOWrappers.h"
 
 namespace fbpcf::mpc_std_lib::unified_data_process::data_processor {
@@ -50,6 +51,13 @@ UdpUtil::localEncryption(
   }
   size_t rowCounts = plaintextData.size();
   size_t rowSize = plaintextData.at(0).size();
+  for (const auto& row : plaintextData) {
+    if (row.size() != rowSize) {
+      throw std::invalid_argument(
+          "Inconsistent data width, expecting " + std::to_string(rowSize) +
+          " but get " + std::to_string(row.size()));
+    }
+  }
   size_t rowBlocks = (rowSize + kBlockSize - 1) / kBlockSize;
 
   fbpcf::engine::util::Aes localAes(prgKey);
-- 
2.43.0


From 08fbb1533f56c6125cd50adca0a7d95e9fa80889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 21/38] fix: feature columns of different lengths were read
 past their ends

---
 .../OTBasedMatrixMultiplication_impl.h                    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
index efa1987..e9d43ec 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
@@ -44,6 +44,14 @@ std::vector<double> OTBasedMatrixMultiplication<schedulerId, FixedPointType>::
         std::to_string(std::numeric_limits<uint32_t>::max()) + " rows.");
   }
 
+  for (const auto& column : features) {
+    if (column.size() != nFeatures) {
+      throw std::invalid_argument(
+          "The input sizes are not compatible: "
+          "The columns of the feature matrix differ in length.");
+    }
+  }
+
   // Extracting label before running COTwRM to help the other party
   // extract its label share, which will be used as choice bit
   auto extractedLabels = labels.extractBit().getValue();
-- 
2.43.0


From 3c02905c6ec6955fb3983878da745288a94069e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 22/38] fix: the sender of a COT with random message could call
 receive

---
 .../walr_multiplication/util/COTWithRandomMessage.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.cpp b/fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.cpp
index 9847f3b..467e3e8 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.cpp
+++ b/fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.cpp
@@ -37,6 +37,9 @@ COTWithRandomMessage::send(size_t size) {
 
 std::vector<__m128i> COTWithRandomMessage::receive(
     const std::vector<bool>& choice) {
+  if (role_ != engine::util::Role::receiver) {
+    throw std::runtime_error("Only receiver of the OT can invoke this method.");
+  }
   auto size = choice.size();
   auto rcotReceiverMessages = rcot_->rcot(size);
   assert(rcotReceiverMessages.size() == size);
-- 
2.43.0


From e8dc62ef5cc85b1cb5b8b18161f9db452f791c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 23/38] fix: closing a local file that was read to its end
 reported a failure

---
 fbpcf/io/api/LocalFileReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbpcf/io/api/LocalFileReader.cpp b/fbpcf/io/api/LocalFileReader.cpp
index 9fcf0be..7d4ab89 100644
--- a/fbpcf/io/api/LocalFileReader.cpp
+++ b/fbpcf/io/api/LocalFileReader.cpp
@@ -31,6 +31,8 @@ int LocalFileReader::close() {
     return 0;
   }
   isClosed_ = true;
+  // a last read that was cut short by the end of the file is no failure
+  inputStream_->clear();
   inputStream_->close();
 
   return inputStream_->fail() ? -1 : 0;
-- 
2.43.0


From cbfefc65cb804ba2e899b3127dd9a26e4e3034ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 24/38] fix: reading and transferring whole files appended a
 line end

---
 fbpcf/io/api/FileIOWrappers.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..6b79c27 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -7,6 +7,7 @@
 
 #include <cstddef>
 #include <string>
+#include <vector>
 
 #include "fbpcf/io/api/BufferedReader.h"
 #include "fbpcf/io/api/BufferedWriter.h"
@@ -17,15 +18,17 @@
 
 namespace fbpcf::io {
 
+static constexpr size_t kCopyChunkSize = 4096;
+
 std::string FileIOWrappers::readFile(const std::string& srcPath) {
   auto reader = std::make_unique<fbpcf::io::FileReader>(srcPath);
   auto bufferedReader =
       std::make_unique<fbpcf::io::BufferedReader>(std::move(reader));
   std::string output = "";
-  std::string newLine = "\n";
+  std::vector<char> buf(kCopyChunkSize);
   while (!bufferedReader->eof()) {
-    auto line = bufferedReader->readLine();
-    output += line + newLine;
+    auto size = bufferedReader->read(buf);
+    output.append(buf.data(), size);
   }
   bufferedReader->close();
   return output;
@@ -52,11 +55,10 @@ void FileIOWrappers::transferFileInParts(
   auto bufferedReader =
       std::make_unique<fbpcf::io::BufferedReader>(std::move(reader));
 
-  std::string newLine = "\n";
+  std::vector<char> buf(kCopyChunkSize);
   while (!bufferedReader->eof()) {
-    auto line = bufferedReader->readLine();
-    bufferedWriter->writeString(line);
-    bufferedWriter->writeString(newLine);
+    auto size = bufferedReader->read(buf);
+    bufferedWriter->writeString(std::string(buf.data(), size));
   }
 
   bufferedReader->close();
-- 
2.43.0


From a058e23e713cd47eb28ad37dc4bb16151e4bad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 25/38] fix: a failure to finish writing a whole file was not
 reported

---
 fbpcf/io/api/FileIOWrappers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 6b79c27..977c0ed 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -41,7 +42,9 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write " + destPath);
+  }
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -62,7 +65,9 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write " + destPath);
+  }
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From 3a472893c49e5575b693dd8b0d606a91ca851ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 26/38] fix: LocalFileManager could not write to a bare file
 name

---
 fbpcf/io/LocalFileManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..6762a79 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -42,7 +42,9 @@ void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
-- 
2.43.0


From 1d7106b773efd671d441adf0e22e4745cd82f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 27/38] fix: LocalFileManager::readBytes stopped at a NUL byte
 and kept the range on the stack

---
 fbpcf/io/LocalFileManager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 6762a79..85a32d5 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -83,19 +83,17 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string buffer(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  is.read(buffer.data(), bufferLength);
+  if (is.gcount() != bufferLength) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
-  return s;
+  return buffer;
 }
 } // namespace fbpcf
-- 
2.43.0


From a17d0559c5920be6791666e09e3dd9fd91c47afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 28/38] fix: LocalFileManager::write did not report that the
 data could not be written

---
 fbpcf/io/LocalFileManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 85a32d5..049cbbe 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -51,6 +51,10 @@ void LocalFileManager::write(
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
-- 
2.43.0


From 878be9ef3aa0c31543cd2eb01406ea914b60543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 29/38] fix: CloudFileReader read from an empty path when given
 its reader

---
 fbpcf/io/api/CloudFileReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/CloudFileReader.h b/fbpcf/io/api/CloudFileReader.h
index 3d243f1..819bcb0 100644
--- a/fbpcf/io/api/CloudFileReader.h
+++ b/fbpcf/io/api/CloudFileReader.h
@@ -31,7 +31,8 @@ class CloudFileReader : public IReaderCloser {
 
   explicit CloudFileReader(
       const std::string& filePath,
-      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader) {
+      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader)
+      : filePath_{filePath} {
     cloudFileReader_ = cloudFileReader;
     init(filePath);
   }
-- 
2.43.0


From 2f91aa0d73f6fc8f2ba715a39965e19476edfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 30/38] fix: GCS bucket names with dots were cut at the first
 one

---
 fbpcf/gcp/GCSUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..d5d4539 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,7 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    bucket = host.substr(0, host.rfind(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
-- 
2.43.0


From 7914bbeb8da83732779b1277eb29654ae0c3abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 31/38] fix: cloud paths without a bucket were accepted

---
 fbpcf/aws/S3Util.cpp  | 6 ++++++
 fbpcf/gcp/GCSUtil.cpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/fbpcf/aws/S3Util.cpp b/fbpcf/aws/S3Util.cpp
index 4f3c5ec..9d76ab5 100644
--- a/fbpcf/aws/S3Util.cpp
+++ b/fbpcf/aws/S3Util.cpp
@@ -47,6 +47,12 @@ S3ObjectReference uriToObjectReference(std::string url) {
     }
     region = std::getenv("AWS_DEFAULT_REGION");
     bucket = host;
+    if (bucket.empty()) {
+      throw AwsException{folly::sformat(
+          "Incorrect S3 URI format: {}"
+          "bucket not specified",
+          url)};
+    }
   } else {
     // A stricter version of:
     // https://github.com/aws/aws-sdk-java/blob/c2c377058380cca07c0be9c8c6e0d7bf0b3777b8/aws-java-sdk-s3/src/main/java/com/amazonaws/services/s3/AmazonS3URI.java#L29
diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index d5d4539..416dab4 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -54,6 +54,13 @@ GCSObjectReference uriToObjectReference(std::string url) {
     bucket = path.substr(0, pos);
   }
 
+  if (bucket.empty()) {
+    throw GcpException{folly::sformat(
+        "Incorrect GCS URI format: {}"
+        "bucket not specified",
+        url)};
+  }
+
   // path.substr(pos+1) to remove the first character '/'
   return GCSObjectReference{bucket, path.substr(pos + 1)};
 }
-- 
2.43.0


From 6030391839e37b48b64ed346fd66956a8e50f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 32/38] fix: paths of other hosts and providers were recognised
 by the dots in the cloud patterns

---
 fbpcf/io/cloud_util/CloudFileUtil.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fbpcf/io/cloud_util/CloudFileUtil.cpp b/fbpcf/io/cloud_util/CloudFileUtil.cpp
index 0d1e7eb..a7f6fa1 100644
--- a/fbpcf/io/cloud_util/CloudFileUtil.cpp
+++ b/fbpcf/io/cloud_util/CloudFileUtil.cpp
@@ -37,9 +37,9 @@ CloudFileType getCloudFileType(const std::string& filePath) {
    *   4. gs://bucket-name/key-name
    */
   static const re2::RE2 s3Regex1(
-      "https://[a-z0-9.-]+.s3.[a-z0-9-]+.amazonaws.com/.+");
+      R"(https://[a-z0-9.-]+\.s3\.[a-z0-9-]+\.amazonaws\.com/.+)");
   static const re2::RE2 s3Regex2(
-      "https://[a-z0-9.-]+.s3-[a-z0-9-]+.amazonaws.com/.+");
+      R"(https://[a-z0-9.-]+\.s3-[a-z0-9-]+\.amazonaws\.com/.+)");
 
   bool isS3File = re2::RE2::FullMatch(filePath, s3Regex1) ||
       re2::RE2::FullMatch(filePath, s3Regex2) || filePath.find("s3://", 0) == 0;
@@ -47,10 +47,10 @@ CloudFileType getCloudFileType(const std::string& filePath) {
     return CloudFileType::S3;
   }
 
-  static const re2::RE2 gcsRegex1("https://storage.cloud.google.com/.*");
+  static const re2::RE2 gcsRegex1(R"(https://storage\.cloud\.google\.com/.*)");
   static const re2::RE2 gcsRegex2(
-      "https://[a-z0-9.-]+.storage.googleapis.com/.+");
-  static const re2::RE2 gcsRegex3("https://storage.googleapis.com/.*");
+      R"(https://[a-z0-9.-]+\.storage\.googleapis\.com/.+)");
+  static const re2::RE2 gcsRegex3(R"(https://storage\.googleapis\.com/.*)");
   bool isGCSFile = re2::RE2::FullMatch(filePath, gcsRegex1) ||
       re2::RE2::FullMatch(filePath, gcsRegex2) ||
       re2::RE2::FullMatch(filePath, gcsRegex3) ||
-- 
2.43.0


From 41dbcd3b8e501a4ae3f053b2b126dd479fa97d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 33/38] fix: an S3 upload with a failed part could still be
 completed without it

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 7 +++++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..b401947 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -46,6 +46,9 @@ void S3FileUploader::init() {
   }
 }
 int S3FileUploader::upload(std::vector<char>& buf) {
+  if (failed_) {
+    return 0;
+  }
   XLOG(INFO) << "Start uploading part:" << "Part number: " << partNumber_
              << "\nBucket: " << bucket_ << "\nKey: " << key_;
   Aws::S3::Model::UploadPartRequest request;
@@ -78,11 +81,15 @@ int S3FileUploader::upload(std::vector<char>& buf) {
     return str.size();
   } else {
     XLOG(INFO) << "Upload part " << partNumber_ << " failed. Aborting...";
+    failed_ = true;
     abortUpload();
     return 0;
   }
 }
 int S3FileUploader::complete() {
+  if (failed_) {
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..bb61c1e 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -34,6 +34,8 @@ class S3FileUploader : public IFileUploader {
   std::string key_;
   std::string uploadId_;
   std::size_t partNumber_ = 1;
+  // set once a part could not be uploaded; the object must not be created then
+  bool failed_ = false;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
 };
 
-- 
2.43.0


From f18c35e9e4ce9985b2d55ca5ca92571675cfa4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 34/38] fix: empty files could not be written to S3

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index b401947..149a58c 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -87,6 +87,11 @@ int S3FileUploader::upload(std::vector<char>& buf) {
   }
 }
 int S3FileUploader::complete() {
+  if (completedParts_.empty()) {
+    // S3 refuses to complete an upload without parts, e.g. of an empty file
+    std::vector<char> empty;
+    upload(empty);
+  }
   if (failed_) {
     return -1;
   }
-- 
2.43.0


From 3d3378b3257e0644f0818ff80171ac9304598d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 35/38] fix: an empty byte range of an S3 object gave the whole
 object

---
 fbpcf/io/S3FileManager.cpp           | 9 +++++++++
 fbpcf/io/cloud_util/S3FileReader.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..6054099 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -43,6 +43,15 @@ std::string S3FileManager::readBytes(
     std::size_t start,
     std::size_t end) {
   const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
+  if (start > end) {
+    throw AwsException{
+        "Start byte " + std::to_string(start) + " is larger than the end " +
+        std::to_string(end)};
+  }
+  if (start == end) {
+    // a closed interval cannot be empty; S3 would return the whole object
+    return "";
+  }
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
   // NOTE: The AWS API uses a closed interval [a, b] to request a range while
diff --git a/fbpcf/io/cloud_util/S3FileReader.cpp b/fbpcf/io/cloud_util/S3FileReader.cpp
index e6f5ec1..9ee28a0 100644
--- a/fbpcf/io/cloud_util/S3FileReader.cpp
+++ b/fbpcf/io/cloud_util/S3FileReader.cpp
@@ -19,6 +19,15 @@ std::string S3FileReader::readBytes(
     std::size_t start,
     std::size_t end) {
   const auto& ref = fbpcf::aws::uriToObjectReference(filePath);
+  if (start > end) {
+    throw AwsException{
+        "Start byte " + std::to_string(start) + " is larger than the end " +
+        std::to_string(end)};
+  }
+  if (start == end) {
+    // a closed interval cannot be empty; S3 would return the whole object
+    return "";
+  }
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
   // NOTE: The AWS API uses a closed interval [a, b] to request a range while
-- 
2.43.0


From 873c744ec35be8366461dc0d8b09914bb476cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 36/38] fix: copying a missing file to S3 created an empty
 object

---
 fbpcf/io/S3FileManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index 6054099..e88d0ca 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -20,6 +20,7 @@
 #include "S3InputStream.h"
 #include "fbpcf/aws/S3Util.h"
 #include "fbpcf/exception/AwsException.h"
+#include "fbpcf/exception/PcfException.h"
 
 namespace fbpcf {
 
@@ -95,6 +96,9 @@ void S3FileManager::copy(
     const std::string& destination) {
   std::shared_ptr<std::iostream> sourceData = std::make_shared<std::fstream>(
       sourceFile.c_str(), std::ios_base::in | std::ios_base::binary);
+  if (sourceData->fail()) {
+    throw PcfException{"Failed to open file " + sourceFile};
+  }
   writeDataStream(destination, sourceData);
 }
 
-- 
2.43.0


From cc446d4d48f88ba1231c93a56927a848de4ee9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 37/38] fix: CloudFileReader and CloudFileWriter could not be
 used together (no include guard)

---
 fbpcf/io/cloud_util/CloudFileUtil.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbpcf/io/cloud_util/CloudFileUtil.h b/fbpcf/io/cloud_util/CloudFileUtil.h
index 83cd846..b1b2ab3 100644
--- a/fbpcf/io/cloud_util/CloudFileUtil.h
+++ b/fbpcf/io/cloud_util/CloudFileUtil.h
@@ -5,6 +5,8 @@
  * LICENSE file in the root directory of this source tree.
  */
 
+#pragma once
+
 #include <memory>
 #include <string>
 #include "fbpcf/io/cloud_util/IFileReader.h"
-- 
2.43.0


From 9108ad18ad9e9fc3b3e481824a27add6a7e39dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 38/38] fix: traffic statistics of an integer-only engine threw
 instead of counting nothing for bits

---
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0

