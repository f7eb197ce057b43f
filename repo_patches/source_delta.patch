From cee6f7e33a0c2fc120a9518ab04770b24f7a927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 01/20] fix: IntegralSet::clear() must reset the element count

---
 src/vt/termination/interval/integral_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..227a73c 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -229,6 +229,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
-- 
2.43.0


From 6e06f10a77727d19a18cf661b75a8b6ca959241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 02/20] fix: EpochWindow::allocateNewEpoch must advance past
 epochs that are in use

---
 src/vt/epoch/epoch_window.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..5fe933e 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,8 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
+    (*next_epoch_)++;
     if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
-
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From 4ee6ca42b07ac0f3ee1e8177e4427bf560e83233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 03/20] fix: receive all chunks of a put payload that exceeds
 the maximum MPI send size

---
 src/vt/messaging/active.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..9777482 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1105,13 +1105,22 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
-        [=](PtrLenPairType ptr, ActionType deleter){
-          envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
-          processActiveMsg(base, sender, true, deleter);
-        }
-     );
+      auto fn = [=](PtrLenPairType ptr, ActionType deleter){
+        envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
+        processActiveMsg(base, sender, true, deleter);
+      };
+
+      auto const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      if (static_cast<std::size_t>(put_size) > max_per_send) {
+        // The sender splits large payloads, see \c sendDataMPI
+        auto const nchunks = (put_size + max_per_send - 1) / max_per_send;
+        recvDataDirect(
+          static_cast<int>(nchunks), put_tag, sender, put_size, fn
+        );
+      } else {
+        /*bool const put_delivered = */recvDataMsg(1, put_tag, sender, fn);
+      }
     }
   }
 
-- 
2.43.0


From dfefc065cb4b9fa7663bf40e12bde4ac413a541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 04/20] fix: an epoch's termination action may register further
 actions on it

---
 src/vt/termination/term_action.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..7d5e252 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -133,14 +133,16 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // An action may register more actions on this epoch while it runs
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +152,15 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0


From 813bebd82095a2f13e8aac9d5831dd281b3243dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 05/20] fix: epoch scopes may nest deeper than 64

---
 src/vt/termination/termination.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vt/termination/termination.h b/src/vt/termination/termination.h
index c88cb5f..ff5f38e 100644
--- a/src/vt/termination/termination.h
+++ b/src/vt/termination/termination.h
@@ -74,13 +74,14 @@ using DijkstraScholtenTerm = term::ds::StateDS;
 struct EpochStack {
   using DataType = epoch::detail::EpochImplType;
 
-  void push(DataType in) { stack_[cur_++] = in; }
-  DataType top() const { return stack_[cur_-1]; }
-  void pop() { cur_--; }
-  unsigned int size() const { return cur_; }
+  EpochStack() { stack_.reserve(64); }
 
-  int cur_ = 0;
-  std::array<DataType, 64> stack_;
+  void push(DataType in) { stack_.push_back(in); }
+  DataType top() const { return stack_.back(); }
+  void pop() { stack_.pop_back(); }
+  unsigned int size() const { return stack_.size(); }
+
+  std::vector<DataType> stack_;
 };
 
 /**
-- 
2.43.0


From 541dc24f8740c3bfc2a5fccc0988296fc12e6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 06/20] fix: popEpoch() returns the epoch it popped

---
 src/vt/termination/termination.impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/termination/termination.impl.h b/src/vt/termination/termination.impl.h
index cd9325d..1a793d5 100644
--- a/src/vt/termination/termination.impl.h
+++ b/src/vt/termination/termination.impl.h
@@ -172,7 +172,11 @@ inline EpochType TerminationDetector::popEpoch(EpochType epoch) {
     epoch, non_zero, non_zero ? EpochType{epoch_stack_.top()} : no_epoch
   );
   if (epoch == no_epoch) {
-    return non_zero ? epoch_stack_.pop(),EpochType{epoch_stack_.top()} : no_epoch;
+    auto const popped = non_zero ? EpochType{epoch_stack_.top()} : no_epoch;
+    if (non_zero) {
+      epoch_stack_.pop();
+    }
+    return popped;
   } else {
     return non_zero && epoch == EpochType{epoch_stack_.top()} ?
       epoch_stack_.pop(),epoch :
-- 
2.43.0


From db821f2ac76d8e4d724e51e98c8b22f835ebbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 07/20] fix: a strided node range counts, contains and splits
 into exactly its nodes

---
 src/vt/group/region/group_range.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..dc277ff 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  auto const& span = static_cast<BoundType>((size / 2) * stride_);
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From 331401ce84e0c3980d128d38f15c293b5543959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 08/20] fix: a copied shallow node list is marked sorted only
 if it is

---
 src/vt/group/region/group_shallow_list.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_shallow_list.cc b/src/vt/group/region/group_shallow_list.cc
index a68b4a6..dcf6d05 100644
--- a/src/vt/group/region/group_shallow_list.cc
+++ b/src/vt/group/region/group_shallow_list.cc
@@ -46,6 +46,7 @@
 #include "vt/group/region/group_shallow_list.h"
 #include "vt/group/region/group_list.h"
 
+#include <algorithm>
 #include <cassert>
 
 namespace vt { namespace group { namespace region {
@@ -113,7 +114,9 @@ ShallowList::ShallowList(ListType const& in_list)
 }
 
 /*virtual*/ ShallowList::RegionUPtrType ShallowList::copy() const {
-  return std::make_unique<List>(bound_, size_, true);
+  return std::make_unique<List>(
+    bound_, size_, std::is_sorted(bound_, bound_ + size_)
+  );
 }
 
 /*virtual*/ void ShallowList::splitN(int nsplits, ApplyFnType apply) const {
-- 
2.43.0


From 2bab8fd0704545617e4cd9610200d40fc482d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 09/20] fix: growing a pool allocation must not count its
 oversize bytes as free

---
 src/vt/messaging/active.cc |  2 +-
 src/vt/pool/pool.cc        | 13 +++++++++++--
 src/vt/pool/pool.h         | 16 ++++++++++++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 9777482..71f4551 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -238,7 +238,7 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
     auto const& put_ptr = envelopeGetPutPtr(msg->env);
     auto const& put_size = envelopeGetPutSize(msg->env);
     bool const& memory_pool_active = thePool()->active_env();
-    auto const& rem_size = thePool()->remainingSize(reinterpret_cast<std::byte*>(msg));
+    auto const& rem_size = thePool()->growableSize(reinterpret_cast<std::byte*>(msg));
     /*
      * Directly pack if the pool is active (which means it may have
      * overallocated and the remaining size of the (envelope) buffer is
diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..840f754 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -218,6 +218,15 @@ Pool::SizeType Pool::remainingSize(
   #endif
 }
 
+Pool::SizeType Pool::growableSize([[maybe_unused]] std::byte* const buf) const {
+  #if vt_check_enabled(memory_pool)
+    // The oversize bytes are already part of the allocation
+    return remainingSize(buf) - HeaderManagerType::getHeaderOversizeBytes(buf);
+  #else
+    return 0;
+  #endif
+}
+
 Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
   return HeaderManagerType::getHeaderBytes(buf) + HeaderManagerType::getHeaderOversizeBytes(buf);
 }
@@ -225,8 +234,8 @@ Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
 bool
 Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
   // For non-pooled alloc, this condition will always be true
-  // since remainingSize(buf) would be 0
-  if ( remainingSize(buf) < grow_amount )
+  // since growableSize(buf) would be 0
+  if ( growableSize(buf) < grow_amount )
     return false;
 
   auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
diff --git a/src/vt/pool/pool.h b/src/vt/pool/pool.h
index 9556e51..3b72a44 100644
--- a/src/vt/pool/pool.h
+++ b/src/vt/pool/pool.h
@@ -132,6 +132,18 @@ struct Pool : runtime::component::Component<Pool> {
    */
   SizeType remainingSize(std::byte* const buf) const;
 
+  /**
+   * \internal \brief Get the bytes by which a pool allocation can grow in place
+   *
+   * Unlike \c remainingSize, this does not count the oversize bytes, which are
+   * already part of the allocation.
+   *
+   * \param[in] buf the buffer allocated from the pool
+   *
+   * \return number of bytes past the end of the allocation
+   */
+  SizeType growableSize(std::byte* const buf) const;
+
   /**
    * \internal \brief Get total allocated bytes for a pool allocation
    *
@@ -146,8 +158,8 @@ struct Pool : runtime::component::Component<Pool> {
   /**
    * \internal \brief Attempt to increase the size of an allocation without reallocating
    *
-   * The allocation will only be grown if grow_amount is less than or equal to the remaining
-   * size in the allocated block. If the grow_amount is too large, this function will return
+   * The allocation will only be grown if grow_amount is less than or equal to the growable
+   * size of the allocated block. If the grow_amount is too large, this function will return
    * false and the allocation size will not be increased. On success, the new size will be
    * reflected in the allocatedSize of the buffer.
    *
-- 
2.43.0


From 473d37e6bebd5954905d020617684ee2f8f86464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 10/20] fix: merging approximate histograms keeps the exact
 minimum and maximum

---
 src/vt/utils/adt/histogram_approx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..2b2b1c7 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -407,6 +407,10 @@ struct HistogramApprox {
       add(c.getValue(), c.getCount());
     }
 
+    // The extremes of the input may have been averaged into its centroids
+    min_ = std::min(min_, in_hist.min_);
+    max_ = std::max(max_, in_hist.max_);
+
     // Pare the histogram down to the allowed size
     pareToNewMaxCentroids(cur_max_centroids);
   }
-- 
2.43.0


From 3e0c4a72c4f4089f8810fadbe1062262307c7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 11/20] fix: decompressed input keeps the last byte when it
 starts a new chunk

---
 src/vt/utils/json/decompression_input_container.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..de871fc 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,11 +62,7 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
-      return true;
-    } else {
-      return false;
-    }
+    return len_ > 0;
   }
   if (cur_ + 1 < len_) {
     cur_++;
-- 
2.43.0


From 7893d29d2d865149aa94f1faf6c2308ec233eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 12/20] fix: the selfstat memory reporter reads its value

---
 src/vt/utils/memory/memory_usage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/utils/memory/memory_usage.cc b/src/vt/utils/memory/memory_usage.cc
index bfa8f8b..86c2269 100644
--- a/src/vt/utils/memory/memory_usage.cc
+++ b/src/vt/utils/memory/memory_usage.cc
@@ -217,7 +217,7 @@ std::size_t Stat::getUsage() {
   }
   for (int i = 0; i < 22; i++) {
     int ret = fscanf(f, "%*s");
-    if (ret == 0) {
+    if (ret == EOF) {
       failed_ = true;
       break;
     }
-- 
2.43.0


From 2bf1d0d78e4f1507c5eda57ca6b4df67bdd91623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 13/20] fix: a tree's descendants include the children of the
 node itself

---
 src/vt/collective/tree/tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/collective/tree/tree.cc b/src/vt/collective/tree/tree.cc
index 2f86909..eecccc8 100644
--- a/src/vt/collective/tree/tree.cc
+++ b/src/vt/collective/tree/tree.cc
@@ -106,7 +106,7 @@ std::size_t Tree::getNumDescendants(NodeType child) const {
 std::size_t Tree::getNumDescendants() const {
   auto total_size = 0;
   foreachChild([this,&total_size](NodeType child){
-    total_size += getNumDescendants(child);
+    total_size += getNumDescendants(child) + 1;
   });
   return total_size;
 }
-- 
2.43.0


From 99d6b01eb1491b87287fa3da96f8261b1428b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 14/20] fix: the answer to an event query does not use the
 freed query message

---
 src/vt/event/event.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index f7d32c3..a00b94f 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -157,11 +157,15 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
     node == theContext()->getNode(), "Node must be identical"
   );
 
+  // The message may be gone by the time the event completes
+  auto const event_back = msg->event_back_;
+  [[maybe_unused]] auto const sent_from_node = msg->sent_from_node_;
+
   auto send_back_fun = [=]{
-    auto send_back = theEvent()->getOwningNode(msg->event_back_);
-    vtAssertExpr(send_back == msg->sent_from_node_);
+    auto send_back = theEvent()->getOwningNode(event_back);
+    vtAssertExpr(send_back == sent_from_node);
 
-    auto msg_send = makeMessage<EventFinishedMsg>(event, msg->event_back_);
+    auto msg_send = makeMessage<EventFinishedMsg>(event, event_back);
     theMsg()->sendMsg<eventFinished>(
       send_back, msg_send
     );
-- 
2.43.0


From ef2c87a2cc6d1ee262f3e29ac83e51e4ee48a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 15/20] fix: default RDMA get/put handlers and put tags use
 their own entries

unregisterRdmaHandler() dereferenced the get entry for the put one,
testReadyPutData() ignored put_any_tag, an unset offset was added to the
registered pointer, and a direct put acknowledged node uninitialized_destination
instead of node 0.
---
 src/vt/rdma/rdma.cc             | 2 +-
 src/vt/rdma/state/rdma_state.cc | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index 1bdafa2..46da92c 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -251,7 +251,7 @@ RDMAManager::RDMAManager()
             "putData: recv_data_msg_buffer DIRECT: offset={}\n",
             offset
           );
-          if (send_back) {
+          if (send_back != uninitialized_destination) {
             auto new_msg = makeMessage<PutBackMessage>(op_id);
             theMsg()->sendMsg<putBackMsg>(
               send_back, new_msg
diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index dc025ef..b808180 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -137,7 +137,7 @@ void State::unregisterRdmaHandler(
 
     auto p_put_iter = put_tag_holder.find(tag);
     if (p_put_iter != put_tag_holder.end() and
-        std::get<1>(p_get_iter->second) == handler) {
+        std::get<1>(p_put_iter->second) == handler) {
       put_tag_holder.erase(p_put_iter);
     }
   }
@@ -169,7 +169,7 @@ bool State::testReadyPutData(TagType const& tag) {
   bool const not_ready = (
     ((tag == no_tag or put_any_tag) and rdma_put_fn == nullptr) or (
       tag != no_tag and
-      not get_any_tag and
+      not put_any_tag and
       put_tag_holder.find(tag) == put_tag_holder.end()
     )
   );
@@ -194,7 +194,7 @@ bool State::testReadyPutData(TagType const& tag) {
   );
 
   return RDMA_GetType{
-    state.ptr + req_offset,
+    state.ptr + (req_offset == no_byte ? 0 : req_offset),
     req_num_bytes == no_byte ? state.num_bytes : req_num_bytes
   };
 }
@@ -216,7 +216,8 @@ bool State::testReadyPutData(TagType const& tag) {
     "To use default handler ptr, bytes must be set"
   );
 
-  std::memcpy(state.ptr + req_offset, in_ptr, req_num_bytes);
+  auto const offset = req_offset == no_byte ? 0 : req_offset;
+  std::memcpy(state.ptr + offset, in_ptr, req_num_bytes);
 }
 
 void State::getData(
-- 
2.43.0


From b793e0170fdb23311aa326eecee0f7c3cf3c481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 16/20] fix: typed RDMA calls size their elements by the
 pointee, not by the pointer

---
 src/vt/rdma/rdma.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/vt/rdma/rdma.h b/src/vt/rdma/rdma.h
index aaeb535..c7df134 100644
--- a/src/vt/rdma/rdma.h
+++ b/src/vt/rdma/rdma.h
@@ -70,6 +70,7 @@
 #include "vt/collective/collective_scope.h"
 
 #include <unordered_map>
+#include <type_traits>
 #include <cassert>
 
 namespace vt { namespace rdma {
@@ -139,11 +140,11 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& num_elems, ByteType const& offset, TagType const& tag,
     ActionType action_after_put = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = offset == no_byte ? 0 : sizeof(T)*offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const byte_offset = offset == no_byte ? 0 : sizeof(std::remove_pointer_t<T>)*offset;
     return putData(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      sizeof(T), action_after_put
+      sizeof(std::remove_pointer_t<T>), action_after_put
     );
   }
 
@@ -302,7 +303,7 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
   ) {
     RDMA_RegionType new_region{region};
     if (not new_region.hasElmSize()) {
-      new_region.setElmSize(sizeof(T));
+      new_region.setElmSize(sizeof(std::remove_pointer_t<T>));
     }
     return getRegionTypeless(rdma_handle, ptr, new_region, next_action);
   }
@@ -323,12 +324,12 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& elm_offset = no_byte, TagType const& tag = no_tag,
     ActionType next_action = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = elm_offset == no_byte ? 0 : sizeof(T)*elm_offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const byte_offset = elm_offset == no_byte ? 0 : sizeof(std::remove_pointer_t<T>)*elm_offset;
 
     return getDataIntoBuf(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      next_action, sizeof(T)
+      next_action, sizeof(std::remove_pointer_t<T>)
     );
   }
 
@@ -384,7 +385,7 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
    */
   template <typename T>
   RDMA_HandleType registerNewTypedRdmaHandler(T ptr, ByteType const& num_elems) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
+    ByteType const num_bytes = sizeof(std::remove_pointer_t<T>)*num_elems;
     vt_debug_print(
       verbose, rdma,
       "registerNewTypedRdmaHandler ptr={}, bytes={}\n",
@@ -440,10 +441,10 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     T ptr, ByteType const& num_total_elems, ByteType const& num_elems,
     RDMA_MapType const& map = default_map
   ) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
-    ByteType const num_total_bytes = sizeof(T)*num_total_elems;
+    ByteType const num_bytes = sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const num_total_bytes = sizeof(std::remove_pointer_t<T>)*num_total_elems;
     return registerNewCollective(
-      true, ptr, num_bytes, num_total_bytes, sizeof(T), map
+      true, ptr, num_bytes, num_total_bytes, sizeof(std::remove_pointer_t<T>), map
     );
   }
 
-- 
2.43.0


From 88df034607aca65d8653bdb3a0c8e72b516fc0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 17/20] fix: making a rooted epoch takes one identifier, not
 two

getNextRootedEpoch() allocated an epoch only to find its window again, and
left it open for ever.
---
 src/vt/epoch/epoch_manip.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_manip.cc b/src/vt/epoch/epoch_manip.cc
index 0ce8109..70834a7 100644
--- a/src/vt/epoch/epoch_manip.cc
+++ b/src/vt/epoch/epoch_manip.cc
@@ -104,8 +104,7 @@ EpochType EpochManip::getNextRootedEpoch(
   eEpochCategory const& category
 ) {
   auto const root_node = theContext()->getNode();
-  auto const arch_epoch = getNextRootedEpoch(category, root_node);
-  return getTerminatedWindow(arch_epoch)->allocateNewEpoch();
+  return getNextRootedEpoch(category, root_node);
 }
 
 EpochType EpochManip::getNextRootedEpoch(
-- 
2.43.0


From ad4ad3ccdd7880034fb321a3c712d59fcd60c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 18/20] fix: a virtual context made from another node is looked
 up among the remote ones

---
 src/vt/vrt/context/context_vrtmanager.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vt/vrt/context/context_vrtmanager.cc b/src/vt/vrt/context/context_vrtmanager.cc
index e852c0b..9861075 100644
--- a/src/vt/vrt/context/context_vrtmanager.cc
+++ b/src/vt/vrt/context/context_vrtmanager.cc
@@ -64,8 +64,10 @@ void VirtualContextManager::insertVirtualContext(
   auto const& is_remote = VirtualProxyBuilder::isRemote(proxy);
   auto const& id = VirtualProxyBuilder::getVirtualID(proxy);
 
-  auto holder_iter = holder_.find(id);
-  vtAssert(holder_iter == holder_.end(), "Holder must not contain id");
+  auto& holder = is_remote ? remote_holder_ : holder_;
+
+  auto holder_iter = holder.find(id);
+  vtAssert(holder_iter == holder.end(), "Holder must not contain id");
 
   bool const is_constructed = new_vc != nullptr;
 
@@ -81,8 +83,6 @@ void VirtualContextManager::insertVirtualContext(
     is_constructed ? print_ptr(new_vc.get()) : nullptr
   );
 
-  auto& holder = is_remote ? remote_holder_ : holder_;
-
   auto info = std::make_unique<VirtualInfoType>(
     is_constructed ? std::move(new_vc) : nullptr, proxy, !is_constructed
   );
-- 
2.43.0


From ed326c958cc215ef9987ea26c92e95b2c5634b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 19/20] fix: a get or put through a channel concerns the bytes
 asked for, not the whole window

---
 src/vt/rdma/channel/rdma_channel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdma/channel/rdma_channel.cc b/src/vt/rdma/channel/rdma_channel.cc
index 41db3d3..8e47084 100644
--- a/src/vt/rdma/channel/rdma_channel.cc
+++ b/src/vt/rdma/channel/rdma_channel.cc
@@ -263,14 +263,14 @@ Channel::writeDataToChannel(
   if (op_type_ == RDMA_TypeType::Get) {
     VT_ALLOW_MPI_CALLS;
     const int get_ret = MPI_Get(
-      ptr, ptr_num_bytes, MPI_BYTE, target_pos_, d_offset, num_bytes_,
+      ptr, ptr_num_bytes, MPI_BYTE, target_pos_, d_offset, ptr_num_bytes,
       MPI_BYTE, window_
     );
     vtAssert(get_ret == MPI_SUCCESS, "MPI_Get: Should be successful");
   } else if (op_type_ == RDMA_TypeType::Put) {
     VT_ALLOW_MPI_CALLS;
     const int put_ret = MPI_Put(
-      ptr, ptr_num_bytes, MPI_BYTE, target_pos_, d_offset, num_bytes_,
+      ptr, ptr_num_bytes, MPI_BYTE, target_pos_, d_offset, ptr_num_bytes,
       MPI_BYTE, window_
     );
     vtAssert(put_ret == MPI_SUCCESS, "MPI_Put: Should be successful");
-- 
2.43.0


From 277aa7f6249a4afcbbfbe0465923954b829b8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 20/20] fix: synchronising a channel flushes the target, inside
 an MPI guard

---
 src/vt/rdma/channel/rdma_channel.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vt/rdma/channel/rdma_channel.cc b/src/vt/rdma/channel/rdma_channel.cc
index 8e47084..4ac4649 100644
--- a/src/vt/rdma/channel/rdma_channel.cc
+++ b/src/vt/rdma/channel/rdma_channel.cc
@@ -142,8 +142,11 @@ Channel::syncChannelLocal() {
     lockChannelForOp();
   }
 
-  auto const& ret = MPI_Win_flush_local(non_target_pos_, window_);
-  vtAssert(ret == MPI_SUCCESS, "MPI_Win_flush_local: Should be successful");
+  {
+    VT_ALLOW_MPI_CALLS;
+    const int ret = MPI_Win_flush_local(target_pos_, window_);
+    vtAssert(ret == MPI_SUCCESS, "MPI_Win_flush_local: Should be successful");
+  }
 
   if (op_type_ == RDMA_TypeType::Put) {
     unlockChannelForOp();
@@ -163,8 +166,11 @@ Channel::syncChannelGlobal() {
     "channel: syncChannelGlobal: target={} starting\n", target_
   );
 
-  auto const& ret = MPI_Win_flush(target_pos_, window_);
-  vtAssert(ret == MPI_SUCCESS, "MPI_Win_flush: Should be successful");
+  {
+    VT_ALLOW_MPI_CALLS;
+    const int ret = MPI_Win_flush(target_pos_, window_);
+    vtAssert(ret == MPI_SUCCESS, "MPI_Win_flush: Should be successful");
+  }
 
   if (op_type_ == RDMA_TypeType::Put) {
     unlockChannelForOp();
-- 
2.43.0

