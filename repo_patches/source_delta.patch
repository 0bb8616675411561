From 22d7d6571ffe55d7e8d8666da51f75f2c87b3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 01/12] fix: TryAddMoney reported an overflow for fractional
 amounts

Adding two amounts of the same sign without units, such as 0.4 + 0.4, gives a
sum whose units are 0; the overflow tests took that for a wrapped addition,
returned OUT_OF_RANGE and saturated the result.
---
 src/money_utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..8e9409b 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -97,8 +97,12 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
+  // If neither amount has units, the sum can't overflow, and its units may be
+  // 0: for example 0.4 + 0.4 = 0.8.
+  bool has_units = a.units() != 0 || b.units() != 0;
+
   // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  if (has_units && sign_a > 0 && sign_b > 0 && sum_units <= 0) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
@@ -109,7 +113,8 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   // sum_units_no_carry and sum_units here. This doesn't happen in the
   // positive overflow case because two MAX values 0x7FF...FF adds to
   // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  if (has_units && sign_a < 0 && sign_b < 0 &&
+      (sum_units_no_carry >= 0 || sum_units >= 0)) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
-- 
2.43.0


From 4ebdf2e94da95ce686d401315175b96ac873de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 02/12] fix: quota cache overflow recursed until the stack was
 exhausted

When the quota cache was full, the element evicted to make room was inserted
back by OnCacheEntryDelete, which evicted another one, and so on: the first
request for one key more than num_entries crashed the process. Drop an element
which is evicted for lack of room, after sending its aggregated tokens.
---
 src/quota_aggregator_impl.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..dd10242 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -259,7 +259,17 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // OnCacheEntryDelete will be called behind the cache_mutex_
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
-  if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+  if (in_flush_all_ == false &&
+      cache_->Size() >= static_cast<int64_t>(options_.num_entries)) {
+    // The element is evicted to make room for another one. Inserting it back
+    // would evict another element in turn, without end. Sends its aggregated
+    // tokens and drops it.
+    if (elem->is_aggregated()) {
+      AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+          service_name_, service_config_id_));
+    }
+    delete elem;
+  } else if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From 5d67453cd2267f8e634505836e19a4d7b765def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 03/12] fix: late quota response used the destroyed client

The callback of a quota request sent by flush captured the client itself, so a
response arriving after the client was deleted read freed memory. Hold a
reference to the quota aggregator, as the other callbacks do.
---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..d870bf7 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // The response may arrive after this object is gone. Class members cannot be
+  // captured in lambda, so make a copy to hold a ref_count to the aggregator.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From 85880d61bba11235112bbabe640a7f7ad22be730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 04/12] fix: flush deadlocked when a transport completed in
 place

The response of a quota request sent by flush is cached from within the flush
callback when the transport calls on_done in place. If another element expired
meanwhile, caching it flushes that one out on the same thread, which already
holds callback_mutex_.
---
 src/cache_removed_items_handler.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..193b9d5 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    std::unique_lock<std::recursive_mutex> lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +119,10 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  // Mutex guarding the access of flush_callback_; It is held during the call of
+  // flush_callback_ so it is recursive: a transport that completes in place
+  // calls CacheResponse() from flush_callback_, and that may flush out again.
+  std::recursive_mutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +132,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    std::unique_lock<std::recursive_mutex> lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
-- 
2.43.0


From a37f285c916879258fdf9b9e5dde67cc2ce65413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/12] fix: flush without a default transport terminated the
 process

A client used only with per-request transports has no default transport. Flushing
a cached item called the empty function, and the exception left the flush timer
or the destructor. Report an error instead; quota fails open.
---
 src/service_control_client_impl.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index d870bf7..c254084 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,14 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (!quota_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: transport is NULL.";
+    // cache dummy response for fail open
+    AllocateQuotaResponse dummy_response;
+    (void)quota_aggregator_->CacheResponse(quota_request, dummy_response);
+    return;
+  }
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +173,11 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (!check_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in Check call: transport is NULL.";
+    return;
+  }
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +192,11 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (!report_transport_) {
+    GOOGLE_LOG(ERROR) << "Failed in Report call: transport is NULL.";
+    return;
+  }
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From 9da3d83670041f3ea9e757b5fb803c068b3cfdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 06/12] fix: AddSample crashed on infinity and on empty
 explicit bounds

The exponential bucket index of +inf (and of values beyond INT_MAX buckets) was
converted to int before it was limited to the overflow bucket, which gave a
negative index. Explicit buckets initialized without bounds have one bucket, but
AddSample read the first bound.
---
 utils/distribution_helper.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..a6899e5 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,10 +136,13 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
+    // Infinity and large values don't fit in an int, so compare as double.
+    double finite_bucket = log2(value / exponential.scale()) /
+                           log2(exponential.growth_factor());
+    if (finite_bucket >= exponential.num_finite_buckets()) {
       bucket_index = exponential.num_finite_buckets() + 1;
+    } else {
+      bucket_index = 1 + static_cast<int>(finite_bucket);
     }
   }
   distribution->set_bucket_counts(
@@ -168,7 +171,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From ec9b0fb77577393568938ec8b74778511b757d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:55 +0000
Subject: [PATCH 07/12] fix: an element pinned without order update could not
 expire in LRU mode

A lookup with update_eviction_order=false leaves the pinned element on the LRU
list. If it stayed idle for longer than the timeout while pinned, the next lookup
of any key aborted on the assertion that the list holds no pinned elements, though
Remove() and Release() handle this case like the age-based mode does.
---
 utils/simple_lru_cache_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..6e5830b 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -920,9 +920,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // In the LRU mode, only the elements pinned by a lookup which does not update
+    // the eviction order are on the list, and in the age-based mode all of them
+    // are: we push them out of the main table regardless of pinning.
     Remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 1fcb9ceeb6f2d1f4459cd05d0b56c7d03ed1101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 08/12] fix: check cache key ignored all but one value set of a
 metric

When an operation had several metric value sets with the same metric name, only
the last one went into the signature, so requests whose other sets have different
labels were answered with each other's cached response.
---
 src/signature.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signature.cc b/src/signature.cc
index f883b50..8263b0c 100644
--- a/src/signature.cc
+++ b/src/signature.cc
@@ -83,13 +83,13 @@ string GenerateCheckRequestSignature(const CheckRequest& request) {
   hasher.Update(kDelimiter, kDelimiterLength);
   UpdateHashLabels(operation.labels(), &hasher);
 
-  // keep sorted order of metric_name
-  std::map<std::string, const ::google::protobuf::RepeatedPtrField<
+  // keep sorted order of metric_name. A metric_name may be in several sets.
+  std::multimap<std::string, const ::google::protobuf::RepeatedPtrField<
                             ::google::api::servicecontrol::v1::MetricValue>*>
       metric_value_set_map;
   for (const auto& metric_value_set : operation.metric_value_sets()) {
-    metric_value_set_map[metric_value_set.metric_name()] =
-        &metric_value_set.metric_values();
+    metric_value_set_map.emplace(metric_value_set.metric_name(),
+                                 &metric_value_set.metric_values());
   }
 
   for(const auto& metric_value_set: metric_value_set_map) {
-- 
2.43.0


From 8a0d550eba638f118f9d71362fa59298fb6ac5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 09/12] fix: destroying the client must not lose what other
 threads are flushing

An ageing pass or the completion of a check removes items from the cache
under its lock and flushes them out afterwards. When the client was destroyed
in between, the flush callback had been disconnected and the items (usage,
reports) were lost. Disconnecting now waits for such flushes.
---
 src/cache_removed_items_handler.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 193b9d5..369c315 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -16,6 +16,8 @@ limitations under the License.
 #ifndef GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 #define GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 
+#include <condition_variable>
+
 #include "src/aggregator_interface.h"
 #include "utils/simple_lru_cache.h"
 #include "utils/simple_lru_cache_inl.h"
@@ -49,7 +51,8 @@ namespace service_control_client {
 template <class RequestType>
 class CacheRemovedItemsHandler {
  public:
-  CacheRemovedItemsHandler() : flush_callback_(NULL), stack_buffer_(NULL) {}
+  CacheRemovedItemsHandler()
+      : flush_callback_(NULL), stack_buffer_(NULL), num_stack_buffers_(0) {}
 
   virtual ~CacheRemovedItemsHandler() {}
 
@@ -57,8 +60,15 @@ class CacheRemovedItemsHandler {
   // The callback function to flush out cache items.
   using InternalFlushCallback = std::function<void(const RequestType&)>;
 
-  // Sets the flush callback function.
+  // Sets the flush callback function. Other threads may have removed items from
+  // the cache which they have not flushed out yet. Waits for them, otherwise
+  // these items would be lost.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
+    {
+      std::unique_lock<std::mutex> lock(stack_buffers_mutex_);
+      stack_buffers_cond_.wait(lock,
+                               [this]() { return num_stack_buffers_ == 0; });
+    }
     std::unique_lock<std::recursive_mutex> lock(callback_mutex_);
     flush_callback_ = callback;
   }
@@ -82,12 +92,19 @@ class CacheRemovedItemsHandler {
   // instantiated at stack. It should be used outside of cache_mutex lock.
   class StackBuffer final {
    public:
-    StackBuffer(CacheRemovedItemsHandler* handler) : handler_(handler) {}
+    StackBuffer(CacheRemovedItemsHandler* handler) : handler_(handler) {
+      std::unique_lock<std::mutex> lock(handler_->stack_buffers_mutex_);
+      ++handler_->num_stack_buffers_;
+    }
 
     virtual ~StackBuffer() {
       for (const auto& request : items_) {
         handler_->FlushOut(request);
       }
+      std::unique_lock<std::mutex> lock(handler_->stack_buffers_mutex_);
+      if (--handler_->num_stack_buffers_ == 0) {
+        handler_->stack_buffers_cond_.notify_all();
+      }
     }
 
     void Add(const RequestType& item) {
@@ -131,6 +148,12 @@ class CacheRemovedItemsHandler {
   // stored. It should only be set and reset by StackBuffer::Swapper.
   StackBuffer* stack_buffer_;
 
+  // The number of StackBuffer instances which are alive, and the mutex guarding
+  // it.
+  int num_stack_buffers_;
+  std::mutex stack_buffers_mutex_;
+  std::condition_variable stack_buffers_cond_;
+
   void FlushOut(const RequestType& request) {
     std::unique_lock<std::recursive_mutex> lock(callback_mutex_);
     if (flush_callback_) {
-- 
2.43.0


From 5cd1672b0c3ab6dba27106672c2ac5ffeaa8e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 10/12] fix: a report's operations were counted after its
 caller could have released it

---
 src/service_control_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index c254084..4de8033 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -361,9 +361,11 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // report_request may be reused or destroyed once on_report_done is called.
+    int operations_size = report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
+    send_report_operations_ += operations_size;
     return;
   }
   on_report_done(status);
-- 
2.43.0


From 26e9ea4788c2059d4f11667f11842a87c070f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:58 +0000
Subject: [PATCH 11/12] fix: samples next to an exponential bucket bound were
 counted in the wrong bucket

---
 utils/distribution_helper.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index a6899e5..159640c 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -137,13 +137,24 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
     // Infinity and large values don't fit in an int, so compare as double.
-    double finite_bucket = log2(value / exponential.scale()) /
-                           log2(exponential.growth_factor());
-    if (finite_bucket >= exponential.num_finite_buckets()) {
-      bucket_index = exponential.num_finite_buckets() + 1;
-    } else {
-      bucket_index = 1 + static_cast<int>(finite_bucket);
+    const int num_finite_buckets = exponential.num_finite_buckets();
+    const double quotient = log2(value / exponential.scale()) /
+                            log2(exponential.growth_factor());
+    int finite_bucket = quotient >= num_finite_buckets
+                            ? num_finite_buckets
+                            : static_cast<int>(quotient);
+    // The logarithms are rounded: next to a bound of the bucket the quotient
+    // can be off by one, so compare with the bounds themselves.
+    const auto bound = [&exponential](int i) {
+      return exponential.scale() * pow(exponential.growth_factor(), i);
+    };
+    if (finite_bucket < num_finite_buckets &&
+        value >= bound(finite_bucket + 1)) {
+      ++finite_bucket;
+    } else if (finite_bucket > 0 && value < bound(finite_bucket)) {
+      --finite_bucket;
     }
+    bucket_index = 1 + finite_bucket;
   }
   distribution->set_bucket_counts(
       bucket_index, distribution->bucket_counts(bucket_index) + 1);
-- 
2.43.0


From cd1737a751e2d9768ffc9966365314589135d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 12/12] fix: samples next to a linear bucket bound were counted
 in the wrong bucket

---
 utils/distribution_helper.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 159640c..59ccf7b 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -173,6 +173,15 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
     bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // The division is rounded: next to a bound of the bucket the index can be
+    // off by one, so compare with the bounds themselves.
+    if (bucket_index <= linear.num_finite_buckets() &&
+        value >= lower_bound + bucket_index * linear.width()) {
+      ++bucket_index;
+    } else if (bucket_index > 1 &&
+               value < lower_bound + (bucket_index - 1) * linear.width()) {
+      --bucket_index;
+    }
   }
 
   distribution->set_bucket_counts(
-- 
2.43.0

