From e8dbc65cfd36a0db26d4bc41b9334937c6f84305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 01/48] fix: add_double computes the new value from the value
 it compares with

---
 spectator/atomicnumber.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..dbffaa8 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -7,11 +7,9 @@ namespace spectator {
 /// Atomically add a delta to an atomic double
 /// equivalent to fetch_add for integer types
 inline auto add_double(std::atomic<double>* n, double delta) -> void {
-  double current;
-  do {
-    current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  auto current = n->load(std::memory_order_relaxed);
+  while (!n->compare_exchange_weak(current, current + delta)) {
+  }
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From d12abe6e925edfdadb7d73ce19c8a6a017e61d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 02/48] fix: monotonic counter does not lose growth that
 arrives while it is measured

---
 spectator/monotonic_counter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..da1888b 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,9 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = value - prev_value_.load(std::memory_order_relaxed);
+  prev_value_.store(value, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
-- 
2.43.0


From 4148c174c1cc9fb241196b15305e759c36d5a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 03/48] fix: unsigned monotonic counter measured before or
 during an update reports only real growth

---
 spectator/monotonic_counter_uint.cc | 16 ++++++++++++----
 spectator/monotonic_counter_uint.h  |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..618aaca 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -8,18 +8,22 @@ static constexpr auto kNaN = std::numeric_limits<double>::quiet_NaN();
 static constexpr auto kMax = std::numeric_limits<uint64_t>::max();
 
 MonotonicCounterUint::MonotonicCounterUint(Id id) noexcept
-    : Meter{std::move(id)}, init_(false), value_(0), prev_value_(0) {}
+    : Meter{std::move(id)}, init_(false), has_value_(false), value_(0), prev_value_(0) {}
 
 void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   Update();
   value_.store(amount, std::memory_order_relaxed);
+  has_value_.store(true, std::memory_order_release);
 }
 
 auto MonotonicCounterUint::Delta() const noexcept -> double {
+  return delta_to(value_.load(std::memory_order_relaxed));
+}
+
+auto MonotonicCounterUint::delta_to(uint64_t curr) const noexcept -> double {
   if (!init_.load(std::memory_order_relaxed)) return kNaN;
 
   auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
 
   if (curr < prev) {
     return kMax - prev + curr + 1;
@@ -29,8 +33,12 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
 }
 
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+  // nothing to measure, and nothing to compare later values with, until a value has been set
+  if (!has_value_.load(std::memory_order_acquire)) return;
+
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = delta_to(value);
+  prev_value_.store(value, std::memory_order_relaxed);
   init_.store(true, std::memory_order_relaxed);
 
   if (delta > 0) {
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index 64ca7ab..91f8376 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -13,8 +13,11 @@ class MonotonicCounterUint : public Meter {
   auto Delta() const noexcept -> double;
 
  private:
+  auto delta_to(uint64_t curr) const noexcept -> double;
+
   mutable std::unique_ptr<Id> count_id_;
   mutable std::atomic<bool> init_;
+  std::atomic<bool> has_value_;
   mutable std::atomic<uint64_t> value_;
   mutable std::atomic<uint64_t> prev_value_;
 };
-- 
2.43.0


From 2099d406f00137baff5d8a50ae5488dba83ce1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 04/48] fix: sampled monotonic counter takes its sample once,
 and reports no infinite rates

---
 spectator/monotonic_sampled.cc | 15 ++++++++++-----
 spectator/monotonic_sampled.h  |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..035c044 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,14 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
     absl::MutexLock lock(&mutex_);
+    sampled_delta = sampled_rate();
+    // no rate without two samples, or when they have the same timestamp
+    if (!std::isfinite(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
@@ -50,6 +51,10 @@ void MonotonicSampled::Measure(Measurements* results) const noexcept {
 
 auto MonotonicSampled::SampledRate() const noexcept -> double {
   absl::MutexLock lock(&mutex_);
+  return sampled_rate();
+}
+
+auto MonotonicSampled::sampled_rate() const noexcept -> double {
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
diff --git a/spectator/monotonic_sampled.h b/spectator/monotonic_sampled.h
index 5618108..26632e0 100644
--- a/spectator/monotonic_sampled.h
+++ b/spectator/monotonic_sampled.h
@@ -14,6 +14,8 @@ class MonotonicSampled : public Meter {
   auto SampledRate() const noexcept -> double;
 
  private:
+  auto sampled_rate() const noexcept -> double ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   mutable std::unique_ptr<Id> count_id_;
   mutable absl::Mutex mutex_;
   double value_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0


From 26dc622021924210a99174619a12d911413d85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 05/48] fix: sampled monotonic counters are measured, counted
 and expired like the other meters

---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..1f43381 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -167,7 +167,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -180,6 +180,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -210,6 +211,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From ec7b030f982f810fe44608c894acd889f366faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 06/48] fix: sampled monotonic counter line sets the value it
 was given

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..2832f19 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -592,7 +592,7 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From 59751f9bdb15b9df8a410b789c7989a2daa9d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 07/48] fix: of two concurrent deletions of a meter only one
 succeeds

---
 spectator/registry.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 1f43381..e0be677 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -109,13 +109,8 @@ struct meter_map {
   }
 
   auto remove_one(Id id) noexcept -> bool {
-    if (contains(id)) {
-      absl::MutexLock lock{&meters_mutex_};
-      meters_.erase(id);
-      return true;
-    } else {
-      return false;
-    }
+    absl::MutexLock lock{&meters_mutex_};
+    return meters_.erase(id) > 0;
   }
 
   void remove_all() noexcept {
-- 
2.43.0


From bc294a5c1984cda8964cf1cb5f1ecb01c91876b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 08/48] fix: deleting all meters does not use an iterator to an
 erased element

---
 spectator/registry.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index e0be677..30f6a6a 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -115,12 +115,7 @@ struct meter_map {
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From 2a349c1ca706463c614896258bc6810db5aa9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 09/48] fix: age gauge lookup is one step, so that it neither
 aborts when the gauge is deleted nor exceeds the limit

---
 spectator/registry.cc | 33 +++++++++++++++------------------
 spectator/registry.h  | 22 +++++++++++++---------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..790990d 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,26 +26,23 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
-  } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
-    } else {
-      logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
-                    config_->age_gauge_limit);
-
-      if (age_gauge_first_warn_) {
-        auto known_age_gauges = all_meters_.age_gauges_.get_ids();
-        for (size_t i = 0; i < known_age_gauges.size(); ++i) {
-          logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
-        }
-        age_gauge_first_warn_ = false;
-      }
-
-      return std::make_shared<AgeGauge>(std::move(id));
+  auto age_gauge = all_meters_.insert_age_gauge(id, config_->age_gauge_limit);
+  if (age_gauge) {
+    return age_gauge;
+  }
+
+  logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
+                config_->age_gauge_limit);
+
+  if (age_gauge_first_warn_) {
+    auto known_age_gauges = all_meters_.age_gauges_.get_ids();
+    for (size_t i = 0; i < known_age_gauges.size(); ++i) {
+      logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
     }
+    age_gauge_first_warn_ = false;
   }
+
+  return std::make_shared<AgeGauge>(std::move(id));
 }
 
 auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept
diff --git a/spectator/registry.h b/spectator/registry.h
index 30f6a6a..ae96c06 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -56,11 +56,6 @@ struct meter_map {
     return meters_.size();
   }
 
-  auto contains(const Id& id) -> bool {
-    absl::MutexLock lock(&meters_mutex_);
-    return meters_.contains(id);
-  }
-
   // only insert if it doesn't exist, otherwise return the existing meter
   auto insert(std::shared_ptr<M> meter) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
@@ -69,9 +64,18 @@ struct meter_map {
     return insert_result.first->second;
   }
 
-  auto at(const Id& id) -> std::shared_ptr<M> {
+  // same as insert, but returns null instead of exceeding the maximum size
+  auto insert_up_to(size_t max_size, std::shared_ptr<M> meter) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
-    return meters_.at(id);
+    const auto& id = meter->MeterId();
+    auto it = meters_.find(id);
+    if (it != meters_.end()) {
+      return it->second;
+    }
+    if (meters_.size() >= max_size) {
+      return nullptr;
+    }
+    return meters_.emplace(id, std::move(meter)).first->second;
   }
 
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
@@ -210,8 +214,8 @@ struct all_meters {
     return {total_expired, total_count};
   }
 
-  auto insert_age_gauge(Id id) {
-    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));
+  auto insert_age_gauge(Id id, size_t limit) {
+    return age_gauges_.insert_up_to(limit, std::make_shared<AgeGauge>(std::move(id)));
   }
 
   auto insert_counter(Id id) {
-- 
2.43.0


From 0721b4b530ea202a407d1115991343f95499ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 10/48] fix: measurements stay valid when the meter they came
 from is removed

---
 spectator/measurement.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spectator/measurement.h b/spectator/measurement.h
index 3e2264f..0d5f7e4 100644
--- a/spectator/measurement.h
+++ b/spectator/measurement.h
@@ -12,12 +12,8 @@ class Measurement {
   Measurement(const Id& id_param, double value_param) noexcept
       : id{id_param}, value{value_param} {}
 
-  // We do not own the id_param so temporary references will cause problems.
-  // This could happen if the user tries something like:
-  // Measurement(id.withTag(...), value);
-  Measurement(Id&& error, double value_param) noexcept = delete;
-
-  const Id& id;
+  // a copy, since the meter may be removed while the measurement is still in use
+  Id id;
   double value;
 
   auto operator==(const Measurement& other) const -> bool {
-- 
2.43.0


From ef2be851406be5a86e99179908da97d2a33bfea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 11/48] fix: measurements accepted with status 200 are counted
 as sent

---
 spectator/publisher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..45bfca0 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -281,6 +281,9 @@ class Publisher {
     auto http_code = http_response.status;
     if (http_code == 200) {
       num_sent = num_measurements;
+      if (status_metrics_enabled) {
+        sentMetrics_->Add(num_measurements);
+      }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
       body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
-- 
2.43.0


From 3c6dbc419b67ba7314db2f80e82277a205e8bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 12/48] fix: aggregator responses of an unexpected JSON shape
 do not abort the daemon

---
 spectator/publisher.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 45bfca0..03cb877 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -295,21 +295,27 @@ class Publisher {
           droppedOther_->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        auto is_report = body.IsObject() && body.HasMember("errorCount") &&
+                         body["errorCount"].IsUint() &&
+                         body["errorCount"].GetUint() <= num_measurements;
+        if (is_report) {
+          auto err_count = body["errorCount"].GetUint();
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             invalidMetrics_->Add(err_count);
             sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          if (body.HasMember("message") && body["message"].IsArray()) {
+            for (const auto& msg : body["message"].GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
-          logger->error("Missing errorCount field in JSON response from {}: {}",
+          logger->error("Missing or invalid errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
             droppedOther_->Add(num_measurements);
-- 
2.43.0


From b75c6d13ae32841b0e3b55629ebd4bfa1181dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 13/48] fix: status metrics of the registry and publisher are
 not lost after their meters expire

---
 spectator/publisher.h | 31 ++++++++++++++++---------------
 spectator/registry.cc |  5 +++--
 spectator/registry.h  |  4 ++--
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 03cb877..332e2de 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -41,13 +41,13 @@ class Publisher {
         started_{false},
         should_stop_{false},
         last_successful_send_{absl::GetCurrentTimeNanos()},
-        sentMetrics_{detail::get_counter(registry, Tags{{"id", "sent"}})},
+        sentMetrics_{detail::get_counter(registry, Tags{{"id", "sent"}})->MeterId()},
         invalidMetrics_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "validation"}})},
+            registry, Tags{{"id", "dropped"}, {"error", "validation"}})->MeterId()},
         droppedHttp_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "http-error"}})},
+            registry, Tags{{"id", "dropped"}, {"error", "http-error"}})->MeterId()},
         droppedOther_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "other"}})},
+            registry, Tags{{"id", "dropped"}, {"error", "other"}})->MeterId()},
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
@@ -111,10 +111,11 @@ class Publisher {
   std::mutex cv_mutex_;
   std::condition_variable cv_;
   std::thread sender_thread_;
-  std::shared_ptr<Counter> sentMetrics_;
-  std::shared_ptr<Counter> invalidMetrics_;
-  std::shared_ptr<Counter> droppedHttp_;
-  std::shared_ptr<Counter> droppedOther_;
+  // the ids of our counters, which the registry drops when they are idle
+  const Id sentMetrics_;
+  const Id invalidMetrics_;
+  const Id droppedHttp_;
+  const Id droppedOther_;
   Tags common_tags_;
   size_t num_sender_threads_;
   asio::thread_pool pool_;
@@ -282,7 +283,7 @@ class Publisher {
     if (http_code == 200) {
       num_sent = num_measurements;
       if (status_metrics_enabled) {
-        sentMetrics_->Add(num_measurements);
+        registry_->GetCounter(sentMetrics_)->Add(num_measurements);
       }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
@@ -292,7 +293,7 @@ class Publisher {
                       uri, http_code, http_response.raw_body);
         num_err = num_measurements;
         if (status_metrics_enabled) {
-          droppedOther_->Add(num_measurements);
+          registry_->GetCounter(droppedOther_)->Add(num_measurements);
         }
       } else {
         auto is_report = body.IsObject() && body.HasMember("errorCount") &&
@@ -303,8 +304,8 @@ class Publisher {
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
-            invalidMetrics_->Add(err_count);
-            sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
+            registry_->GetCounter(invalidMetrics_)->Add(err_count);
+            registry_->GetCounter(sentMetrics_)->Add(static_cast<double>(num_measurements - err_count));
           }
           if (body.HasMember("message") && body["message"].IsArray()) {
             for (const auto& msg : body["message"].GetArray()) {
@@ -318,7 +319,7 @@ class Publisher {
           logger->error("Missing or invalid errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
-            droppedOther_->Add(num_measurements);
+            registry_->GetCounter(droppedOther_)->Add(num_measurements);
           }
           num_err = num_measurements;
         }
@@ -326,11 +327,11 @@ class Publisher {
     } else if (http_code == -1) {  // connection error or timeout
       num_err = num_measurements;
       if (status_metrics_enabled) {
-        droppedOther_->Add(num_measurements);
+        registry_->GetCounter(droppedOther_)->Add(num_measurements);
       }
     } else {  // 5xx error
       if (status_metrics_enabled) {
-        droppedHttp_->Add(num_measurements);
+        registry_->GetCounter(droppedHttp_)->Add(num_measurements);
       }
       num_err = num_measurements;
     }
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 790990d..5f1f599 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -12,7 +12,7 @@ Registry::Registry(std::unique_ptr<Config> config,
       meter_ttl_{absl::ToInt64Nanoseconds(config->meter_ttl)},
       config_{std::move(config)},
       logger_{std::move(logger)},
-      registry_size_{GetDistributionSummary("spectator.registrySize", Tags{{"owner", "spectatord"}})},
+      registry_size_{GetDistributionSummary("spectator.registrySize", Tags{{"owner", "spectatord"}})->MeterId()},
       publisher_(this) {
   if (meter_ttl_ == 0) {
     meter_ttl_ = int64_t(15) * 60 * 1000 * 1000 * 1000;
@@ -155,7 +155,8 @@ void Registry::Stop() noexcept {
 auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
   auto res = all_meters_.measure(meter_ttl_);
   if (config_->status_metrics_enabled) {
-    registry_size_->Record(res.size());
+    // looked up each time, since it is dropped when it is idle
+    all_meters_.insert_dist_sum(registry_size_)->Record(res.size());
   }
   for (const auto& callback : ms_callbacks_) {
     callback(res);
diff --git a/spectator/registry.h b/spectator/registry.h
index ae96c06..58df17c 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -376,10 +376,10 @@ class Registry {
   std::unique_ptr<Config> config_;
   logger_ptr logger_;
 
-  detail::all_meters all_meters_;
+  mutable detail::all_meters all_meters_;
 
   std::vector<measurements_callback> ms_callbacks_{};
-  std::shared_ptr<DistributionSummary> registry_size_;
+  const Id registry_size_;
 
   void expirer() noexcept;
 
-- 
2.43.0


From bc7fd5b30a23c5e00bdcf5edccf2f9d8cbf85f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 14/48] fix: parsed and rejected lines are not lost after their
 counters expire

---
 server/spectatord.cc | 8 ++++----
 server/spectatord.h  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 2832f19..77903da 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -46,7 +46,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
     auto maybe_err = parser(p);
     if (maybe_err) {
       if (cfg.status_metrics_enabled) {
-        parse_errors_->Increment();
+        registry_->GetCounter(parse_errors_)->Increment();
       }
       if (err_msg.empty()) {
         err_msg = *maybe_err;
@@ -55,7 +55,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
         err_msg += *maybe_err;
       }
     } else if (cfg.status_metrics_enabled) {
-      parsed_count_->Increment();
+      registry_->GetCounter(parsed_count_)->Increment();
     }
     if (newline == nullptr) {
       break;
@@ -302,8 +302,8 @@ Server::Server(bool ipv4_only, int port_number, std::optional<int> statsd_port_n
       statsd_port_number_{statsd_port_number},
       socket_path_{std::move(socket_path)},
       registry_{registry},
-      parsed_count_{registry_->GetCounter("spectatord.parsedCount")},
-      parse_errors_{registry_->GetCounter("spectatord.parseErrors")},
+      parsed_count_{registry_->GetCounter("spectatord.parsedCount")->MeterId()},
+      parse_errors_{registry_->GetCounter("spectatord.parseErrors")->MeterId()},
       logger_{Logger()},
       perc_timers_{create_perc_timer},
       perc_ds_{create_perc_ds} {}
diff --git a/server/spectatord.h b/server/spectatord.h
index a95115b..4922894 100644
--- a/server/spectatord.h
+++ b/server/spectatord.h
@@ -28,8 +28,9 @@ class Server {
   std::optional<int> statsd_port_number_;
   std::optional<std::string> socket_path_;
   spectator::Registry* registry_;
-  std::shared_ptr<spectator::Counter> parsed_count_;
-  std::shared_ptr<spectator::Counter> parse_errors_;
+  // the ids of our counters, which the registry drops when they are idle
+  const spectator::Id parsed_count_;
+  const spectator::Id parse_errors_;
   std::shared_ptr<spdlog::logger> logger_;
   expiring_cache<spectator::PercentileTimer> perc_timers_;
   expiring_cache<spectator::PercentileDistributionSummary> perc_ds_;
-- 
2.43.0


From 0a50a6ccf21627a22aab3166ae5ef7e721ce0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 15/48] fix: status metrics of the housekeeping loop survive
 the deletion of their meters

---
 server/spectatord.cc | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 77903da..e7304c9 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -399,23 +399,22 @@ void Server::ensure_not_stuck() {
 void Server::upkeep() {
   const auto& cfg = registry_->GetConfig();
 
-  static auto timers_size_gauge = registry_->GetGauge(
+  // ids, since the meters can be dropped from the registry
+  const auto timers_size_gauge = spectator::Id::Of(
       "spectatord.percentileCacheSize", spectator::Tags{{"id", "timer"}});
-  static auto ds_size_gauge = registry_->GetGauge(
+  const auto ds_size_gauge = spectator::Id::Of(
       "spectatord.percentileCacheSize", spectator::Tags{{"id", "dist-summary"}});
-  static auto timers_expired_ctr = registry_->GetCounter(
+  const auto timers_expired_ctr = spectator::Id::Of(
       "spectatord.percentileExpired", spectator::Tags{{"id", "timer"}});
-  static auto ds_expired_ctr = registry_->GetCounter(
+  const auto ds_expired_ctr = spectator::Id::Of(
       "spectatord.percentileExpired", spectator::Tags{{"id", "dist-summary"}});
 
-  static auto pool_hits = registry_->GetMonotonicCounter(
+  const auto pool_hits = spectator::Id::Of(
       "spectatord.poolAccess", spectator::Tags{{"id", "hit"}});
-  static auto pool_misses = registry_->GetMonotonicCounter(
+  const auto pool_misses = spectator::Id::Of(
       "spectatord.poolAccess", spectator::Tags{{"id", "miss"}});
-  static auto pool_alloc_size = registry_->GetGauge(
-      "spectatord.poolAllocSize");
-  static auto pool_entries = registry_->GetGauge(
-      "spectatord.poolEntries");
+  const auto pool_alloc_size = spectator::Id::Of("spectatord.poolAllocSize");
+  const auto pool_entries = spectator::Id::Of("spectatord.poolEntries");
 
   using clock = std::chrono::steady_clock;
   using std::chrono::duration_cast;
@@ -432,20 +431,20 @@ void Server::upkeep() {
     std::tie(ds_size, ds_expired) = perc_ds_.expire();
     std::tie(t_size, t_expired) = perc_timers_.expire();
     if (cfg.status_metrics_enabled) {
-      timers_size_gauge->Set(t_size);
-      ds_size_gauge->Set(ds_size);
-      timers_expired_ctr->Add(t_expired);
-      ds_expired_ctr->Add(ds_expired);
+      registry_->GetGauge(timers_size_gauge)->Set(t_size);
+      registry_->GetGauge(ds_size_gauge)->Set(ds_size);
+      registry_->GetCounter(timers_expired_ctr)->Add(t_expired);
+      registry_->GetCounter(ds_expired_ctr)->Add(ds_expired);
     }
 #ifdef __linux__
     update_network_metrics();
 #endif
     auto pool_stats = spectator::string_pool_stats();
     if (cfg.status_metrics_enabled) {
-      pool_hits->Set(pool_stats.hits);
-      pool_misses->Set(pool_stats.misses);
-      pool_alloc_size->Set(pool_stats.alloc_size);
-      pool_entries->Set(pool_stats.table_size);
+      registry_->GetMonotonicCounter(pool_hits)->Set(pool_stats.hits);
+      registry_->GetMonotonicCounter(pool_misses)->Set(pool_stats.misses);
+      registry_->GetGauge(pool_alloc_size)->Set(pool_stats.alloc_size);
+      registry_->GetGauge(pool_entries)->Set(pool_stats.table_size);
     }
     logger_->debug("Str Pool: Hits {} Misses {} Size {} Alloc {}", pool_stats.hits,
                    pool_stats.misses, pool_stats.table_size, pool_stats.alloc_size);
@@ -465,15 +464,10 @@ void Server::update_network_metrics() {
   // parse /proc/net/udp to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  static auto udp_packets_dropped_ctr = registry_->GetMonotonicCounter(
-      "spectatord.udpPacketsDropped");
-  static auto udp_queue = registry_->GetMaxGauge(
-      "spectatord.udpRxQueue");
-
   auto info = udp_info(port_number_);
   if (info && cfg.status_metrics_enabled) {
-    udp_packets_dropped_ctr->Set(info->num_dropped);
-    udp_queue->Set(info->rx_queue_bytes);
+    registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
+    registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
   }
 }
 
-- 
2.43.0


From aca84104bfb21aae1298bd5646444de27707a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 16/48] fix: percentile timers and summaries keep counting
 after their base meter expires

---
 spectator/percentile_distribution_summary.h | 12 ++++++------
 spectator/percentile_timer.h                | 13 +++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/spectator/percentile_distribution_summary.h b/spectator/percentile_distribution_summary.h
index 253ddb5..8e1db13 100644
--- a/spectator/percentile_distribution_summary.h
+++ b/spectator/percentile_distribution_summary.h
@@ -14,8 +14,8 @@ class PercentileDistributionSummary {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        dist_summary_{registry->GetDistributionSummary(id_)} {
+        max_{max} {
+    registry_->GetDistributionSummary(id_);
   }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
@@ -30,7 +30,8 @@ class PercentileDistributionSummary {
       return;
     }
 
-    dist_summary_->Record(amount);
+    // looked up each time, since the registry drops it when it is idle
+    registry_->GetDistributionSummary(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(restricted);
     auto c = get_counter(index, kDistTags.begin());
@@ -38,15 +39,14 @@ class PercentileDistributionSummary {
   }
 
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return dist_summary_->Count(); }
-  auto TotalAmount() const noexcept -> double { return dist_summary_->TotalAmount(); }
+  auto Count() const noexcept -> int64_t { return registry_->GetDistributionSummary(id_)->Count(); }
+  auto TotalAmount() const noexcept -> double { return registry_->GetDistributionSummary(id_)->TotalAmount(); }
 
  private:
   Registry* registry_;
   Id id_;
   int64_t min_;
   int64_t max_;
-  std::shared_ptr<DistributionSummary> dist_summary_;
 };
 
 }  // namespace spectator
diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 7a023b0..8358421 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -14,8 +14,9 @@ class PercentileTimer {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        timer_{registry->GetTimer(id_)} {}
+        max_{max} {
+    registry_->GetTimer(id_);
+  }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
     using spectator::refs;
@@ -25,7 +26,8 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
-    timer_->Record(amount);
+    // looked up each time, since the registry drops it when it is idle
+    registry_->GetTimer(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
     auto c = get_counter(index, kTimerTags.begin());
@@ -34,15 +36,14 @@ class PercentileTimer {
 
   void Record(std::chrono::nanoseconds amount) noexcept { Record(absl::FromChrono(amount)); }
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return timer_->Count(); }
-  auto TotalTime() const noexcept -> int64_t { return timer_->TotalTime(); }
+  auto Count() const noexcept -> int64_t { return registry_->GetTimer(id_)->Count(); }
+  auto TotalTime() const noexcept -> int64_t { return registry_->GetTimer(id_)->TotalTime(); }
 
  private:
   Registry* registry_;
   Id id_;
   absl::Duration min_;
   absl::Duration max_;
-  std::shared_ptr<Timer> timer_;
 };
 
 }  // namespace spectator
-- 
2.43.0


From b3ecb321bf0a304ce5c401e75ec1b39431e30f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 17/48] fix: percentile timers ignore negative amounts
 altogether

---
 spectator/percentile_timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 8358421..1161fe4 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -26,6 +26,10 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
+    if (amount < absl::ZeroDuration()) {
+      return;
+    }
+
     // looked up each time, since the registry drops it when it is idle
     registry_->GetTimer(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
-- 
2.43.0


From 059e9b45f61ba99222a7fd95a935efad76ceb325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 18/48] fix: assigning a large tag set keeps its capacity and
 frees the previous storage

---
 spectator/tags.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..b7b441d 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,10 +58,17 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
       o.begin_ = nullptr;
+      U.capacity_ = o.U.capacity_;
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
-- 
2.43.0


From 183bcb335b50f8d1934d4022ef1b89024a0d1149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 19/48] fix: common tags changed through the admin server show
 in the payloads published afterwards

---
 admin/admin_server.cc |  7 ++++---
 spectator/publisher.h | 15 ++++++++++++---
 spectator/registry.cc |  7 +++++++
 spectator/registry.h  |  4 ++++
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..4283249 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -45,11 +45,12 @@ void GET_root(HTTPServerRequest& req, HTTPServerResponse& res) {
 }
 
 void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,
-                const spectator::Config& config) {
+                const spectator::Registry& registry) {
+  const auto& config = registry.GetConfig();
   Object::Ptr obj = new Object(true);
 
   Object::Ptr common_tags = new Object(true);
-  for (auto& pair : config.common_tags) {
+  for (auto& pair : registry.CommonTags()) {
     common_tags->set(pair.first, pair.second);
   }
 
@@ -321,7 +322,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
     GET_root(req, res);
   } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
     // get the full spectator configuration
-    GET_config(req, res, this->registry.GetConfig());
+    GET_config(req, res, this->registry);
   } else if (req.getURI() == "/config/common_tags" && req.getMethod() == "GET") {
     // describe common_tags usage
     GET_config_common_tags(req, res, join(this->allowed_tags, ", "));
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 332e2de..ec7a69a 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -51,9 +51,7 @@ class Publisher {
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
-    for (const auto& kv : registry_->GetConfig().common_tags) {
-      common_tags_.add(kv.first, kv.second);
-    }
+    update_common_tags();
   }
 
   Publisher(const Publisher&) = delete;
@@ -121,6 +119,14 @@ class Publisher {
   asio::thread_pool pool_;
   std::vector<SmilePayload> buffers_;
 
+  void update_common_tags() {
+    Tags tags;
+    for (const auto& kv : registry_->CommonTags()) {
+      tags.add(kv.first, kv.second);
+    }
+    common_tags_ = std::move(tags);
+  }
+
   void sender() noexcept {
     using std::chrono::duration_cast;
     using std::chrono::milliseconds;
@@ -362,6 +368,9 @@ class Publisher {
       }
     }
 
+    // the admin server may have changed them since the last interval
+    update_common_tags();
+
     auto from = measurements.begin();
     auto end = measurements.end();
     std::vector<std::pair<int, HttpResponse>> responses;
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 5f1f599..5367c4b 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -164,7 +164,13 @@ auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
   return res;
 }
 
+auto Registry::CommonTags() const -> std::map<std::string, std::string> {
+  absl::MutexLock lock(&common_tags_mutex_);
+  return config_->common_tags;
+}
+
 void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
+  absl::MutexLock lock(&common_tags_mutex_);
   auto it = config_->common_tags.find(k);
   if (it != config_->common_tags.end()) {
     it->second = v;
@@ -174,6 +180,7 @@ void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
 }
 
 void Registry::EraseCommonTag(const std::string& k) {
+  absl::MutexLock lock(&common_tags_mutex_);
   config_->common_tags.erase(k);
 }
 
diff --git a/spectator/registry.h b/spectator/registry.h
index 58df17c..562703a 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -328,6 +328,9 @@ class Registry {
   void Start() noexcept;
   void Stop() noexcept;
 
+  // the current common tags, which may be changed at any time
+  auto CommonTags() const -> std::map<std::string, std::string>;
+
   // for updating mantis common tags
   void UpdateCommonTag(const std::string& k, const std::string& v);
   void EraseCommonTag(const std::string& k);
@@ -374,6 +377,7 @@ class Registry {
   int64_t meter_ttl_;  // in nanos
 
   std::unique_ptr<Config> config_;
+  mutable absl::Mutex common_tags_mutex_;  // guards config_->common_tags
   logger_ptr logger_;
 
   mutable detail::all_meters all_meters_;
-- 
2.43.0


From cf60bf8a2e553c928eb1ae586668fd4eb7b7b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 20/48] fix: Smile integers of 2^19 and more have the int32
 type byte

---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 4ca9f5ea3b0f48ee424e14ff6a63c962a1f045d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 21/48] fix: a counter ignores NaN, which would discard its
 other increments

---
 spectator/counter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..6b7c66e 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,8 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  // negative, or not a number
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From 59ab7da8866cae5499156c9e8f91fd3e9aed57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 22/48] fix: an expired gauge publishes no stale value and
 loses no concurrent update

---
 spectator/gauge.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spectator/gauge.cc b/spectator/gauge.cc
index e87cd63..84fc1c5 100644
--- a/spectator/gauge.cc
+++ b/spectator/gauge.cc
@@ -24,13 +24,12 @@ auto Gauge::HasExpired(int64_t now) const noexcept -> bool {
 }
 
 void Gauge::Measure(Measurements* results, int64_t now) const noexcept {
-  double value;
+  // an expired value stays unpublished until it is set again
   if (HasExpired(now)) {
-    value = value_.exchange(kNAN, std::memory_order_relaxed);
-  } else {
-    value = value_.load(std::memory_order_relaxed);
+    return;
   }
 
+  auto value = value_.load(std::memory_order_relaxed);
   if (std::isnan(value)) {
     return;
   }
-- 
2.43.0


From 2d9e255194d82485f679633541ed85eed1e64947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 23/48] fix: a datagram that fills the receive buffer is
 dropped instead of terminated outside of it

---
 server/local_server.cc | 9 ++++-----
 server/udp_server.cc   | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..58ae005 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -15,14 +15,13 @@ void LocalServer::start_local_receive() {
   socket_.async_receive(
       asio::buffer(recv_buffer_),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
-          Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
-        }
-
         if (err) {
           Logger()->error("Error receiving: {}: {}", err.value(),
                           err.message());
+        } else if (bytes_transferred >= recv_buffer_.size()) {
+          // no room for the terminator, and the rest of the datagram is lost
+          Logger()->error("too many bytes transferred: {} >= {}",
+                          bytes_transferred, recv_buffer_.size());
         } else if (bytes_transferred > 0) {
           recv_buffer_[bytes_transferred] = '\0';
           handler_(std::begin(recv_buffer_));
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..d2bf029 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -25,14 +25,13 @@ void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
       asio::buffer(recv_buffer_),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
-          Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
-        }
-
         if (err) {
           Logger()->error("Error receiving: {}: {}", err.value(),
                           err.message());
+        } else if (bytes_transferred >= recv_buffer_.size()) {
+          // no room for the terminator, and the rest of the datagram is lost
+          Logger()->error("too many bytes transferred: {} >= {}",
+                          bytes_transferred, recv_buffer_.size());
         } else if (bytes_transferred > 0) {
           recv_buffer_[bytes_transferred] = '\0';
           message_handler_(std::begin(recv_buffer_));
-- 
2.43.0


From 4aaab3494a96e019c78e3db558d942118f77982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 24/48] fix: max_buffer_size leaves room for the terminator

---
 server/proc_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index 911423d..c1c0a46 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -23,7 +23,7 @@ auto max_buffer_size(const char* proc_file) -> int {
   } else {
     result = kDefault;
     char buf[4096];
-    int n = read(fd, buf, sizeof buf);
+    int n = read(fd, buf, sizeof buf - 1);
     if (n > 0) {
       buf[n] = '\0';
       if (!absl::SimpleAtoi(buf, &result)) {
-- 
2.43.0


From 7389afe208701de18d2abf1204d7fe6de10b3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 25/48] fix: a line whose tags are not followed by a value is
 rejected, without reading behind it

---
 server/spectatord.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index e7304c9..446f001 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -239,7 +239,10 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
     while (measurement_str[pos] != ':') {
       ++pos;
       auto k_pos = measurement_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      if (k_pos == std::string_view::npos) {
+        *err_msg = "Missing tag value";
+        return {};
+      }
       auto key = measurement_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = measurement_str.find_first_of(",:", k_pos);
-- 
2.43.0


From be8c7a309fb630713ae4dc079d882fe645903602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 26/48] fix: leading empty lines are skipped like the others

---
 server/spectatord.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 446f001..e3ffc0e 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -37,6 +37,10 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
   const auto& cfg = registry_->GetConfig();
 
   char* p = buffer;
+  // skip empty lines
+  while (*p == '\n') {
+    ++p;
+  }
   std::string err_msg;
   while (*p != '\0') {
     char* newline = std::strchr(p, '\n');
-- 
2.43.0


From ea0697e4b78f67bbd6b72000fd051b8069ca72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 27/48] fix: statsd sampling rate NaN is rejected

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index e3ffc0e..45f8180 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -188,7 +188,7 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From 7fe797cf85f29b5c4cd182e91f69b30f2283e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 28/48] fix: a tiny statsd sampling rate does not keep the
 daemon busy forever

---
 server/spectatord.cc      | 10 ++--------
 spectator/dist_summary.cc | 12 ++++++++----
 spectator/dist_summary.h  |  2 ++
 spectator/timer.cc        | 16 +++++++++++-----
 spectator/timer.h         |  3 +++
 5 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 45f8180..cfbce16 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -89,19 +89,13 @@ static void update_statsd_metric(spectator::Registry* registry,
       break;
     case StatsdMetricType::Histogram: {
       auto k = std::lround(1 / sampling_rate);
-      auto hist = registry->GetDistributionSummary(std::move(id));
-      for (auto i = 0; i < k; ++i) {
-        hist->Record(value);
-      }
+      registry->GetDistributionSummary(std::move(id))->Record(value, k);
       break;
     }
     case StatsdMetricType::Timing: {
       auto k = std::lround(1 / sampling_rate);
       auto ns = std::chrono::nanoseconds(std::lround(value * 1e6));
-      auto timer = registry->GetTimer(std::move(id));
-      for (auto i = 0; i < k; ++i) {
-        timer->Record(ns);
-      }
+      registry->GetTimer(std::move(id))->Record(ns, k);
       break;
     }
     case StatsdMetricType::Set:
diff --git a/spectator/dist_summary.cc b/spectator/dist_summary.cc
index 4f1fb13..9373945 100644
--- a/spectator/dist_summary.cc
+++ b/spectator/dist_summary.cc
@@ -28,12 +28,16 @@ auto DistributionSummary::Measure(Measurements* results) const noexcept
 }
 
 auto DistributionSummary::Record(double amount) noexcept -> void {
+  Record(amount, 1);
+}
+
+auto DistributionSummary::Record(double amount, int64_t times) noexcept -> void {
   Update();
 
-  if (amount >= 0) {
-    count_.fetch_add(1, std::memory_order_relaxed);
-    add_double(&total_, amount);
-    add_double(&totalSq_, amount * amount);
+  if (amount >= 0 && times > 0) {
+    count_.fetch_add(times, std::memory_order_relaxed);
+    add_double(&total_, amount * times);
+    add_double(&totalSq_, amount * amount * times);
     update_max(&max_, amount);
   }
 }
diff --git a/spectator/dist_summary.h b/spectator/dist_summary.h
index a51d55d..b996130 100644
--- a/spectator/dist_summary.h
+++ b/spectator/dist_summary.h
@@ -10,6 +10,8 @@ class DistributionSummary : public Meter {
   explicit DistributionSummary(Id id) noexcept;
   auto Measure(Measurements* results) const noexcept -> void;
   auto Record(double amount) noexcept -> void;
+  // same as recording the amount the given number of times
+  auto Record(double amount, int64_t times) noexcept -> void;
   [[nodiscard]] auto Count() const noexcept -> int64_t;
   [[nodiscard]] auto TotalAmount() const noexcept -> double;
 
diff --git a/spectator/timer.cc b/spectator/timer.cc
index 3218601..ca3923b 100644
--- a/spectator/timer.cc
+++ b/spectator/timer.cc
@@ -29,13 +29,15 @@ void Timer::Measure(Measurements* results) const noexcept {
   results->emplace_back(st->max, mx_secs);
 }
 
-void Timer::Record(absl::Duration amount) noexcept {
+void Timer::Record(absl::Duration amount) noexcept { Record(amount, 1); }
+
+void Timer::Record(absl::Duration amount, int64_t times) noexcept {
   Update();
   int64_t ns = amount / absl::Nanoseconds(1);
-  if (ns >= 0) {
-    count_.fetch_add(1, std::memory_order_relaxed);
-    total_.fetch_add(ns, std::memory_order_relaxed);
-    add_double(&totalSq_, static_cast<double>(ns) * ns);
+  if (ns >= 0 && times > 0) {
+    count_.fetch_add(times, std::memory_order_relaxed);
+    total_.fetch_add(ns * times, std::memory_order_relaxed);
+    add_double(&totalSq_, static_cast<double>(ns) * ns * times);
     update_max(&max_, ns);
   }
 }
@@ -44,6 +46,10 @@ void Timer::Record(std::chrono::nanoseconds amount) noexcept {
   Record(absl::FromChrono(amount));
 }
 
+void Timer::Record(std::chrono::nanoseconds amount, int64_t times) noexcept {
+  Record(absl::FromChrono(amount), times);
+}
+
 auto Timer::Count() const noexcept -> int64_t {
   return count_.load(std::memory_order_relaxed);
 }
diff --git a/spectator/timer.h b/spectator/timer.h
index 268760c..3228981 100644
--- a/spectator/timer.h
+++ b/spectator/timer.h
@@ -14,6 +14,9 @@ class Timer : public Meter {
 
   void Record(std::chrono::nanoseconds amount) noexcept;
   void Record(absl::Duration amount) noexcept;
+  // same as recording the amount the given number of times
+  void Record(std::chrono::nanoseconds amount, int64_t times) noexcept;
+  void Record(absl::Duration amount, int64_t times) noexcept;
   auto Count() const noexcept -> int64_t;
   auto TotalTime() const noexcept -> int64_t;
 
-- 
2.43.0


From eb2c3c9185f60bf7282f930e2a75d7d3b7c45865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 29/48] fix: stopping the registry does not wait for the next
 expiration

---
 spectator/registry.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 5367c4b..cde6e1d 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -145,7 +145,13 @@ void Registry::Start() noexcept {
 
 void Registry::Stop() noexcept {
   publisher_.Stop();
-  if (!should_stop_.exchange(true)) {
+  bool was_stopped;
+  {
+    // so that the expirer is not between its check and its wait
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    was_stopped = should_stop_.exchange(true);
+  }
+  if (!was_stopped) {
     logger_->debug("Stopping expirer thread");
     cv_.notify_all();
     expirer_thread_.join();
@@ -221,7 +227,7 @@ void Registry::expirer() noexcept {
   // Start - wait one freq_millis interval
   {
     std::unique_lock<std::mutex> lock{cv_mutex_};
-    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency));
+    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency), [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
     auto start = absl::Now();
@@ -231,7 +237,7 @@ void Registry::expirer() noexcept {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
       logger_->debug("Expirer sleeping {}s", absl::ToDoubleSeconds(sleep));
-      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
     }
   }
 }
-- 
2.43.0


From 0fbb83f464cdad9e8143fab9ccabb671afef6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 30/48] fix: stopping the publisher does not wait for the next
 interval

---
 spectator/publisher.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index ec7a69a..dfb27ae 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -90,7 +90,11 @@ class Publisher {
 
   void Stop() {
     if (started_.exchange(false)) {
-      should_stop_ = true;
+      {
+        // so that the sender is not between its check and its wait
+        std::lock_guard<std::mutex> lock{cv_mutex_};
+        should_stop_ = true;
+      }
       cv_.notify_all();
       sender_thread_.join();
     }
@@ -153,7 +157,7 @@ class Publisher {
         auto sleep = cfg.frequency - elapsed;
         logger->debug("Sleeping {}s until the next interval",
                       absl::ToDoubleSeconds(sleep));
-        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
       }
     }
     logger->info("Stopping Publisher");
-- 
2.43.0


From fde8ef13dba42606c162ea89926686daa0dd14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 31/48] fix: a publisher started again after a stop publishes
 again

---
 spectator/publisher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index dfb27ae..deaf454 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -81,6 +81,7 @@ class Publisher {
       return;
     }
 
+    should_stop_ = false;
     sender_thread_ = std::thread(&Publisher::sender, this);
   }
 
-- 
2.43.0


From 8fad0577525d7fbe930a92047e3a9ca9e2f83c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 32/48] fix: stopping the server does not wait for the next
 housekeeping

---
 server/spectatord.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index cfbce16..a35bc71 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -456,7 +456,7 @@ void Server::upkeep() {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = kFrequency - elapsed;
       logger->debug("Janitor - sleeping {}ms", duration_cast<milliseconds>(sleep).count());
-      cv_.wait_for(lock, sleep);
+      cv_.wait_for(lock, sleep, [this] { return should_stop_.load(); });
     }
   }
 }
@@ -473,7 +473,13 @@ void Server::update_network_metrics() {
 }
 
 void Server::Stop() {
-  if (!should_stop_.exchange(true)) {
+  bool was_stopped;
+  {
+    // so that the upkeep loop is not between its check and its wait
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    was_stopped = should_stop_.exchange(true);
+  }
+  if (!was_stopped) {
     logger_->debug("Stopping background tasks");
     cv_.notify_all();
     upkeep_thread_.join();
-- 
2.43.0


From 257eea1bd1fc36526fade70e1412ffa13309986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 33/48] fix: a batch size of 0 does not keep the publisher busy
 forever

---
 spectator/publisher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index deaf454..6795410 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -355,7 +355,7 @@ class Publisher {
     auto http_cfg = get_http_config(cfg);
     auto start = absl::Now();
     HttpClient client{registry_, std::move(http_cfg)};
-    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(cfg.batch_size);
+    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(std::max(1, cfg.batch_size));
     auto measurements = registry_->Measurements();
 
     if (!cfg.is_enabled() || measurements.empty()) {
-- 
2.43.0


From fe9be4fe7daf1e52c79c3a3505519e39c73b9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 34/48] fix: GET /metrics does not use meters that are removed
 meanwhile

---
 admin/admin_server.cc | 55 ++++++++++++++++++++++---------------------
 spectator/registry.h  | 16 +++++++++++++
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 4283249..74d2937 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -147,12 +147,12 @@ void POST_config_common_tags(HTTPServerRequest& req, HTTPServerResponse& res,
   res.send() << R"({"message": "common tags updated"})";
 }
 
-Poco::SharedPtr<Object> fmt_meter_object(spectator::Meter* meter) {
+Poco::SharedPtr<Object> fmt_meter_object(const spectator::Meter& meter) {
   Object::Ptr obj = new Object(true);
-  obj->set("name", fmt::format("{}", meter->MeterId().Name()));
+  obj->set("name", fmt::format("{}", meter.MeterId().Name()));
 
   Object::Ptr tag_obj = new Object(true);
-  for (auto tag_it : meter->MeterId().GetTags()) {
+  for (auto tag_it : meter.MeterId().GetTags()) {
     tag_obj->set(fmt::format("{}", tag_it.key), fmt::format("{}", tag_it.value));
   }
   obj->set("tags", tag_obj);
@@ -162,80 +162,81 @@ Poco::SharedPtr<Object> fmt_meter_object(spectator::Meter* meter) {
 
 void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Registry& registry) {
   Object::Ptr obj = new Object(true);
+  const auto& meters = registry.Meters();
 
   Poco::JSON::Array::Ptr age_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.AgeGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.age_gauges_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Value()));
     age_gauges->add(meter);
   }
   obj->set("age_gauges", age_gauges);
 
   Poco::JSON::Array::Ptr counters = new Poco::JSON::Array(true);
-  for (auto it : registry.Counters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.counters_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Count()));
     counters->add(meter);
   }
   obj->set("counters", counters);
 
   Poco::JSON::Array::Ptr dist_summaries = new Poco::JSON::Array(true);
-  for (auto it : registry.DistSummaries()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.dist_sums_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->TotalAmount()));
     dist_summaries->add(meter);
   }
   obj->set("dist_summaries", dist_summaries);
 
   Poco::JSON::Array::Ptr gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.Gauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.gauges_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Get()));
     gauges->add(meter);
   }
   obj->set("gauges", gauges);
 
   Poco::JSON::Array::Ptr max_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.MaxGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.max_gauges_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Get()));
     max_gauges->add(meter);
   }
   obj->set("max_gauges", max_gauges);
 
   Poco::JSON::Array::Ptr mono_counters = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCounters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.mono_counters_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters->add(meter);
   }
   obj->set("mono_counters", mono_counters);
 
   Poco::JSON::Array::Ptr mono_counters_uint = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCountersUint()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.mono_counters_uint_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters_uint->add(meter);
   }
   obj->set("mono_counters_uint", mono_counters_uint);
 
   Poco::JSON::Array::Ptr timers = new Poco::JSON::Array(true);
-  for (auto it : registry.Timers()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : meters.timers_.get_meters()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->TotalTime()));
     timers->add(meter);
   }
   obj->set("timers", timers);
 
   Object::Ptr stats = new Object(true);
-  auto age_gauges_size = registry.AgeGauges().size();
-  auto counters_size = registry.Counters().size();
-  auto dist_summaries_size = registry.DistSummaries().size();
-  auto gauges_size = registry.Gauges().size();
-  auto max_gauges_size = registry.MaxGauges().size();
-  auto mono_counters_size = registry.MonotonicCounters().size();
-  auto mono_counters_uint_size = registry.MonotonicCountersUint().size();
-  auto timers_size = registry.Timers().size();
+  auto age_gauges_size = meters.age_gauges_.size();
+  auto counters_size = meters.counters_.size();
+  auto dist_summaries_size = meters.dist_sums_.size();
+  auto gauges_size = meters.gauges_.size();
+  auto max_gauges_size = meters.max_gauges_.size();
+  auto mono_counters_size = meters.mono_counters_.size();
+  auto mono_counters_uint_size = meters.mono_counters_uint_.size();
+  auto timers_size = meters.timers_.size();
   auto total = age_gauges_size + counters_size + dist_summaries_size + gauges_size +
                max_gauges_size + mono_counters_size + mono_counters_uint_size + timers_size;
   stats->set("age_gauges.size", age_gauges_size);
diff --git a/spectator/registry.h b/spectator/registry.h
index 562703a..b2d185d 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -145,6 +145,19 @@ struct meter_map {
     }
     return res;
   }
+
+  // same as get_values, but the meters stay valid when they are removed
+  auto get_meters() const -> std::vector<std::shared_ptr<const M>> {
+    std::vector<std::shared_ptr<const M>> res;
+    {
+      absl::MutexLock lock{&meters_mutex_};
+      res.reserve(meters_.size());
+      for (const auto& pair : meters_) {
+        res.emplace_back(pair.second);
+      }
+    }
+    return res;
+  }
 };
 
 struct all_meters {
@@ -339,6 +352,9 @@ class Registry {
   bool DeleteMeter(const std::string& type, const Id& id);
   void DeleteAllMeters(const std::string& type);
 
+  // all meters, for use while other threads may remove some of them
+  auto Meters() const -> const detail::all_meters& { return all_meters_; }
+
   // for debugging / testing
   auto AgeGauges() const -> std::vector<const AgeGauge*> {
     return all_meters_.age_gauges_.get_values();
-- 
2.43.0


From 9671725cf8fcd5fe2e6eb74c63b59ae9afd9875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 35/48] fix: dropped packets are reported for IPv6 listeners,
 which /proc/net/udp does not list

---
 server/spectatord.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index a35bc71..32e8210 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -462,10 +462,10 @@ void Server::upkeep() {
 }
 
 void Server::update_network_metrics() {
-  // parse /proc/net/udp to get dropped packets for our ports
+  // parse /proc/net/udp (or udp6) to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  auto info = udp_info(port_number_);
+  auto info = udp_info(port_number_, ipv4_only_ ? "/proc/net/udp" : "/proc/net/udp6");
   if (info && cfg.status_metrics_enabled) {
     registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
     registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
-- 
2.43.0


From 3d510c802f1ecfa20f14dbc0214e340c05095d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 36/48] fix: a sampled source without a timestamp is rejected
 instead of dropped silently

---
 server/spectatord.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 32e8210..e40c964 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -520,6 +520,10 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
       }
     }
     p = end_ttl;
+  } else if (type == 'X') {
+    auto msg = std::string{"Missing timestamp for monotonic sampled source"};
+    Logger()->info(fmt::format("Parse error for '{}': {}", buffer, msg));
+    return msg;
   }
   if (*p != ':') {
     auto msg = fmt::format("Expecting separator ':' at index {}", p - buffer);
-- 
2.43.0


From d031aef6e12a7566d1155c7f86f813e8a70b8553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 37/48] fix: HTTP header values have neither the line end nor
 miss a first character

---
 spectator/http_client.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/spectator/http_client.cc b/spectator/http_client.cc
index 7c22b1a..1352303 100644
--- a/spectator/http_client.cc
+++ b/spectator/http_client.cc
@@ -48,7 +48,17 @@ auto curl_capture_headers_fun(char* contents, size_t size, size_t nmemb, void* u
   auto p = static_cast<char*>(memchr(contents, ':', real_size));
   if (p != nullptr && p + 2 < end) {
     std::string key{contents, p};
-    std::string value{p + 2, end - 1};  // drop last lf
+    // drop the white space around the value, which includes the line end
+    auto is_space = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
+    auto first = p + 1;
+    while (first < end && is_space(*first)) {
+      ++first;
+    }
+    auto last = end;
+    while (last > first && is_space(*(last - 1))) {
+      --last;
+    }
+    std::string value{first, last};
     headers->emplace(std::make_pair(std::move(key), std::move(value)));
   }
   return real_size;
-- 
2.43.0


From d9d3f8e180abafc8ec67b318a1897e6b9000d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 38/48] fix: deeply nested aggregator responses do not exhaust
 the stack

---
 spectator/publisher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 6795410..81536b5 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -298,7 +298,9 @@ class Publisher {
       }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
-      body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
+      // iteratively, since deeply nested input must not exhaust the stack
+      body.Parse<rapidjson::kParseIterativeFlag>(http_response.raw_body.c_str(),
+                                                 http_response.raw_body.size());
       if (body.HasParseError()) {
         logger->error("Unable to parse JSON response from {} - status {}: {}",
                       uri, http_code, http_response.raw_body);
-- 
2.43.0


From a6abc95188b22e43b90fa73a36f0b84d63cb47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 39/48] fix: only the local host names pass the admin server's
 host check

---
 admin/admin_server.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 74d2937..e719f84 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -310,13 +310,17 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   }
 }
 
+// the host header names this host, with or without a port
+bool is_localhost(const std::string& host) {
+  const auto port = host.find(':', host.find(']') == std::string::npos ? 0 : host.find(']'));
+  const auto name = host.substr(0, port);
+  return name == "localhost" || name == "127.0.0.1" || name == "[::1]";
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
-  auto localhost_found =
-      req.getHost().rfind("localhost") != std::string::npos ||
-      req.getHost().rfind("127.0.0.1") != std::string::npos ||
-      req.getHost().rfind("[::1]") != std::string::npos;
+  auto localhost_found = is_localhost(req.getHost());
 
   if (req.getURI() == "/" && req.getMethod() == "GET") {
     // describe admin service
-- 
2.43.0


From fcda6ddf13c74a38013798e0f2a1c0709156032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 40/48] fix: admin deletions are only accepted below /metrics/A
 and /metrics/g

---
 admin/admin_server.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index e719f84..56abe9d 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -317,6 +317,12 @@ bool is_localhost(const std::string& host) {
   return name == "localhost" || name == "127.0.0.1" || name == "[::1]";
 }
 
+// the endpoint itself, or a name below it
+bool is_endpoint(const std::string& uri, const std::string& endpoint) {
+  return uri.rfind(endpoint, 0) == 0 &&
+         (uri.size() == endpoint.size() || uri[endpoint.size()] == '/');
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
@@ -344,7 +350,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
   } else if (req.getURI() == "/metrics" && req.getMethod() == "GET") {
     // get all metrics defined in the registry
     GET_metrics(req, res, this->registry);
-  } else if (req.getURI().rfind("/metrics/A", 0) == 0  && req.getMethod() == "DELETE") {
+  } else if (is_endpoint(req.getURI(), "/metrics/A") && req.getMethod() == "DELETE") {
     // delete one or all age gauges
     if (localhost_found) {
       DELETE_metrics("A", req, res, this->logger, this->registry);
@@ -354,7 +360,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
       res.setReason("Bad Request");
       res.send();
     }
-  } else if (req.getURI().rfind("/metrics/g", 0) == 0 && req.getMethod() == "DELETE") {
+  } else if (is_endpoint(req.getURI(), "/metrics/g") && req.getMethod() == "DELETE") {
     // delete one or all gauges
     if (localhost_found) {
       DELETE_metrics("g", req, res, this->logger, this->registry);
-- 
2.43.0


From 6a78b55488b31d85b8d8750a7f00873269499857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 41/48] fix: setting an expired gauge does not publish its old
 value meanwhile

---
 spectator/gauge.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectator/gauge.cc b/spectator/gauge.cc
index 84fc1c5..c5f2053 100644
--- a/spectator/gauge.cc
+++ b/spectator/gauge.cc
@@ -40,9 +40,9 @@ void Gauge::Measure(Measurements* results, int64_t now) const noexcept {
 }
 
 void Gauge::Set(double value) noexcept {
-  Update();
-
+  // in this order, so that an expired value is not published again meanwhile
   value_.store(value, std::memory_order_relaxed);
+  Update();
 }
 
 auto Gauge::Get() const noexcept -> double {
-- 
2.43.0


From 09a810187be2957b20825c536948c6f21b25c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 42/48] fix: expiration keeps a meter that is about to be
 updated

---
 spectator/registry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index b2d185d..2de8a94 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -101,7 +101,10 @@ struct meter_map {
       auto end = meters_.end();
       while (it != end) {
         ++total;
-        if (is_meter_expired(now, *it->second, meter_ttl)) {
+        // a meter that somebody holds may be about to be updated
+        const auto unused = it->second.use_count() == 1;
+        std::atomic_thread_fence(std::memory_order_acquire);
+        if (unused && is_meter_expired(now, *it->second, meter_ttl)) {
           it = meters_.erase(it);
           ++expired;
         } else {
-- 
2.43.0


From 2bc38a4815dfd35a385b595bb2a5b0b2dd277264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 43/48] fix: a percentile meter in use is not freed when its
 cache entry expires

---
 server/expiring_cache.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/expiring_cache.h b/server/expiring_cache.h
index 2cac0f4..868b36a 100644
--- a/server/expiring_cache.h
+++ b/server/expiring_cache.h
@@ -11,7 +11,7 @@ namespace detail {
 template <typename V>
 struct cache_entry {
   mutable std::chrono::steady_clock::time_point updated;
-  std::unique_ptr<V> v;
+  std::shared_ptr<V> v;
 };
 }  // namespace detail
 
@@ -22,19 +22,22 @@ class expiring_cache {
                                             spectator::Id);
   explicit expiring_cache(supplier_t supplier) : supplier_{supplier} {}
 
-  V* get_or_create(spectator::Registry* registry, spectator::Id k) {
+  // the caller shares the ownership of the meter, because the entry can be
+  // expired by another thread while the caller is still using it
+  std::shared_ptr<V> get_or_create(spectator::Registry* registry,
+                                   spectator::Id k) {
     absl::MutexLock lock{&cache_mutex_};
 
     auto it = cache_.find(k);
     if (it != cache_.end()) {
       auto& entry = it->second;
       entry.updated = std::chrono::steady_clock::now();
-      return entry.v.get();
+      return entry.v;
     }
 
     detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                  supplier_(registry, k)};
-    auto* ret = entry.v.get();
+    auto ret = entry.v;
     cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
     return ret;
   }
-- 
2.43.0


From 992fe02d9bc317dae1c07f8b1333c467f5f1ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 44/48] fix: a large tag set that was moved from is empty
 instead of unusable

---
 spectator/tags.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spectator/tags.h b/spectator/tags.h
index b7b441d..a9eb324 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -36,8 +36,8 @@ class Tags {
   Tags(Tags&& o) noexcept : size_{o.size_}, begin_{o.begin_} {
     if (is_large()) {
       // take ownership of the memory
-      o.begin_ = nullptr;
       U.capacity_ = o.U.capacity_;
+      o.release();
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
@@ -67,8 +67,8 @@ class Tags {
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
-      o.begin_ = nullptr;
       U.capacity_ = o.U.capacity_;
+      o.release();
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
@@ -167,6 +167,12 @@ class Tags {
   [[nodiscard]] auto end() -> iterator { return begin_ + size_; }
 
  private:
+  // an empty set again, after its memory has got another owner
+  auto release() -> void {
+    size_ = 0;
+    begin_ = &U.entries_[0];
+  }
+
   auto insert(StrRef k, StrRef v) -> void {
     auto* it = std::lower_bound(
         begin(), end(), k,
-- 
2.43.0


From 38332da7bfca13250e7970cf8673ec6068fdeac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 45/48] fix: initializing a compressed buffer again releases
 the stream in progress

---
 spectator/compressed_buffer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/compressed_buffer.cc b/spectator/compressed_buffer.cc
index 2afb138..6c283ea 100644
--- a/spectator/compressed_buffer.cc
+++ b/spectator/compressed_buffer.cc
@@ -70,6 +70,10 @@ auto CompressedBuffer::Result() -> CompressedResult {
 }
 
 auto CompressedBuffer::Init() -> void {
+  if (init_) {
+    // discard the stream in progress
+    deflateEnd(&stream);
+  }
   cur_.clear();
   init_ = true;
   dest_index_ = 0;
-- 
2.43.0


From 06fca4043861e0a244d39733ae4eb9644d59a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 46/48] fix: the percentile 0 is not NaN when the first bucket
 is empty

---
 spectator/percentile_buckets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/percentile_buckets.cc b/spectator/percentile_buckets.cc
index ef2d7a1..867363a 100644
--- a/spectator/percentile_buckets.cc
+++ b/spectator/percentile_buckets.cc
@@ -48,7 +48,8 @@ void Percentiles(const std::array<int64_t, PercentileBucketsLength()>& counts,
     auto next = prev + counts.at(i);
     auto nextP = 100.0 * next / total;
     auto nextB = kBucketValues.at(i);
-    while (pctIdx < pcts.size() && nextP >= pcts[pctIdx]) {
+    // an empty bucket does not hold any percentile
+    while (pctIdx < pcts.size() && nextP > prevP && nextP >= pcts[pctIdx]) {
       auto f = (pcts[pctIdx] - prevP) / (nextP - prevP);
       results->at(pctIdx) = f * (nextB - prevB) + prevB;
       ++pctIdx;
-- 
2.43.0


From 8bb0f5c2c20f68ae5d3962fa6dc512abac894214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 47/48] fix: the path of a URL is not taken from its query, nor
 a protocol from a path

---
 spectator/strings.cc | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/spectator/strings.cc b/spectator/strings.cc
index 8bfc469..6be3663 100644
--- a/spectator/strings.cc
+++ b/spectator/strings.cc
@@ -8,23 +8,18 @@ auto PathFromUrl(std::string_view url) noexcept -> std::string {
     return "/";
   }
 
-  auto proto_end = std::find(url.begin(), url.end(), ':');
-  if (proto_end == url.end()) {
+  auto proto = url.find("://");
+  if (proto == std::string_view::npos || url.find_first_of("/?") < proto) {
     return std::string{url};  // no protocol, assume just a path
   }
+  const auto* proto_end = url.begin() + proto + 3;  // skip over ://
 
-  // length of the string after http: - should be at least 3 for ://
-  if ((url.end() - proto_end) < 3) {
-    return std::string{url};
-  }
-  proto_end += 3;  // skip over ://
-
-  auto path_begin = std::find(proto_end, url.end(), '/');
-  if (path_begin == url.end()) {
+  const auto* query_begin = std::find(proto_end, url.end(), '?');
+  const auto* path_begin = std::find(proto_end, query_begin, '/');
+  if (path_begin == query_begin) {
     return "/";
   }
 
-  auto query_begin = std::find(path_begin, url.end(), '?');
   return std::string{path_begin, query_begin};
 }
 
-- 
2.43.0


From a3db658c7d2fdc1db3053a9f2e860188845467dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 48/48] fix: the rest of a long line is not taken for another
 line of the UDP statistics

---
 server/proc_utils.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index c1c0a46..b2eebec 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -36,6 +36,18 @@ auto max_buffer_size(const char* proc_file) -> int {
   return result;
 }
 
+// reads the beginning of the next line, and skips what does not fit
+static auto read_line(char* line, int size, FILE* file) -> bool {
+  if (fgets(line, size, file) == nullptr) return false;
+  if (strchr(line, '\n') == nullptr) {
+    int c;
+    do {
+      c = fgetc(file);
+    } while (c != '\n' && c != EOF);
+  }
+  return true;
+}
+
 auto udp_info(int port, const char* proc_file) -> std::optional<udp_info_t> {
   StdIoFile udp{proc_file};
   if (udp == nullptr) return {};
@@ -43,9 +55,9 @@ auto udp_info(int port, const char* proc_file) -> std::optional<udp_info_t> {
   udp_info_t res{};
   char line[4096];
   // discard header
-  if (fgets(line, sizeof line, udp) == nullptr) return {};
+  if (!read_line(line, sizeof line, udp)) return {};
 
-  while (fgets(line, sizeof line, udp) != nullptr) {
+  while (read_line(line, sizeof line, udp)) {
     std::vector<std::string> fields =
         absl::StrSplit(line, absl::ByAnyChar(" :\n"), absl::SkipEmpty());
     if (fields.size() < 17) continue;
-- 
2.43.0

