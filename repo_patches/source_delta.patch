From 6074617f10866cd16bfc1f86ed456f9a0d6e084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 01/70] fix: ThreadPool: do not accept tasks that no worker
 will run after stop()

enqueue checked the stop flag without holding the mutex. When the pool was
stopped between that check and the insertion, all workers could already have
left, and the accepted task was never run: its future never became ready and
waitForEmptyQueue() blocked forever. The flag was also read and written by
several threads without synchronization.
---
 .../include/aslam/common/thread-pool.h          | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..6369eed 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -24,6 +24,7 @@
 //
 //   3. This notice may not be removed or altered from any source
 //   distribution.
+#include <atomic>
 #include <condition_variable>
 #include <future>
 #include <functional>
@@ -114,7 +115,7 @@ class ThreadPool {
   // A counter of active threads
   unsigned active_threads_;
   // A signal to stop the threads.
-  volatile bool stop_;
+  std::atomic<bool> stop_;
 };
 
 // Add new work item to the pool.
@@ -131,18 +132,20 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool. This has to be checked
+    // while holding the mutex: the workers exit once the pool is stopped and the
+    // queue is empty, and would never run a task that is added after that.
+    if (stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<return_type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From d957e65366c3e3732927302de1b3a15ce7635951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 02/70] fix: ThreadPool: keep the queue consistent when
 enqueueing throws

If allocating the exclusivity guard failed, the task was already queued but had
no guard, was not announced to the workers, and the caller got an exception. The
workers then ignored the queue and waitForEmptyQueue() and the destructor never
returned.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 6369eed..cea4103 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -146,14 +146,16 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       // An empty future will return valid() == false.
       return std::future<return_type>();
     }
+    // Initialize a group id exclusivity guard. This is done before the task is
+    // queued such that there is a guard for every queued task, also if one of
+    // the allocations fails.
+    if (exclusivity_group_id != kGroupdIdNonExclusiveTask &&
+        groupid_exclusivity_guards_.count(exclusivity_group_id) == 0u) {
+      groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
-
-    // Initialize a group id exclusivity guard.
     if (exclusivity_group_id == kGroupdIdNonExclusiveTask) {
       ++num_queued_nonexclusive_tasks;
-    } else if (groupid_exclusivity_guards_.count(
-        exclusivity_group_id) == 0u) {
-      groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
   tasks_queue_change_.notify_one();
-- 
2.43.0


From 9162b413418e293c8a59832ef8a47fdcaaaf706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 03/70] fix: ThreadPool: do not lose the wake-up of a worker

enqueue used notify_one() on the condition variable that waitForEmptyQueue() also
waits for, so the notification could go to such a waiter. The task then stayed
queued while workers were idle.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index cea4103..1f395c0 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -158,7 +158,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       ++num_queued_nonexclusive_tasks;
     }
   }
-  tasks_queue_change_.notify_one();
+  // Notify everybody: the threads in waitForEmptyQueue() wait for the same
+  // condition variable and must not swallow the wake-up of a worker.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 8356057b88d1cbfed8442fb494e235905ba0f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 04/70] fix: ReaderFirstReaderWriterMutex: count waiting
 threads for isInUse()

---
 aslam_cv_common/src/reader-first-reader-writer-lock.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/reader-first-reader-writer-lock.cc b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
index 559a284..b79d02b 100644
--- a/aslam_cv_common/src/reader-first-reader-writer-lock.cc
+++ b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
@@ -9,14 +9,17 @@ ReaderFirstReaderWriterMutex::~ReaderFirstReaderWriterMutex() {}
 
 void ReaderFirstReaderWriterMutex::acquireReadLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++pending_readers_;
   while (current_writer_) {
     cv_writer_finished_.wait(lock);
   }
+  --pending_readers_;
   ++num_readers_;
 }
 
 void ReaderFirstReaderWriterMutex::acquireWriteLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++num_pending_writers_;
   while (true) {
     while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
       cv_readers_.wait(lock);
@@ -29,6 +32,7 @@ void ReaderFirstReaderWriterMutex::acquireWriteLock() {
       }
     }
   }
+  --num_pending_writers_;
   current_writer_ = true;
 }
 
-- 
2.43.0


From a297d27bd00c72d0550b589e51ae753cf2c2b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 05/70] fix: Statistics, Timing: do not read the tag map
 unlocked while reporting

---
 aslam_cv_common/src/statistics.cc | 18 ++++++++++++++----
 aslam_cv_common/src/timer.cc      | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..60ba39b 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,11 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..86c3df4 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,11 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +229,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +244,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From d49424cbed1e99ffed1eb9af8a1b36e90f1b4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 06/70] fix: Timing, Statistics: measure durations with a
 steady clock

---
 .../include/aslam/common/statistics/statistics.h    | 13 +++++--------
 aslam_cv_common/include/aslam/common/timer.h        |  2 +-
 aslam_cv_common/src/timer.cc                        |  6 +++---
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/statistics.h b/aslam_cv_common/include/aslam/common/statistics/statistics.h
index a2bb80f..716b408 100644
--- a/aslam_cv_common/include/aslam/common/statistics/statistics.h
+++ b/aslam_cv_common/include/aslam/common/statistics/statistics.h
@@ -29,16 +29,14 @@ const double kNumSecondsPerNanosecond = 1.e-9;
 struct StatisticsMapValue {
   static const int kWindowSize = 100;
 
-  inline StatisticsMapValue()
-      : time_last_called_(std::chrono::system_clock::from_time_t(0)),
-        epoch_clock_(std::chrono::system_clock::from_time_t(0)) {}
+  inline StatisticsMapValue() {}
 
   inline void AddValue(double sample) {
-    std::chrono::time_point<std::chrono::system_clock> now =
-        std::chrono::system_clock::now();
+    std::chrono::time_point<std::chrono::steady_clock> now =
+        std::chrono::steady_clock::now();
 
     // Only calculate delta time if it has been called before.
-    if (time_last_called_ != epoch_clock_) {
+    if (values_.total_samples() > 0) {
       double dt = static_cast<double>(
                       std::chrono::duration_cast<std::chrono::nanoseconds>(
                           now - time_last_called_)
@@ -114,8 +112,7 @@ struct StatisticsMapValue {
   // Create an accumulator with specified window size.
   Accumulator<double, double, kWindowSize> values_;
   Accumulator<double, double, kWindowSize> time_deltas_;
-  std::chrono::time_point<std::chrono::system_clock> time_last_called_;
-  std::chrono::time_point<std::chrono::system_clock> epoch_clock_;
+  std::chrono::time_point<std::chrono::steady_clock> time_last_called_;
 };
 
 // A class that has the statistics interface but does nothing. Swapping this in
diff --git a/aslam_cv_common/include/aslam/common/timer.h b/aslam_cv_common/include/aslam/common/timer.h
index e59c4fc..4c71d0c 100755
--- a/aslam_cv_common/include/aslam/common/timer.h
+++ b/aslam_cv_common/include/aslam/common/timer.h
@@ -81,7 +81,7 @@ class TimerImpl {
   size_t GetHandle() const;
 
  private:
-  std::chrono::time_point<std::chrono::system_clock> time_;
+  std::chrono::time_point<std::chrono::steady_clock> time_;
 
   bool is_timing_;
   size_t handle_;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 86c3df4..f6bc245 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -70,13 +70,13 @@ TimerImpl::~TimerImpl() {
 
 void TimerImpl::Start() {
   is_timing_ = true;
-  time_ = std::chrono::system_clock::now();
+  time_ = std::chrono::steady_clock::now();
 }
 
 double TimerImpl::Stop() {
   if (is_timing_) {
-    std::chrono::time_point<std::chrono::system_clock> now =
-        std::chrono::system_clock::now();
+    std::chrono::time_point<std::chrono::steady_clock> now =
+        std::chrono::steady_clock::now();
     double dt =
         static_cast<double>(
             std::chrono::duration_cast<std::chrono::nanoseconds>(now - time_)
-- 
2.43.0


From 23568110c689f1ed471c383d6bcc5e8bde3ad83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 07/70] fix: isChannelGroupEqual: do not deadlock when groups
 are compared both ways

---
 aslam_cv_common/src/channel.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..c2aa573 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -1,3 +1,4 @@
+#include <mutex>
 #include <string>
 #include <unordered_map>
 
@@ -28,8 +29,11 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Acquire both locks at once: another thread may compare the same two groups
+  // in the opposite order.
+  std::unique_lock<std::mutex> lock_left(left_channels.m_channels_, std::defer_lock);
+  std::unique_lock<std::mutex> lock_right(right_channels.m_channels_, std::defer_lock);
+  std::lock(lock_left, lock_right);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From b3581f6ebe57187d60032c4e9c8e216366d82350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 08/70] fix: ChannelGroup: lock the groups while copying

---
 aslam_cv_common/include/aslam/common/channel.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..cec9942 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -122,11 +122,16 @@ bool Channel<TYPE>::operator==(const Channel<TYPE>& other) {
 typedef std::unordered_map<std::string, std::shared_ptr<ChannelBase>> ChannelMap;
 struct ChannelGroup {
   ChannelGroup() = default;
-  ChannelGroup(ChannelGroup& other) {
+  ChannelGroup(const ChannelGroup& other) {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
-    channels_ = other.channels_;
+    if (this != &other) {
+      std::unique_lock<std::mutex> lock(m_channels_, std::defer_lock);
+      std::unique_lock<std::mutex> lock_other(other.m_channels_, std::defer_lock);
+      std::lock(lock, lock_other);
+      channels_ = other.channels_;
+    }
     return *this;
   }
 
-- 
2.43.0


From 4ccaa96a3c89b39e23076ed474ee51e0945035ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 09/70] fix: channel serialization: restore scalars from text
 exactly

---
 .../aslam/common/channel-serialization.h      | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..d4ee8aa 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -2,7 +2,10 @@
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -304,20 +307,40 @@ bool serializeToBuffer(const cv::Mat& matrix,
                        char** buffer, size_t* size);
 
 template<typename Scalar>
-bool serializeToString(const Scalar& value, std::string* string) {
+bool serializeToString(const Scalar& value, std::string* string,
+                       typename std::enable_if<!std::is_floating_point<Scalar>::value>::type*
+                         = 0) {
   CHECK_NOTNULL(string);
   std::string value_string = std::to_string(value);
   string->swap(value_string);
   return true;
 }
 
+template<typename Scalar>
+bool serializeToString(const Scalar& value, std::string* string,
+                       typename std::enable_if<std::is_floating_point<Scalar>::value>::type*
+                         = 0) {
+  CHECK_NOTNULL(string);
+  // Enough digits to restore exactly the same value.
+  std::ostringstream stream;
+  stream.imbue(std::locale::classic());
+  stream.precision(std::numeric_limits<Scalar>::max_digits10);
+  stream << value;
+  *string = stream.str();
+  return true;
+}
+
 template<typename Scalar>
 bool deSerializeFromString(const std::string& string,
                            Scalar* value,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  if (std::is_unsigned<Scalar>::value) {
+    (*value) = static_cast<Scalar>(std::stoull(string));
+  } else {
+    (*value) = static_cast<Scalar>(std::stoll(string));
+  }
   return true;
 }
 
@@ -328,7 +351,10 @@ bool deSerializeFromString(const std::string& string,
                              = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stod(string));
+  // std::stod() refuses subnormal numbers.
+  char* end = nullptr;
+  (*value) = static_cast<Scalar>(std::strtod(string.c_str(), &end));
+  CHECK_NE(end, string.c_str()) << "Not a number: " << string;
   return true;
 }
 
-- 
2.43.0


From c0419a64be59b3cf27e61fc2e15d9a66d7dd9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 10/70] fix: channel serialization: check the size of
 serialized matrix vectors

---
 .../include/aslam/common/channel-serialization.h         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index d4ee8aa..48b0951 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -248,12 +248,17 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  HeaderInformation header;
+  // Every matrix has at least a header.
+  CHECK_LE(repeat, (size - offset) / header.size());
+
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -280,9 +285,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(size, offset);
 
   return true;
 }
-- 
2.43.0


From 2a1c4bcd534d1e076454f026be29c3a89b4cba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 11/70] fix: channel serialization: reject images with an
 impossible number of channels

---
 aslam_cv_common/src/channel-serialization.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..60bdb04 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,6 +101,8 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
   size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
-- 
2.43.0


From 2c00c9ca0de0f53bedf5c2771c93939dd30245f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 12/70] fix: channel serialization: check the matrix size
 before allocating

---
 aslam_cv_common/include/aslam/common/channel-serialization.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index 48b0951..da67964 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -219,6 +219,8 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   }
   CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
   CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
+  // Check the size before allocating: a failing resize leaves the matrix unusable.
+  CHECK_LE(static_cast<uint64_t>(header.rows) * header.cols, size / sizeof(Scalar));
 
   if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
     matrix->resize(header.rows, header.cols);
@@ -275,6 +277,7 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
     CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
     CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
+    CHECK_LE(static_cast<uint64_t>(header.rows) * header.cols, size / sizeof(Scalar));
 
     if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
       (*matrices)[i].resize(header.rows, header.cols);
-- 
2.43.0


From 24731bbab8dc2c3a1bbb7dbb7101f1e18485bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 13/70] fix: YamlFileSerializable: report a failed write

---
 aslam_cv_common/include/aslam/common/yaml-file-serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/yaml-file-serialization.h b/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
index e6a62b5..9b35685 100644
--- a/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
@@ -27,6 +27,8 @@ class YamlFileSerializable {
         << "Failed to open file " << file_name << " for writing.";
     output_file_stream << yaml_node;
     output_file_stream.close();
+    CHECK(output_file_stream.good())
+        << "Failed to write file " << file_name << ".";
   }
 
   bool deserializeFromFile(const std::string& file_name) {
-- 
2.43.0


From 60383ec17f6307b7ecb03a1f64a985eb87bb1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 14/70] fix: YAML::Save: report a file that cannot be opened or
 written

---
 .../include/aslam/common/yaml-serialization.h          | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization.h b/aslam_cv_common/include/aslam/common/yaml-serialization.h
index 0ae6ca3..b974fd8 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization.h
@@ -68,13 +68,19 @@ bool Save(const ObjectType& object, std::ostream* ofs) {
     LOG(ERROR)<< "Encountered exception while saving yaml " << e.what();
     return false;
   }
-  return true;
+  return ofs->good();
 }
 
 template <typename T>
 bool Save(const T& object, const std::string& filename) {
   std::ofstream ofs(filename.c_str());
-  return Save(object, &ofs);
+  if (!ofs.is_open()) {
+    LOG(ERROR) << "Failed to open file " << filename << " for writing.";
+    return false;
+  }
+  const bool success = Save(object, &ofs);
+  ofs.close();
+  return success && ofs.good();
 }
 
 template <typename ObjectType>
-- 
2.43.0


From a6a35287f12637cb4121d9406d87ccef4e3927c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 15/70] fix: refuse images of a camera index one past the end
 of the rig

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..341372a 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -214,7 +214,7 @@ size_t VisualNPipeline::getNumFramesProcessing() const {
 
 void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
                            int64_t timestamp_nanoseconds) {
-  CHECK_LE(camera_index, pipelines_.size());
+  CHECK_LT(camera_index, pipelines_.size());
   std::shared_ptr<VisualFrame> frame;
   frame = pipelines_[camera_index]->processImage(image, timestamp_nanoseconds);
 
-- 
2.43.0


From c6a51436fb536fe5438b164647ba3355896737e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 16/70] fix: keep complete nframes when recovering from a
 dropped image

Only the incomplete nframes in front of the consecutive complete ones
are stuck; a complete nframe between them was thrown away with them.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 341372a..b4bf3aa 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -305,12 +305,18 @@ void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
     // Now drop all incomplete nframes up to delete_upto_including_index. All frames below this
     // index will probably never complete as one camera in the rig dropped an image.
     if (delete_upto_including_index >= 0) {
-      int num_nframes_to_delete = delete_upto_including_index + 1;
+      int num_nframes_to_check = delete_upto_including_index + 1;
+      int num_nframes_deleted = 0;
       auto it_processing = processing_.begin();
-      while (it_processing != processing_.end() && num_nframes_to_delete-- > 0) {
-        it_processing = processing_.erase(it_processing);
+      while (it_processing != processing_.end() && num_nframes_to_check-- > 0) {
+        if (it_processing->second->areAllFramesSet()) {
+          ++it_processing;
+        } else {
+          it_processing = processing_.erase(it_processing);
+          ++num_nframes_deleted;
+        }
       }
-      LOG(WARNING) << "Detected frame drop: removing " << delete_upto_including_index + 1
+      LOG(WARNING) << "Detected frame drop: removing " << num_nframes_deleted
                    << " nframes from the queue.";
     }
 
-- 
2.43.0


From 3de9dbeaebdc6d058cb936767053c7ceebf45cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 17/70] fix: VisualNPipeline::shutdown() could miss a thread
 about to wait

The flag was set and announced without the mutex, between a waiter's
check of the flag and its wait, so the waiter slept forever; and an image
could be reported as taken although the thread pool already refused it.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index b4bf3aa..6708a41 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,12 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    // Hold the mutex so that no thread can miss the notification between
+    // checking the flag and starting to wait.
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From 460e91931d9e8f06f0971c68e10c3560c9515af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 18/70] fix: do not report an image as taken when woken by
 shutdown

A feeder woken by shutdown() that found room in the queue handed its image
to the stopped thread pool and returned true.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 6708a41..6d37b2c 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -70,10 +70,9 @@ bool VisualNPipeline::processImageBlockingIfFull(
   std::unique_lock<std::mutex> lock(mutex_);
   while (!shutdown_) {
     if (completed_.size() >= max_queue_size) {
+      // Check again for shutdown after waking up: the image would be lost.
       condition_not_full_.wait(lock);
-      if (completed_.size() >= max_queue_size) {
-        continue;
-      }
+      continue;
     }
     processImageImpl(camera_index, image, timestamp);
     return true;
-- 
2.43.0


From 4205c6d7ed8da357b2dce9e056d38a587cb760e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 19/70] fix: do not fill the camera type names on first use

The stream operator filled a function-local static map on its first call
(and inserted unnamed types later), so two threads printing a camera type
raced on the map.
---
 .../include/aslam/cameras/camera-inl.h         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
index f9b6fd5..8eeeea0 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
@@ -39,14 +39,16 @@ bool Camera::isKeypointVisibleWithMargin(
 }
 
 inline std::ostream& operator<<(std::ostream& out, const Camera::Type& value) {
-  static std::map<Camera::Type, std::string> names;
-  if (names.size() == 0) {
-    #define INSERT_ELEMENT(type, val) names[type::val] = #val
-    INSERT_ELEMENT(Camera::Type, kPinhole);
-    INSERT_ELEMENT(Camera::Type, kUnifiedProjection);
-    #undef INSERT_ELEMENT
-  }
-  return out << names[value];
+  // Filled at initialization and never modified: may be used concurrently.
+  static const std::map<Camera::Type, std::string> names = {
+    #define NAME_ELEMENT(type, val) {type::val, #val}
+    NAME_ELEMENT(Camera::Type, kPinhole),
+    NAME_ELEMENT(Camera::Type, kUnifiedProjection),
+    NAME_ELEMENT(Camera::Type, kLidar3D)
+    #undef NAME_ELEMENT
+  };
+  const std::map<Camera::Type, std::string>::const_iterator it = names.find(value);
+  return it == names.end() ? out : out << it->second;
 }
 
 }  // namespace aslam
-- 
2.43.0


From 2c3bec1b3b5bc296dcd64eba45bbcd2a181399d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 20/70] fix: do not fill the distortion type names on first use

The stream operator filled a function-local static map on its first call, so
two threads printing a distortion type raced on the map.
---
 .../include/aslam/cameras/distortion-inl.h    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h b/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
index d348f33..45cfecf 100644
--- a/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
@@ -3,16 +3,17 @@
 namespace aslam {
 
 inline std::ostream& operator<<(std::ostream& out, const Distortion::Type& value) {
-  static std::map<Distortion::Type, std::string> names;
-  if (names.size() == 0) {
-    #define INSERT_ELEMENT(type, val) names[type::val] = #val
-    INSERT_ELEMENT(Distortion::Type, kNoDistortion);
-    INSERT_ELEMENT(Distortion::Type, kEquidistant);
-    INSERT_ELEMENT(Distortion::Type, kFisheye);
-    INSERT_ELEMENT(Distortion::Type, kRadTan);
-    #undef INSERT_ELEMENT
-  }
-  return out << names[value];
+  // Filled at initialization and never modified: may be used concurrently.
+  static const std::map<Distortion::Type, std::string> names = {
+    #define NAME_ELEMENT(type, val) {type::val, #val}
+    NAME_ELEMENT(Distortion::Type, kNoDistortion),
+    NAME_ELEMENT(Distortion::Type, kEquidistant),
+    NAME_ELEMENT(Distortion::Type, kFisheye),
+    NAME_ELEMENT(Distortion::Type, kRadTan)
+    #undef NAME_ELEMENT
+  };
+  const std::map<Distortion::Type, std::string>::const_iterator it = names.find(value);
+  return it == names.end() ? out : out << it->second;
 }
 
 }  // namespace aslam
-- 
2.43.0


From f6de9e050788a22c279b5008580a869e97bbf3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 21/70] fix: size the transposed AOS buffer of KAZE for images
 that are not square

Ltx_ holds the solution for the transposed image but was allocated with the
image's own rows and columns, so wide images wrote behind the buffer.
---
 aslam_cv_detector/src/kaze/KAZE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 4b0283a..9c731fb 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -82,7 +82,8 @@ void KAZE::Allocate_Memory_Evolution() {
   }
   // Allocate memory for the auxiliary variables that are used in the AOS scheme
   else {
-    Ltx_.create(size, CV_32F);
+    // The solution along the columns is computed on the transposed image.
+    Ltx_.create(options_.img_width, options_.img_height, CV_32F);
     Lty_.create(size, CV_32F);
     px_.create(size, CV_32F);
     py_.create(size, CV_32F);
-- 
2.43.0


From c6fd91297d96303078bf44a74154e420c36039a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 22/70] fix: let the occupancy grid shrink below one point per
 cell

removePointsFromFullestCellsUntilSize() takes the weakest point of the
fullest cell until the size is met, but aborted as soon as the fullest cell
held a single point.
---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..bf59ef3 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From 9db9049b4b97d0892405714a108e0cf5c5ba2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 23/70] fix: refuse to load a camera from the calibration of
 another camera model

---
 aslam_cv_cameras/src/camera.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..517279d 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -204,18 +204,26 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  Type type;
   if (camera_type == "pinhole") {
-    camera_type_ = Type::kPinhole;
+    type = Type::kPinhole;
   } else if (camera_type == "unified-projection") {
-    camera_type_ = Type::kUnifiedProjection;
+    type = Type::kUnifiedProjection;
   } else if (camera_type == "camera-3d-lidar") {
-    camera_type_ = Type::kLidar3D;
+    type = Type::kLidar3D;
   } else {
     LOG(ERROR) << "Unknown camera model: \"" << camera_type << "\". "
                << "Valid values are {pinhole, unified-projection}.";
     return false;
   }
 
+  // The type is a property of the class, it can not be changed by a file.
+  if (type != camera_type_) {
+    LOG(ERROR) << "The camera model \"" << camera_type
+               << "\" does not match the type of this camera.";
+    return false;
+  }
+
   // Get the camera intrinsics
   if (!YAML::safeGet(yaml_node, "intrinsics", &intrinsics_)) {
     LOG(ERROR) << "Unable to get image width.";
-- 
2.43.0


From 00e0d7506b403654096d633e1b3bb82d1d089b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 24/70] fix: reset the compressed flag of a camera when the
 loaded calibration has none

---
 aslam_cv_cameras/src/camera.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 517279d..2c09de5 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -245,12 +245,12 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   }
 
   // Get the optional compressed definition for images or set the default
-  if (YAML::hasKey(yaml_node, "compressed")) {
-    if (!YAML::safeGet(yaml_node, "compressed", &is_compressed_)) {
-      LOG(WARNING) << "Unable to parse parameter compressed."
-                   << "Setting to default value = false.";
-      is_compressed_ = false;
-    }
+  if (!YAML::hasKey(yaml_node, "compressed")) {
+    is_compressed_ = false;
+  } else if (!YAML::safeGet(yaml_node, "compressed", &is_compressed_)) {
+    LOG(WARNING) << "Unable to parse parameter compressed."
+                 << "Setting to default value = false.";
+    is_compressed_ = false;
   }
   return true;
 }
-- 
2.43.0


From 45da2ee2bb7f63b415dadf6a8b218f8cde507494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 25/70] fix: replace the cameras of a rig when loading, do not
 append to them

---
 aslam_cv_cameras/src/ncamera.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..f6aaa37 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -97,6 +97,12 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  // Replace what this rig held before.
+  has_T_G_B_fixed_localization_covariance_ = false;
+  T_C_B_.clear();
+  cameras_.clear();
+  id_to_index_.clear();
+
   if (yaml_node["T_G_B_fixed_covariance"]) {
     CHECK(YAML::safeGet(
         yaml_node, "T_G_B_fixed_covariance",
-- 
2.43.0


From bc504340049fcb7e87943b1ff77d3999924a1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 26/70] fix: accept one-element rows of Eigen column vectors in
 YAML, refuse longer ones

---
 aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..2c9f201 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -61,7 +61,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
-- 
2.43.0


From 4671b67e513672d294635b1c6856d40d1a1af92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 27/70] fix: discard untracked observations from all channels
 and descriptor blocks

discardUntrackedObservations() left the 3D positions and time offsets as they
were and expected a single descriptor block, so the remaining channels no
longer described the same keypoints, or the call aborted.
---
 aslam_cv_frames/src/visual-frame.cc | 32 +++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..e5598b4 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -606,11 +606,35 @@ void VisualFrame::discardUntrackedObservations(
     common::stl_helpers::eraseIndicesFromContainer(
         *discarded_indices, original_count, getKeypointScalesMutable());
   }
-  if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
+  if (hasKeypoint3DPositions()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
     common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+        *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
+  }
+  if (hasDescriptors()) {
+    CHECK_EQ(getNumDescriptors(), static_cast<size_t>(original_count));
+    // The keypoint indices run over all descriptor blocks.
+    std::vector<size_t>::const_iterator it_index = discarded_indices->begin();
+    size_t block_start = 0u;
+    for (DescriptorsT& block :
+         aslam::channels::get_DESCRIPTORS_Data(channels_)) {
+      const size_t block_size = static_cast<size_t>(block.cols());
+      std::vector<size_t> block_indices;
+      for (; it_index != discarded_indices->end() &&
+             *it_index < block_start + block_size; ++it_index) {
+        block_indices.emplace_back(*it_index - block_start);
+      }
+      if (!block_indices.empty()) {
+        common::stl_helpers::OneDimensionAdapter<unsigned char,
+        common::stl_helpers::kColumns> adapter(&block);
+        common::stl_helpers::eraseIndicesFromContainer(
+            block_indices, block_size, &adapter);
+      }
+      block_start += block_size;
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From a35c0ab2d205237e28199628485bb948622ad233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 28/70] fix: clear all keypoint channels of a frame

clearKeypointChannels() emptied only the first descriptor block and left the
3D positions and time offsets of the removed keypoints in place; adding new
keypoints to such a frame aborted.
---
 .../include/aslam/frames/visual-frame.h            |  3 ++-
 aslam_cv_frames/src/visual-frame.cc                | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_frames/include/aslam/frames/visual-frame.h b/aslam_cv_frames/include/aslam/frames/visual-frame.h
index ac2779c..dcda0c0 100644
--- a/aslam_cv_frames/include/aslam/frames/visual-frame.h
+++ b/aslam_cv_frames/include/aslam/frames/visual-frame.h
@@ -99,7 +99,8 @@ class VisualFrame  {
   }
 
   /// Clears the following channels: KeypointMeasurements, KeypointMeasurementUncertainties,
-  /// KeypointOrientations, KeypointScores, KeypointScales, Descriptors, TrackIds
+  /// KeypointOrientations, KeypointScores, KeypointScales, Descriptors, TrackIds and, if present,
+  /// Keypoint3DPositions, KeypointTimeOffsets
   void clearKeypointChannels();
 
   /// The keypoint measurements stored in a frame.
diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index e5598b4..07cd1aa 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,20 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+
+  // Optional channels that describe the same keypoints.
+  if (hasKeypoint3DPositions()) {
+    setKeypoint3DPositions(Eigen::Matrix3Xd());
+  }
+  if (hasKeypointTimeOffsets()) {
+    setKeypointTimeOffsets(zero_vector_int);
+  }
+
+  // Only a single, empty descriptor block remains.
+  if (hasDescriptors()) {
+    aslam::channels::get_DESCRIPTORS_Data(channels_).clear();
+    aslam::channels::get_DESCRIPTOR_TYPES_Data(channels_).resize(0);
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From 1290cc445e4dbeb7bacfbd2f3f375a685cee5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 29/70] fix: compare image channels of any type and size

Comparing channels with images of several color channels, or of different
size or type, threw a cv::Exception instead of returning the result.
---
 aslam_cv_common/src/channel.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index c2aa573..e85668f 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -10,7 +10,15 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  // Images can only be compared element by element if their layout is the same.
+  if (value_.type() != other.value_.type() || value_.size != other.value_.size) {
+    return false;
+  }
+  if (value_.empty()) {
+    return true;
+  }
+  const cv::Mat difference = value_ != other.value_;
+  return cv::countNonZero(difference.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 256b8959f88ff4f76ecbb6a3cd0221500bccf1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 30/70] fix: compare channels with matrices of different size

Comparing two channel groups whose matrices differ in size failed an Eigen
assertion, and read beyond the smaller matrix in a release build, instead of
reporting that they differ.
---
 .../include/aslam/common/channel.h            | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index cec9942..7c87bef 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,7 +18,9 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
+#include <Eigen/Core>
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
 #include <aslam/common/macros.h>
@@ -48,6 +50,31 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+template<typename ValueType>
+bool isValueEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+// Eigen only compares matrices of the same size.
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+bool isValueEqual(
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& left,
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ValueType, typename Allocator>
+bool isValueEqual(const std::vector<ValueType, Allocator>& left,
+                  const std::vector<ValueType, Allocator>& right) {
+  if (left.size() != right.size()) {
+    return false;
+  }
+  for (size_t i = 0u; i < left.size(); ++i) {
+    if (!isValueEqual(left[i], right[i])) {
+      return false;
+    }
+  }
+  return true;
+}
 }
 
 class ChannelBase {
@@ -100,7 +127,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::isValueEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
-- 
2.43.0


From a9e8b033adede344e540f7151db9e3bd83d59eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 31/70] fix: refuse the keypoint index behind the last one

getNormalizedBearingVectors() accepted an index equal to the number of
keypoints of the type, and returned the bearing of a keypoint of another type
or read beyond the keypoints.
---
 aslam_cv_frames/src/visual-frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 07cd1aa..e68c088 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -557,7 +557,7 @@ Eigen::Matrix3Xd VisualFrame::getNormalizedBearingVectors(
 
   size_t list_idx = 0;
   for (const size_t keypoint_idx : keypoint_indices) {
-    CHECK_LE(keypoint_idx, num_keypoints);
+    CHECK_LT(keypoint_idx, num_keypoints);
     keypoints_reduced.col(list_idx++) = keypoints.col(keypoint_idx);
   }
 
-- 
2.43.0


From 5f0e758d68432b9d477999d84adce9002fb270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 32/70] fix: accept all valid coordinates at the end of the
 occupancy grid

For some grid sizes, for example 1.7 with cells of 0.1, the cell index of a
coordinate just below the maximum was rounded up to the number of cells, and
adding the point aborted.
---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index bf59ef3..10671c5 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -383,8 +383,11 @@ WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
     CoordinatesType u_rows, CoordinatesType v_cols) {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
-  const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
-  const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
+  // The division may round up to the number of cells at the end of the grid.
+  const size_t grid_row = std::min(
+      static_cast<size_t>(std::floor(u_rows / cell_size_rows_)), num_grid_rows_ - 1u);
+  const size_t grid_col = std::min(
+      static_cast<size_t>(std::floor(v_cols / cell_size_cols_)), num_grid_cols_ - 1u);
 
   GridCoordinates grid_coordinates(grid_row, grid_col);
   return grid_coordinates;
-- 
2.43.0


From f0aa1927e88a1c6895815b19b37e0249c864c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 33/70] fix: erasing no indices from a container read before
 the list of indices

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From e3799a8dd4e89ee73e202315e6cb14a20cc79d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 34/70] fix: refuse serialized images whose size overflows

---
 aslam_cv_common/src/channel-serialization.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 60bdb04..dbf9ea3 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -103,6 +103,9 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(image);
   CHECK_GE(header.channels, 1u);
   CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  // The size computed below must not overflow.
+  CHECK_LE(static_cast<uint64_t>(header.rows) * header.cols,
+           size / (sizeof(SCALAR) * header.channels));
   size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
-- 
2.43.0


From 961d4eae4762d833d0d189dbc042c9626a813f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 35/70] fix: initialise the lookup of cameras in a rig cloned
 without distortion

---
 aslam_cv_cameras/src/ncamera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index f6aaa37..5349b90 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -348,6 +348,7 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
   rig_without_distortion->setId(ncam_id);
+  rig_without_distortion->initInternal();
   return rig_without_distortion;
 }
 
-- 
2.43.0


From 8670a7a357e5651cf9d32dbd41fd7a7a6eb8b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 36/70] fix: compare the fixed localization covariance of
 camera rigs

---
 aslam_cv_cameras/src/ncamera.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 5349b90..c6b9d03 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -417,7 +417,17 @@ bool NCamera::isEqualImpl(const Sensor& other, const bool verbose) const {
     }
     return false;
   }
-  bool is_equal = true;
+  bool is_equal = has_T_G_B_fixed_localization_covariance_ ==
+                  other_ncamera->has_T_G_B_fixed_localization_covariance_;
+  if (is_equal && has_T_G_B_fixed_localization_covariance_) {
+    is_equal = (T_G_B_fixed_localization_covariance_ -
+                other_ncamera->T_G_B_fixed_localization_covariance_)
+                   .cwiseAbs()
+                   .maxCoeff() < common::macros::kEpsilon;
+  }
+  LOG_IF(ERROR, verbose && !is_equal)
+      << "The fixed localization covariances are not the same.";
+
   for (size_t i = 0u; i < num_cameras && is_equal; ++i) {
     const bool is_same_camera =
         aslam::checkSharedEqual(cameras_[i], other_ncamera->cameras_[i]);
-- 
2.43.0


From beea02ca0600aee3f00c4f913e674776080b9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 37/70] fix: clear the topic and description of a sensor whose
 entry lacks them

---
 aslam_cv_common/src/sensor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_common/src/sensor.cc b/aslam_cv_common/src/sensor.cc
index 1d32e24..a7c935c 100644
--- a/aslam_cv_common/src/sensor.cc
+++ b/aslam_cv_common/src/sensor.cc
@@ -61,12 +61,14 @@ bool Sensor::deserialize(const YAML::Node& sensor_node) {
   if (!YAML::safeGet(
           sensor_node, static_cast<std::string>(kYamlFieldNameTopic),
           &topic_)) {
+    topic_.clear();
     LOG(WARNING) << "Unable to retrieve the sensor topic for sensor " << id_;
   }
 
   if (!YAML::safeGet(
           sensor_node, static_cast<std::string>(kYamlFieldNameDescription),
           &description_)) {
+    description_.clear();
     LOG(WARNING) << "Unable to retrieve the sensor description.";
   }
 
-- 
2.43.0


From 8ada8fd3777474d3707a4aefafcd3bfa98407808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 38/70] fix: keep the frames of a visual n-frame assigned to
 itself or whose copy fails

---
 aslam_cv_frames/src/visual-nframe.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..f13d8e4 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,17 +39,20 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
-  id_ = other.id_;
-  camera_rig_ = other.camera_rig_;
-  frames_.clear();
-  frames_.reserve(other.frames_.size());
+  // Copy the frames first: they may be the frames of this object, and this
+  // object must keep its content if copying them fails.
+  decltype(frames_) frames;
+  frames.reserve(other.frames_.size());
   for (const VisualFrame::Ptr& other_frame : other.frames_) {
     if (other_frame) {
-      frames_.emplace_back(new VisualFrame(*other_frame.get()));
+      frames.emplace_back(new VisualFrame(*other_frame.get()));
     } else {
-      frames_.emplace_back(nullptr);
+      frames.emplace_back(nullptr);
     }
   }
+  id_ = other.id_;
+  camera_rig_ = other.camera_rig_;
+  frames_.swap(frames);
   return *this;
 }
 
-- 
2.43.0


From 3bcd32c09a02f76892e597327fd47c35520639aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 39/70] fix: bounding box of feature tracks with negative
 coordinates

---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0


From de7f3ff7c5d83d1de277e0cbe93817b2c3e4460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 40/70] fix: use the descriptor size of each gyro matcher, not
 of the first one created

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 05d81e7..2efcad9 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -140,7 +140,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   bool passed_ratio_test = false;
   int n_processed_corners = 0;
   KeyPointIterator it_best;
-  const static unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
+  const unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
   int best_score = static_cast<int>(
       kDescriptorSizeBits * kMatchingThresholdBitsRatioRelaxed);
   unsigned int distance_best = kDescriptorSizeBits + 1;
-- 
2.43.0


From 690c64192a4a5e7492d7bd797b3490fdd2e5d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 41/70] fix: keep the second best candidate of the gyro
 matcher's ratio test

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 2efcad9..5174dd7 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -176,7 +176,8 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
     int current_score = kDescriptorSizeBits - distance;
     if (current_score > best_score) {
       best_score = current_score;
-      distance_second_best = distance_best;
+      // The second best may be a candidate that does not qualify as match.
+      distance_second_best = std::min(distance_second_best, distance_best);
       distance_best = distance;
       it_best = it;
       found = true;
@@ -220,7 +221,8 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       int current_score = kDescriptorSizeBits - distance;
       if (current_score > best_score) {
         best_score = current_score;
-        distance_second_best = distance_best;
+        // The second best may be a candidate that does not qualify as match.
+        distance_second_best = std::min(distance_second_best, distance_best);
         distance_best = distance;
         it_best = it;
         found = true;
-- 
2.43.0


From 1615760f673f31bc3b31709fdbedbd96d58ae70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 42/70] fix: accept candidates without any common descriptor
 bit in the gyro matcher

---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 64fbe24..7a15096 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -79,7 +79,7 @@ class GyroTwoFrameMatcher {
     MatchData() = default;
     void addCandidate(
         const KeyPointIterator keypoint_iterator_kp1, const double matching_score) {
-      CHECK_GT(matching_score, 0.0);
+      CHECK_GE(matching_score, 0.0);
       CHECK_LE(matching_score, 1.0);
       keypoint_match_candidates_kp1.push_back(keypoint_iterator_kp1);
       match_candidate_matching_scores.push_back(matching_score);
-- 
2.43.0


From a918308ca6c30b31268d5733b3799d8e141fbc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 43/70] fix: return no predictions for a frame without
 keypoints

---
 aslam_cv_matcher/src/match-helpers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_matcher/src/match-helpers.cc b/aslam_cv_matcher/src/match-helpers.cc
index bbd6066..8cfa0ef 100644
--- a/aslam_cv_matcher/src/match-helpers.cc
+++ b/aslam_cv_matcher/src/match-helpers.cc
@@ -54,6 +54,7 @@ void predictKeypointsByRotation(const VisualFrame& frame_k,
       frame_k.getKeypointMeasurementsOfType(descriptor_type);
 
   if (keypoints_k.cols() == 0u) {
+    predicted_keypoints_kp1->resize(Eigen::NoChange, 0);
     return;
   }
 
-- 
2.43.0


From 9496b5e30b22718ae7408c34d8e8eb15b8ecb3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 44/70] fix: clear a camera mask that does not fit the image
 any more

---
 aslam_cv_cameras/include/aslam/cameras/camera.h | 11 +++++++++--
 aslam_cv_cameras/src/camera.cc                  | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera.h b/aslam_cv_cameras/include/aslam/cameras/camera.h
index 2bd9d89..8ba3e4e 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera.h
@@ -220,14 +220,18 @@ class Camera : public Sensor {
     return image_height_;
   }
 
-  /// \brief Set the width of the image in pixels.
+  /// \brief Set the width of the image in pixels. A mask of another width is
+  /// cleared.
   void setImageWidth(uint32_t image_width) {
     image_width_ = image_width;
+    clearMaskOfOtherSize();
   }
 
-  /// \brief Set the height of the image in pixels.
+  /// \brief Set the height of the image in pixels. A mask of another height is
+  /// cleared.
   void setImageHeight(uint32_t image_height) {
     image_height_ = image_height;
+    clearMaskOfOtherSize();
   }
 
   /// \brief Print the internal parameters of the camera in a human-readable
@@ -658,6 +662,9 @@ class Camera : public Sensor {
   void setRandomImpl() = 0;
   bool isEqualImpl(const Sensor& other, const bool verbose) const = 0;
 
+  /// Clear the mask if it does not have the size of the image.
+  void clearMaskOfOtherSize();
+
   bool loadFromYamlNodeImpl(const YAML::Node&) override;
   void saveToYamlNodeImpl(YAML::Node*) const override;
 
diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 2c09de5..eb17db5 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -191,11 +191,14 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   }
 
   // Get the image width and height
-  if (!YAML::safeGet(yaml_node, "image_width", &image_width_) ||
-      !YAML::safeGet(yaml_node, "image_height", &image_height_)) {
+  uint32_t image_width, image_height;
+  if (!YAML::safeGet(yaml_node, "image_width", &image_width) ||
+      !YAML::safeGet(yaml_node, "image_height", &image_height)) {
     LOG(ERROR) << "Unable to get the image size.";
     return false;
   }
+  setImageWidth(image_width);
+  setImageHeight(image_height);
 
   // Get the camera type
   std::string camera_type;
@@ -445,6 +448,13 @@ void Camera::clearMask() {
   mask_ = cv::Mat();
 }
 
+void Camera::clearMaskOfOtherSize() {
+  if (static_cast<int64_t>(mask_.rows) != image_height_ ||
+      static_cast<int64_t>(mask_.cols) != image_width_) {
+    clearMask();
+  }
+}
+
 bool Camera::hasMask() const {
   return !mask_.empty();
 }
-- 
2.43.0


From ba82813d55a5d21929087247538de0c903560da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 45/70] fix: treat a keypoint that is not a number as masked

---
 aslam_cv_cameras/include/aslam/cameras/camera.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera.h b/aslam_cv_cameras/include/aslam/cameras/camera.h
index 8ba3e4e..8e3ec04 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera.h
@@ -627,10 +627,7 @@ class Camera : public Sensor {
   /// Check if the keypoint is masked.
   inline bool isMasked(
       const Eigen::Ref<const Eigen::Vector2d>& keypoint) const {
-    return keypoint[0] < 0.0 ||
-           keypoint[0] >= static_cast<double>(image_width_) ||
-           keypoint[1] < 0.0 ||
-           keypoint[1] >= static_cast<double>(image_height_) ||
+    return !isKeypointVisible(keypoint) ||
            (!mask_.empty() && mask_.at<uint8_t>(
                                   static_cast<int>(keypoint[1]),
                                   static_cast<int>(keypoint[0])) == 0);
-- 
2.43.0


From 12cbd48fbf556a8318f1f9a9118d84b47c48d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 46/70] fix: keep the intrinsics of a camera when the loaded
 ones are invalid

---
 aslam_cv_cameras/src/camera.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index eb17db5..bd96a96 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -228,16 +228,18 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   }
 
   // Get the camera intrinsics
-  if (!YAML::safeGet(yaml_node, "intrinsics", &intrinsics_)) {
+  Eigen::VectorXd intrinsics;
+  if (!YAML::safeGet(yaml_node, "intrinsics", &intrinsics)) {
     LOG(ERROR) << "Unable to get image width.";
     return false;
   }
 
-  if (!intrinsicsValid(intrinsics_)) {
+  if (!intrinsicsValid(intrinsics)) {
     LOG(ERROR) << "Invalid intrinsics parameters for the " << camera_type
-               << " camera model" << intrinsics_.transpose() << std::endl;
+               << " camera model" << intrinsics.transpose() << std::endl;
     return false;
   }
+  intrinsics_ = intrinsics;
 
   // Get the optional linedelay in nanoseconds or set the default
   if (!YAML::safeGet(
-- 
2.43.0


From 04bd23e28d83e308f7ef135794e602dadc96a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 47/70] fix: project with the given intrinsics in the lidar
 camera

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..0b86259 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -23,19 +23,28 @@ const ProjectionResult Camera3DLidar::project3Functional(
     return ProjectionResult(ProjectionResult::Status::PROJECTION_INVALID);
   }
 
+  const ScalarType& horizontal_resolution =
+      intrinsics_external[Parameters::kHorizontalResolutionRad];
+  const ScalarType& vertical_resolution =
+      intrinsics_external[Parameters::kVerticalResolutionRad];
+  const ScalarType& vertical_center =
+      intrinsics_external[Parameters::kVerticalCenterRad];
+  const ScalarType& horizontal_center =
+      intrinsics_external[Parameters::kHorizontalCenterRad];
+
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
   (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+                        horizontal_center) /
+                       horizontal_resolution;
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) + vertical_center) /
+       vertical_resolution);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From 466c5d4d05e0f4588e5ec5f1b38e83da64cc9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 48/70] fix: count the columns in the longest rolling shutter
 delay of the lidar camera

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
index cdc1ea9..bc3df02 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
@@ -260,10 +260,10 @@ class Camera3DLidar : public aslam::Cloneable<Camera, Camera3DLidar> {
     return static_cast<int64_t>(keypoint(0)) * line_delay_nanoseconds_;
   }
 
-  /// \brief The amount of time elapsed between the first row of the image and
-  /// the last row of the image. For a global shutter camera, this can return
-  /// 0.
-  int64_t rollingShutterDelayNanoSeconds() const {
+  /// \brief The amount of time elapsed between the first column of the image
+  /// and the last column of the image. For a global shutter camera, this can
+  /// return 0.
+  int64_t maxRollingShutterDelayNanoSeconds() const override {
     return this->imageWidth() * line_delay_nanoseconds_;
   }
 
-- 
2.43.0


From 5c6b6affe259c45cce0f8734bc12bdc2404f758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 49/70] fix: give a default constructed lidar camera all its
 intrinsics

---
 aslam_cv_cameras/src/camera-3d-lidar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera-3d-lidar.cc b/aslam_cv_cameras/src/camera-3d-lidar.cc
index 97e8c95..9dc49aa 100644
--- a/aslam_cv_cameras/src/camera-3d-lidar.cc
+++ b/aslam_cv_cameras/src/camera-3d-lidar.cc
@@ -15,7 +15,7 @@ std::ostream& operator<<(std::ostream& out, const Camera3DLidar& camera) {
 }
 
 Camera3DLidar::Camera3DLidar()
-    : Base(Eigen::Vector3d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
+    : Base(Eigen::Vector4d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
 
 Camera3DLidar::Camera3DLidar(
     const Eigen::VectorXd& intrinsics, const uint32_t image_width,
-- 
2.43.0


From b19af4824dd5838b305565259176f5c3d03d2a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 50/70] fix: equidistant distortion is the identity at the
 image center

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From ec350c0bd594afe0fa4f8c606cdeee73a19e1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 51/70] fix: parameter jacobian of the fisheye distortion near
 the image center

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..38e71f4 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -100,7 +100,7 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
+    *out_jacobian << u, v;
     *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
   }
   else {
-- 
2.43.0


From c14fabd014386689a14e8678dc89ca0e988c5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 52/70] fix: use the internal coefficients in
 distortParameterJacobian() if none are given

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 9434841..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 38e71f4..9c25dfb 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 27c274607ecd515b2767f8c2d6a8c6f73a2af1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 53/70] fix: sign of the jacobian of a homogeneous point with
 negative scale

---
 aslam_cv_cameras/src/camera.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index bd96a96..ce36ac1 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -379,7 +379,10 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  if (point_4d[3] < 0)
+    out_jacobian->topLeftCorner<2, 3>() = -Je;
+  else
+    out_jacobian->topLeftCorner<2, 3>() = Je;
 
   return ret;
 }
-- 
2.43.0


From 0eb5c74b2fd6acb76d51bc967e701c3dc22dbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 54/70] fix: do not mirror directions behind the image plane
 when building undistortion maps

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index fc9cb32..f075396 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -192,7 +192,6 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       Eigen::Vector2d keypoint_dist;
       Eigen::Vector3d point_3d;
       output_camera.backProject3(keypoint, &point_3d);
-      point_3d /= point_3d[2];
       input_camera.project3(point_3d, &keypoint_dist);
 
       const double& u = keypoint_dist[0];
-- 
2.43.0


From 108768ab85c3fb05a2e46b46b650bd6481150caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 55/70] fix: keep far away points outside of the image in
 fixed-point undistortion maps

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index f075396..f674e6f 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -201,8 +201,8 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       if (map_type == CV_16SC2) {
         int iu = cv::saturate_cast<int>(u * cv::INTER_TAB_SIZE);
         int iv = cv::saturate_cast<int>(v * cv::INTER_TAB_SIZE);
-        m1[j * 2] = (short) (iu >> cv::INTER_BITS);
-        m1[j * 2 + 1] = (short) (iv >> cv::INTER_BITS);
+        m1[j * 2] = cv::saturate_cast<short>(iu >> cv::INTER_BITS);
+        m1[j * 2 + 1] = cv::saturate_cast<short>(iv >> cv::INTER_BITS);
         m2[j] = (ushort) ((iv & (cv::INTER_TAB_SIZE - 1)) * cv::INTER_TAB_SIZE
             + (iu & (cv::INTER_TAB_SIZE - 1)));
       } else if (map_type == CV_32FC1) {
-- 
2.43.0


From 25838b147da60442fc4f5b1de07f13ce4019e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 56/70] fix: compute Hamming distances of descriptors that are
 not aligned to 16 bytes

---
 aslam_cv_common/include/aslam/common/hamming-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..912e159 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -110,7 +110,9 @@ const int numberOf128BitWords) {
   xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
   do {
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
+    // The descriptors may be stored at any address.
+    xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                         _mm_loadu_si128(signature2++));
     xmm1 = xmm0;
     xmm1 = _mm_srl_epi16(xmm1, shiftval);
     xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-- 
2.43.0


From 3ac310f62bde117e889081ccb7a83a45657b7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 57/70] fix: count all different bits of descriptors of more
 than 31 words and of none

---
 .../include/aslam/common/hamming-inl.h        | 45 +++++++++++--------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 912e159..8b1dd02 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -107,26 +107,33 @@ const int numberOf128BitWords) {
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
-  do {
-    // The descriptors may be stored at any address.
-    xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
-                         _mm_loadu_si128(signature2++));
-    xmm1 = xmm0;
-    xmm1 = _mm_srl_epi16(xmm1, shiftval);
-    xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-    xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
-    xmm2 = xmm7;
-    xmm3 = xmm7;  // Get popcount.
-    xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
-    xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
-    xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
-    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
-  }while (signature1 < end);
-  // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
-  xmm5 = _mm_add_epi32(xmm5, xmm4);
+  // Every word adds at most 8 to the 8-bit counters of the local accumulator.
+  const int kMaxWordsPerBlock = 31;
+  while (signature1 < end) {
+    const __m128i* block_end =
+        end - signature1 > kMaxWordsPerBlock ? signature1 + kMaxWordsPerBlock
+                                             : end;
+    xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
+    do {
+      // The descriptors may be stored at any address.
+      xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                           _mm_loadu_si128(signature2++));
+      xmm1 = xmm0;
+      xmm1 = _mm_srl_epi16(xmm1, shiftval);
+      xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
+      xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
+      xmm2 = xmm7;
+      xmm3 = xmm7;  // Get popcount.
+      xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
+      xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
+      xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
+      xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
+    } while (signature1 < block_end);
+    // Update global accumulator(two 32-bits counters).
+    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());
+    xmm5 = _mm_add_epi32(xmm5, xmm4);
+  }
   // finally add together 32-bits counters stored in global accumulator.
   // __asm__ volatile(
   //  "movhlps  %%xmm5, %%xmm0 \n"
-- 
2.43.0


From f9c542c9a06ce183f603c8968733f6bdd81acdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 58/70] fix: count the different bits of the last bytes of a
 descriptor

---
 .../include/aslam/common/hamming.h            | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..3e87864 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -100,14 +100,21 @@ class  Hamming {
                              const unsigned char* b,
                              const int size) {
 #ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
-                             reinterpret_cast<const uint8x16_t*>(b),
-                             size / 16);
+    ResultType result =
+        NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
+                          reinterpret_cast<const uint8x16_t*>(b),
+                          size / 16);
 #else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
+    ResultType result =
+        SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
+                           reinterpret_cast<const __m128i*>(b),
+                           size / 16);
 #endif  // __ARM_NEON
+    // The bytes after the last whole 128 bit word.
+    for (int i = size / 16 * 16; i < size; ++i) {
+      result += __builtin_popcount(a[i] ^ b[i]);
+    }
+    return result;
   }
 
   // This will count the bits in a ^ b.
-- 
2.43.0


From 13c43bc28b021dbbafda6244b111f5656b74b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 59/70] fix: a released descriptor has no bytes

---
 .../include/aslam/common/feature-descriptor-ref-inl.h            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..305048e 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -81,6 +81,7 @@ inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::Release() {
   if (owned_) {
     delete[] data_;
     data_ = nullptr;
+    size_bytes_ = 0;
     owned_ = false;
   }
 }
-- 
2.43.0


From d167c07f0c3f63e6d15659a4819ac469b5b4c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 60/70] fix: keep the old descriptor if the memory of the new
 one cannot be allocated

---
 .../include/aslam/common/feature-descriptor-ref-inl.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 305048e..87735d8 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -91,10 +91,10 @@ inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::Allocate(
   if (size_bytes == size_bytes_ && owned_) {
     return;
   }
+  unsigned char* data = new unsigned char[size_bytes];
   Release();
-  owned_ = false;
   size_bytes_ = size_bytes;
-  data_ = new unsigned char[size_bytes];
+  data_ = data;
   owned_ = true;
 }
 
-- 
2.43.0


From 5a65b49499c91df3c725231dd0899ea9b1c68346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 61/70] fix: assign a descriptor from a part of its own memory

---
 .../aslam/common/feature-descriptor-ref-inl.h    | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 87735d8..a5b8fd8 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -108,9 +108,19 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
   // the other instance owns or not. If the other instance owns, we will
   // own data too and copy from it.
   if (owned_ || lhs.owned_) {
-    Allocate(lhs.size_bytes_);
-    CHECK_EQ(lhs.size_bytes_, size_bytes_);
-    memcpy(data_, lhs.data_, size_bytes_);
+    if (owned_ && size_bytes_ == lhs.size_bytes_) {
+      // The other instance may refer to the data of this instance.
+      memmove(data_, lhs.data_, size_bytes_);
+    } else {
+      FeatureDescriptorRefBase<unsigned char, WriteAccessors> copy(
+          lhs.size_bytes_);
+      memcpy(copy.data_, lhs.data_, lhs.size_bytes_);
+      Release();
+      size_bytes_ = copy.size_bytes_;
+      data_ = copy.data_;
+      owned_ = true;
+      copy.owned_ = false;
+    }
   } else {
     owned_ = lhs.owned_;
     size_bytes_ = lhs.size_bytes_;
-- 
2.43.0


From cbc8ab1fb6731e370e30645faa94ce38758ab8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 62/70] fix: initialize the owner flag of a copied descriptor

---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index a5b8fd8..e54f58d 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -132,7 +132,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From 97d35c5ded0b49b80d507b47f0be8ced27b85203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 63/70] fix: Look up any corner of the target in a partial
 observation

getObservedCornerById compared the corner id with the number of observed
corners instead of the number of corners of the target, so asking for a corner
of a target that was only seen in part ended the program.
---
 .../include/aslam/calibration/target-observation.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..fe604b6 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,7 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_LT(corner_id, static_cast<int>(target_->size()));
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From 460b643415874e2e2707e3c2887e09cc9993c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 64/70] fix: Estimate the focal length from complete
 observations only

initFocalLengthAbsoluteConic skipped incomplete observations, but solved with
their uninitialised rows, and reported success even if no observation was
complete.
---
 .../src/focallength-initializers.cc           | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index 976fb41..cf918c8 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -122,6 +122,7 @@ bool initFocalLengthAbsoluteConic(
  const size_t num_obs = observations.size();
  cv::Mat A(num_obs * 2, 2, CV_64F);
  cv::Mat b(num_obs * 2, 1, CV_64F);
+ int num_equations = 0;
 
  for (size_t obs_idx = 0u; obs_idx < num_obs; ++obs_idx) {
    TargetObservation::ConstPtr obs = observations[obs_idx];
@@ -179,16 +180,23 @@ bool initFocalLengthAbsoluteConic(
      d1[j] *= n[2]; d2[j] *= n[3];
    }
 
-   A.at<double>(obs_idx * 2, 0) = h[0] * v[0];
-   A.at<double>(obs_idx * 2, 1) = h[1] * v[1];
-   A.at<double>(obs_idx * 2 + 1, 0) = d1[0] * d2[0];
-   A.at<double>(obs_idx * 2 + 1, 1) = d1[1] * d2[1];
-   b.at<double>(obs_idx * 2, 0) = -h[2] * v[2];
-   b.at<double>(obs_idx * 2 + 1, 0) = -d1[2] * d2[2];
+   A.at<double>(num_equations, 0) = h[0] * v[0];
+   A.at<double>(num_equations, 1) = h[1] * v[1];
+   A.at<double>(num_equations + 1, 0) = d1[0] * d2[0];
+   A.at<double>(num_equations + 1, 1) = d1[1] * d2[1];
+   b.at<double>(num_equations, 0) = -h[2] * v[2];
+   b.at<double>(num_equations + 1, 0) = -d1[2] * d2[2];
+   num_equations += 2;
+ }
+
+ // Skipped observations contribute no equations.
+ if (num_equations == 0) {
+   return false;
  }
 
  cv::Mat f(2, 1, CV_64F);
- cv::solve(A, b, f, cv::DECOMP_NORMAL | cv::DECOMP_LU);
+ cv::solve(A.rowRange(0, num_equations), b.rowRange(0, num_equations), f,
+           cv::DECOMP_NORMAL | cv::DECOMP_LU);
 
  // Sets the first intrinsics estimate.
  intrinsics->resize(aslam::PinholeCamera::parameterCount());
-- 
2.43.0


From f14d3789e6c9a1fff76a5e15c25765ce59efce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 65/70] fix: Refuse a target configuration that lacks a value

fromYaml ignored whether a key was found and had the right type: the size of the
default target was used instead, and a missing tagSpacing left the space between
the tags uninitialised.
---
 aslam_cv_calibration/src/target-aprilgrid.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_calibration/src/target-aprilgrid.cc b/aslam_cv_calibration/src/target-aprilgrid.cc
index 18a1922..5731aab 100644
--- a/aslam_cv_calibration/src/target-aprilgrid.cc
+++ b/aslam_cv_calibration/src/target-aprilgrid.cc
@@ -23,16 +23,16 @@ TargetAprilGrid::TargetConfiguration::fromYaml(const std::string& yaml_file) {
   try {
     const YAML::Node yaml_node = YAML::LoadFile(yaml_file.c_str());
     std::string target_type;
-    YAML::safeGet(yaml_node, "target_type", &target_type);
+    CHECK(YAML::safeGet(yaml_node, "target_type", &target_type));
     CHECK_EQ(target_type, "aprilgrid") << "Wrong target type.";
-    YAML::safeGet(yaml_node, "tagCols", &target_config.num_tag_cols);
+    CHECK(YAML::safeGet(yaml_node, "tagCols", &target_config.num_tag_cols));
     CHECK_GT(target_config.num_tag_cols, 0u);
-    YAML::safeGet(yaml_node, "tagRows", &target_config.num_tag_rows);
+    CHECK(YAML::safeGet(yaml_node, "tagRows", &target_config.num_tag_rows));
     CHECK_GT(target_config.num_tag_rows, 0u);
-    YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter);
+    CHECK(YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter));
     CHECK_GT(target_config.tag_size_meter, 0.0);
     double relative_tag_spacing;
-    YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing);
+    CHECK(YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing));
     target_config.tag_inbetween_space_meter =
         relative_tag_spacing * target_config.tag_size_meter;
     CHECK_GT(target_config.tag_inbetween_space_meter, 0.0);
-- 
2.43.0


From 00215735acb9330d2ac3751d9272cf322c73c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 66/70] fix: Use the position of the first camera in iterative
 triangulation

The position of the global frame in the first camera was used as the position of
the first camera in the global frame, so the result was only right if the first
camera was at the origin.
---
 aslam_cv_triangulation/src/triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 65d117b..2608262 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -182,7 +182,7 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   // Rotation and position of n-th camera in i-th camera frame.
   const aslam::Transformation T_Cn_G = T_B_C.inverse() * T_G_B[n].inverse();
   const Eigen::Matrix3d& R_Cn_G = T_Cn_G.getRotationMatrix();
-  const Eigen::Vector3d& p_G_Cn = T_Cn_G.getPosition();
+  const Eigen::Vector3d p_G_Cn = T_Cn_G.inverse().getPosition();
 
   // Cache matrices that are constant for every iteration.
   Aligned<std::vector, Eigen::Matrix3d> R_Ci_Cn;
-- 
2.43.0


From 46d138fe569fc72c989cbb781fca40cb1c378360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 67/70] fix: Use all observations in
 fastTriangulateFeatureTrack

The index of the observation was never incremented: all observations were
written to the first column, and the rest was left uninitialised.
---
 aslam_cv_triangulation/src/triangulation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 2608262..fcd6fde 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -346,6 +346,7 @@ TriangulationResult fastTriangulateFeatureTrack(
 
     G_bearing_vectors.col(index) = T_W_C.getRotationMatrix() * C_ray;
     p_G_C_vector.col(index) = T_W_C.getPosition();
+    ++index;
   }
 
   VLOG(200) << "Assembled triangulation data.";
-- 
2.43.0


From b75686ea4e983117ee97b8a7e6b78f5c14d47d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 68/70] fix: Keep the detector and extractor of the FREAK
 pipeline alive

---
 aslam_cv_pipeline/src/visual-pipeline-freak.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-pipeline-freak.cc b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
index 6b35c32..1879a4c 100644
--- a/aslam_cv_pipeline/src/visual-pipeline-freak.cc
+++ b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
@@ -54,10 +54,14 @@ void FreakVisualPipeline::initializeFreak(size_t num_octaves,
   scale_invariant_ = scale_invariant;
   pattern_scale_ = pattern_scale;
 
-  detector_.reset(cv::xfeatures2d::SurfFeatureDetector::create(
-      hessian_threshold_, octaves_, num_octave_layers_).get());
-  extractor_.reset(cv::xfeatures2d::FREAK::create(
-      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_).get());
+  // The objects belong to the OpenCV pointers, so these are kept alive.
+  const cv::Ptr<cv::Feature2D> detector =
+      cv::xfeatures2d::SurfFeatureDetector::create(
+          hessian_threshold_, octaves_, num_octave_layers_);
+  const cv::Ptr<cv::Feature2D> extractor = cv::xfeatures2d::FREAK::create(
+      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_);
+  detector_.reset(detector.get(), [detector](cv::Feature2D*) {});
+  extractor_.reset(extractor.get(), [extractor](cv::Feature2D*) {});
 }
 
 void FreakVisualPipeline::processFrameImpl(const cv::Mat& image, VisualFrame* frame) const {
-- 
2.43.0


From a437deaeb358520cb4a45a64ce5f8b70f562fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 69/70] fix: Refuse different numbers of bearing vectors in
 outlier rejection

The number of bearing vectors of the first camera was compared with itself, so
that missing vectors of the second one were read beyond the end of the list.
---
 aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
index 2f97b59..5bff321 100644
--- a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
+++ b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
@@ -57,7 +57,7 @@ bool rejectOutlierFeatureMatchesTranslationRotationSAC(
   CHECK_GT(ransac_threshold, 0.0);
   CHECK_GT(ransac_max_iterations, 0u);
   CHECK_NOTNULL(inlier_indices)->clear();
-  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_kp1.size());
+  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_k.size());
 
   // Handle the case with too few matches to distinguish between out-/inliers.
   static constexpr size_t kMinKeypointCorrespondences = 6u;
-- 
2.43.0


From 67ce47a42b24a7aaa580aecf6f21fc33306da0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:43 +0000
Subject: [PATCH 70/70] fix: Write negative timestamps below one second
 correctly

The sign was counted as a digit, so -123456789 ns were written as "-s 123456789ns".
---
 aslam_cv_common/include/aslam/common/time.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..9ab9131 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -74,14 +74,17 @@ inline bool isValidTime(int64_t time) {
 
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
-  const size_t num_digits = timestamp_string.size();
+  const size_t num_characters = timestamp_string.size();
+  // The sign of a negative timestamp is not a digit.
+  const size_t num_digits =
+      num_characters - (timestamp_nanoseconds < 0 ? 1u : 0u);
   if (num_digits < 10u) {
     return timestamp_string + "ns";
   }
 
   const std::string timestamp_with_units =
-      timestamp_string.substr(0u, num_digits - 9u) + "s " +
-      timestamp_string.substr(num_digits - 9u) + "ns";
+      timestamp_string.substr(0u, num_characters - 9u) + "s " +
+      timestamp_string.substr(num_characters - 9u) + "ns";
   return timestamp_with_units;
 }
 
-- 
2.43.0

