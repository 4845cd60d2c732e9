From 23a7d37b427607edf88e0eee1196208a0f8f6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 01/97] fix: eraseIndicesFromContainer reads back() of an empty
 index list

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From ec79de2f3bbf19dff51dcef4b34d89f853f586cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/97] fix: a task enqueued while the thread pool is stopped
 could be accepted but never run

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..88268f6 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -131,18 +131,20 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool. This must be checked with
+    // the mutex held, otherwise all workers could exit before the task is
+    // inserted.
+    if(stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<typename std::result_of<Function(Args...)>::type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From 4cbc90fb1aafa6a9726c8b91c05491e969d9c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 03/97] fix: ThreadPool::enqueue could wake a waitForEmptyQueue
 caller instead of a worker

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 88268f6..0e536b2 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -155,7 +155,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // The waiters of waitForEmptyQueue() share this condition variable, therefore
+  // notifying a single thread could miss the workers.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 6f00f7e6aa5cd36ebf8aba30ad44f2edc15f2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 04/97] fix: HashId::fromHexString accepts or throws on text
 that is not hexadecimal

---
 aslam_cv_common/include/aslam/common/hash-id.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/hash-id.h b/aslam_cv_common/include/aslam/common/hash-id.h
index 508548d..bd08be7 100644
--- a/aslam_cv_common/include/aslam/common/hash-id.h
+++ b/aslam_cv_common/include/aslam/common/hash-id.h
@@ -1,6 +1,7 @@
 #ifndef ASLAM_HASH_ID_H_
 #define ASLAM_HASH_ID_H_
 
+#include <cctype>
 #include <chrono>
 #include <cstring>
 #include <functional>
@@ -84,6 +85,11 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    for (const char character : hexString) {
+      if (!std::isxdigit(static_cast<unsigned char>(character))) {
+        return false;
+      }
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From daad1ac85624fe0f91b2336e610b5e8e9e785f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 05/97] fix: timeNanosecondsToString separates the sign of
 negative times from their digits

---
 aslam_cv_common/include/aslam/common/time.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..778af9a 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -75,7 +75,9 @@ inline bool isValidTime(int64_t time) {
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
   const size_t num_digits = timestamp_string.size();
-  if (num_digits < 10u) {
+  // The sign does not count as a digit of the timestamp.
+  const size_t sign_length = timestamp_nanoseconds < 0 ? 1u : 0u;
+  if (num_digits - sign_length < 10u) {
     return timestamp_string + "ns";
   }
 
-- 
2.43.0


From 80764ee432a34971b3a6291b5fa7b713ba435cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 06/97] fix: scalar channels lose their value in the text form

---
 .../aslam/common/channel-serialization.h      | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..d8bb472 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -2,7 +2,10 @@
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -303,10 +306,26 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
 bool serializeToBuffer(const cv::Mat& matrix,
                        char** buffer, size_t* size);
 
+template<typename Scalar>
+std::string scalarToString(const Scalar& value, std::false_type /*is_floating_point*/) {
+  return std::to_string(value);
+}
+
+// std::to_string writes only six decimals, which does not identify the value.
+template<typename Scalar>
+std::string scalarToString(const Scalar& value, std::true_type /*is_floating_point*/) {
+  std::ostringstream stream;
+  stream.imbue(std::locale::classic());
+  stream.precision(std::numeric_limits<Scalar>::max_digits10);
+  stream << value;
+  return stream.str();
+}
+
 template<typename Scalar>
 bool serializeToString(const Scalar& value, std::string* string) {
   CHECK_NOTNULL(string);
-  std::string value_string = std::to_string(value);
+  std::string value_string =
+      scalarToString(value, typename std::is_floating_point<Scalar>::type());
   string->swap(value_string);
   return true;
 }
@@ -317,7 +336,11 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  if (std::is_unsigned<Scalar>::value) {
+    (*value) = static_cast<Scalar>(std::stoull(string));
+  } else {
+    (*value) = static_cast<Scalar>(std::stoll(string));
+  }
   return true;
 }
 
@@ -328,7 +351,14 @@ bool deSerializeFromString(const std::string& string,
                              = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stod(string));
+  // Not std::stod, which throws on denormalized numbers.
+  char* end = nullptr;
+  const double parsed_value = std::strtod(string.c_str(), &end);
+  if (end == string.c_str()) {
+    LOG(ERROR) << "Failed to deserialize a number from string: " << string;
+    return false;
+  }
+  (*value) = static_cast<Scalar>(parsed_value);
   return true;
 }
 
-- 
2.43.0


From 02f71c375da7d996300ab5e49ace9796caddc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 07/97] fix: deserialization of malformed channel data reads
 and writes out of bounds

---
 .../aslam/common/channel-serialization.h      | 27 ++++++++++++++++---
 aslam_cv_common/src/channel-serialization.cc  | 25 ++++++++++++++++-
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index d8bb472..70448a6 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -25,6 +25,9 @@ struct HeaderInformation {
   size_t size() const;
   bool serializeToBuffer(char* buffer, size_t offset) const;
   bool deSerializeFromBuffer(const char* const bufferIn, size_t offset);
+  /// Computes the number of bytes that have to follow the header. Returns false if these are more
+  /// than the available bytes.
+  bool getDataSize(size_t element_size, size_t available_size, size_t* data_size) const;
 };
 
 template<typename Scalar>
@@ -220,6 +223,13 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
   CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
 
+  size_t matrix_size;
+  if (!header.getDataSize(sizeof(Scalar), size - header.size(), &matrix_size)) {
+    LOG(ERROR) << "The buffer is too short for a matrix of size " << header.rows << " x "
+        << header.cols;
+    return false;
+  }
+
   if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
     matrix->resize(header.rows, header.cols);
   } else if (ROWS == Eigen::Dynamic && COLS != Eigen::Dynamic) {
@@ -228,7 +238,6 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     matrix->resize(Eigen::NoChange, header.cols);
   }
 
-  size_t matrix_size = sizeof(Scalar) * matrix->rows() * matrix->cols();
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
   memcpy(matrix->data(), buffer + header.size(), matrix_size);
@@ -247,13 +256,19 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
                            std::vector<Eigen::Matrix<Scalar, ROWS, COLS>>* matrices) {
   CHECK_NOTNULL(matrices);
 
+  HeaderInformation header;
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
+  if (repeat > (size - offset) / header.size()) {
+    LOG(ERROR) << "The buffer is too short for " << repeat << " matrices.";
+    return false;
+  }
 
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -271,6 +286,13 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
     CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
 
+    size_t matrix_size;
+    if (!header.getDataSize(sizeof(Scalar), size - offset, &matrix_size)) {
+      LOG(ERROR) << "The buffer is too short for a matrix of size " << header.rows << " x "
+          << header.cols;
+      return false;
+    }
+
     if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
       (*matrices)[i].resize(header.rows, header.cols);
     } else if (ROWS == Eigen::Dynamic && COLS != Eigen::Dynamic) {
@@ -279,7 +301,6 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
       (*matrices)[i].resize(Eigen::NoChange, header.cols);
     }
 
-    size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..ba8989e 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -36,6 +36,25 @@ bool HeaderInformation::deSerializeFromBuffer(const char* const buffer_in, size_
   return true;
 }
 
+bool HeaderInformation::getDataSize(size_t element_size, size_t available_size,
+                                    size_t* data_size) const {
+  CHECK_NOTNULL(data_size);
+  *data_size = 0u;
+  if (rows == 0u || cols == 0u || channels == 0u) {
+    return true;
+  }
+  // Compare before multiplying: the product of the header fields can overflow.
+  size_t bytes = element_size;
+  for (const size_t factor : {rows, cols, channels}) {
+    if (bytes > available_size / factor) {
+      return false;
+    }
+    bytes *= factor;
+  }
+  *data_size = bytes;
+  return true;
+}
+
 bool serializeToString(const cv::Mat& image,
                        std::string* string) {
   CHECK(image.isContinuous()) << "This method only works if the image is stored "
@@ -101,7 +120,11 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
-  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  size_t matrix_size;
+  CHECK(header.getDataSize(sizeof(SCALAR), size - header.size(), &matrix_size))
+      << "The buffer is too short for an image of size " << header.cols << " x " << header.rows;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
   int type = CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels);
-- 
2.43.0


From e4e91ac5497e7ec561ab386d99984b3c6c426209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 08/97] fix: comparing channel groups aborts if a channel has
 different types

---
 aslam_cv_common/include/aslam/common/channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..f14243f 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -82,7 +82,8 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
   }
   void operator=(const Channel<TYPE>&) = delete;
   virtual bool compare(const ChannelBase& other) {
-    return *this == *CHECK_NOTNULL(dynamic_cast<const Channel<TYPE>*>(&other));
+    const Channel<TYPE>* const other_channel = dynamic_cast<const Channel<TYPE>*>(&other);
+    return other_channel != nullptr && *this == *other_channel;
   }
   bool serializeToString(std::string* string) const {
     return aslam::internal::serializeToString(value_, string);
-- 
2.43.0


From f0b71e67f4e17343eb345df9f86b458a73c7354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 09/97] fix: comparing channels of different size or
 multi-channel images aborts

---
 .../include/aslam/common/channel.h            | 28 ++++++++++++++++++-
 aslam_cv_common/src/channel.cc                | 13 ++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index f14243f..e8eada6 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,6 +18,7 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -48,6 +49,31 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+template<typename ValueType>
+bool areChannelValuesEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+// The comparison operator of Eigen requires matrices of the same size.
+template<typename Scalar, int kRows, int kCols, int kOptions, int kMaxRows, int kMaxCols>
+bool areChannelValuesEqual(
+    const Eigen::Matrix<Scalar, kRows, kCols, kOptions, kMaxRows, kMaxCols>& left,
+    const Eigen::Matrix<Scalar, kRows, kCols, kOptions, kMaxRows, kMaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ElementType, typename Allocator>
+bool areChannelValuesEqual(const std::vector<ElementType, Allocator>& left,
+                           const std::vector<ElementType, Allocator>& right) {
+  if (left.size() != right.size()) {
+    return false;
+  }
+  for (size_t i = 0u; i < left.size(); ++i) {
+    if (!areChannelValuesEqual(left[i], right[i])) {
+      return false;
+    }
+  }
+  return true;
+}
 }
 
 class ChannelBase {
@@ -101,7 +127,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::areChannelValuesEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..6c68502 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,18 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.type() != other.value_.type()) {
+    return false;
+  }
+  if (value_.empty() || other.value_.empty()) {
+    return value_.rows == other.value_.rows && value_.cols == other.value_.cols;
+  }
+  if (value_.size != other.value_.size) {
+    return false;
+  }
+  // Counting the different values requires a single channel.
+  const cv::Mat is_different = (value_ != other.value_);
+  return cv::countNonZero(is_different.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 6a39ea90e71110b86acb3939605f23037c29a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 10/97] fix: comparing channel groups in opposite orders
 deadlocks

---
 aslam_cv_common/src/channel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 6c68502..febb0ad 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -39,8 +39,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Lock both groups at once: another thread may compare them in the opposite order.
+  std::lock(left_channels.m_channels_, right_channels.m_channels_);
+  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_, std::adopt_lock);
+  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_, std::adopt_lock);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From a6a5c0a56301bde825ce67754347b161e7b2849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 11/97] fix: copying a channel group does not lock it

---
 aslam_cv_common/include/aslam/common/channel.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index e8eada6..ef93555 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -153,7 +153,12 @@ struct ChannelGroup {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
-    channels_ = other.channels_;
+    if (this != &other) {
+      std::lock(m_channels_, other.m_channels_);
+      std::lock_guard<std::mutex> lock(m_channels_, std::adopt_lock);
+      std::lock_guard<std::mutex> lock_other(other.m_channels_, std::adopt_lock);
+      channels_ = other.channels_;
+    }
     return *this;
   }
 
-- 
2.43.0


From 802650e0404a57f259882eae7f472a8ab15bb2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 12/97] fix: Hamming distance overflows for descriptors of 512
 bytes and more

---
 aslam_cv_common/include/aslam/common/hamming-inl.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..5357e44 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -107,7 +107,11 @@ const int numberOf128BitWords) {
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
+  const __m128i zero = xmm5;
+  xmm4 = zero;  // xmm4 -- local accumulator.
+  // A word adds at most 8 to each of the 8-bit counters of the local
+  // accumulator, which hence has to be emptied every 31 words.
+  int num_words_in_local_accumulator = 0;
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
   do {
     xmm0 = _mm_xor_si128(*signature1++, *signature2++);
@@ -121,9 +125,14 @@ const int numberOf128BitWords) {
     xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
     xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
     xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
+    if (++num_words_in_local_accumulator == 31) {
+      xmm5 = _mm_add_epi32(xmm5, _mm_sad_epu8(xmm4, zero));
+      xmm4 = zero;
+      num_words_in_local_accumulator = 0;
+    }
   }while (signature1 < end);
   // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
+  xmm4 = _mm_sad_epu8(xmm4, zero);
   xmm5 = _mm_add_epi32(xmm5, xmm4);
   // finally add together 32-bits counters stored in global accumulator.
   // __asm__ volatile(
-- 
2.43.0


From 9c86f9dddbe199724248f31377fa084a21eaf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 13/97] fix: Hamming distance crashes on descriptors that are
 not 16-byte aligned

---
 aslam_cv_common/include/aslam/common/hamming-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 5357e44..48f0654 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -114,7 +114,8 @@ const int numberOf128BitWords) {
   int num_words_in_local_accumulator = 0;
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
   do {
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
+    xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                         _mm_loadu_si128(signature2++));
     xmm1 = xmm0;
     xmm1 = _mm_srl_epi16(xmm1, shiftval);
     xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-- 
2.43.0


From 195c8cadd539edfb58c2e667feb9609d1349c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 14/97] fix: Hamming distance ignores the bytes beyond the last
 full 128 bit word

---
 .../include/aslam/common/hamming.h            | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..d4d9b98 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -99,15 +99,19 @@ class  Hamming {
   static ResultType evaluate(const unsigned char* a,
                              const unsigned char* b,
                              const int size) {
-#ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
-                             reinterpret_cast<const uint8x16_t*>(b),
-                             size / 16);
-#else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
-#endif  // __ARM_NEON
+    const int kNumWords = size / 16;
+    ResultType result = 0;
+    if (kNumWords > 0) {
+      result = PopcntofXORed(a, b, kNumWords);
+    }
+    // The bytes that do not fill a 128 bit word.
+    for (int i = kNumWords * 16; i < size; ++i) {
+      unsigned char difference = a[i] ^ b[i];
+      for (; difference != 0u; difference &= difference - 1u) {
+        ++result;
+      }
+    }
+    return result;
   }
 
   // This will count the bits in a ^ b.
-- 
2.43.0


From 499d4831a4ebba57628a001d9c39e3296ae1ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 15/97] fix: a released descriptor still reports the size of
 its freed data

---
 .../include/aslam/common/feature-descriptor-ref-inl.h            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..0a6c8d2 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -81,6 +81,7 @@ inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::Release() {
   if (owned_) {
     delete[] data_;
     data_ = nullptr;
+    size_bytes_ = 0u;
     owned_ = false;
   }
 }
-- 
2.43.0


From 9fdce7a6fc0b3f9f21642d15ec2da9b69256b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 16/97] fix: pairwiseEuclidianDistances computes in 8-bit
 arithmetic

---
 aslam_cv_common/include/aslam/common/descriptor-utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/descriptor-utils.h b/aslam_cv_common/include/aslam/common/descriptor-utils.h
index 9e592dd..258a604 100644
--- a/aslam_cv_common/include/aslam/common/descriptor-utils.h
+++ b/aslam_cv_common/include/aslam/common/descriptor-utils.h
@@ -204,7 +204,8 @@ inline void pairwiseEuclidianDistances(const DescriptorsType& descriptors,
   for (int i = 0; i < num_descriptors; ++i) {
     for (int j = i + 1; j < num_descriptors; ++j) {
       (*result)(result_index) =
-          (descriptors.col(j) - descriptors.col(i)).norm();
+          (descriptors.col(j).cast<double>() -
+           descriptors.col(i).cast<double>()).norm();
       ++result_index;
     }
   }
-- 
2.43.0


From 3b65cfed9e22bc6e333e910f4af97b4732e3d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 17/97] fix: assigning a view of a descriptor's own data to it
 reads freed memory

---
 .../include/aslam/common/feature-descriptor-ref-inl.h    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 0a6c8d2..16b64bd 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -108,9 +108,16 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
   // the other instance owns or not. If the other instance owns, we will
   // own data too and copy from it.
   if (owned_ || lhs.owned_) {
+    // The other instance may refer to (a part of) the data owned by this one,
+    // which therefore has to stay alive until it is copied.
+    FeatureDescriptorRefBase<unsigned char, WriteAccessors> previous;
+    if (owned_ && size_bytes_ != lhs.size_bytes_) {
+      previous.set_data(data_, true);
+      owned_ = false;
+    }
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-    memcpy(data_, lhs.data_, size_bytes_);
+    memmove(data_, lhs.data_, size_bytes_);
   } else {
     owned_ = lhs.owned_;
     size_bytes_ = lhs.size_bytes_;
-- 
2.43.0


From 4c9808fd3136577606c13a7cbca9f064969fe581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 18/97] fix: copying a descriptor reads an uninitialized
 ownership flag

---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 16b64bd..2327f46 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -129,7 +129,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From a07486d7bb739daf16eaba02c9b3f4f063f1d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 19/97] fix: accumulator window grows without bound once the
 sample counter overflows

---
 .../include/aslam/common/statistics/accumulator.h        | 9 +++++----
 .../include/aslam/common/statistics/statistics.h         | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index fbb8613..7656b29 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
 #include <limits>
 #include <vector>
 
@@ -50,7 +51,7 @@ class Accumulator {
     }
   }
 
-  int total_samples() const {
+  int64_t total_samples() const {
     return total_samples_;
   }
 
@@ -66,7 +67,7 @@ class Accumulator {
   // function for our infinite accumulator at this point.
   SumType RollingMean() const {
     if (WindowSize < kInfiniteWindowSize) {
-      return window_sum_ / std::min(sample_index_, WindowSize);
+      return window_sum_ / std::min<int64_t>(sample_index_, WindowSize);
     } else {
       return Mean();
     }
@@ -110,8 +111,8 @@ class Accumulator {
 
  private:
   std::vector<SampleType> samples_;
-  int sample_index_;
-  int total_samples_;
+  int64_t sample_index_;
+  int64_t total_samples_;
   SumType sum_;
   SumType window_sum_;
   SampleType min_;
diff --git a/aslam_cv_common/include/aslam/common/statistics/statistics.h b/aslam_cv_common/include/aslam/common/statistics/statistics.h
index a2bb80f..abcca25 100644
--- a/aslam_cv_common/include/aslam/common/statistics/statistics.h
+++ b/aslam_cv_common/include/aslam/common/statistics/statistics.h
@@ -67,7 +67,7 @@ struct StatisticsMapValue {
   inline double Sum() const {
     return values_.sum();
   }
-  int TotalSamples() const {
+  int64_t TotalSamples() const {
     return values_.total_samples();
   }
   double Mean() const {
-- 
2.43.0


From 60dcd6a23164687266d4c5f4d7fe05dc19aac3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 20/97] fix: thinning an occupancy grid with one point per cell
 aborts

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..bf59ef3 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From fe9e19b5133af4df09eb84821719ecbf4e181dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 21/97] fix: inserting points of the lowest representable
 weight with a minimum distance aborts

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index bf59ef3..f9dabc9 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -163,14 +163,13 @@ void WeightedOccupancyGrid<PointType>::addPointOrReplaceWeakestNearestPoints(
       const WeightType point_weight =
           cell[point_indices[violator_index]].weight;
 
-      if (point_weight > highest_weight) {
+      if (highest_weight_cell == nullptr || point_weight > highest_weight) {
         highest_weight = point_weight;
         highest_weight_cell = CHECK_NOTNULL(&cell);
         highest_weight_violator_idx = violator_index;
       }
     }
   }
-  CHECK_GT(highest_weight, std::numeric_limits<WeightType>::lowest());
   CHECK_NOTNULL(highest_weight_cell);
   CHECK_GE(highest_weight_violator_idx, 0);
   CHECK_LT(highest_weight_violator_idx, distance_violating_points[highest_weight_cell].size());
-- 
2.43.0


From 579ab2aa3ec84020c0ad780776c838fc0b2f595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 22/97] fix: the cells of a constant occupancy grid can not be
 accessed

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 +-
 aslam_cv_common/include/aslam/common/occupancy-grid.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index f9dabc9..94e9668 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -379,7 +379,7 @@ inline bool WeightedOccupancyGrid<PointType>::isValidGridCoordinates(
 template<typename PointType>
 inline typename WeightedOccupancyGrid<PointType>::GridCoordinates
 WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
-    CoordinatesType u_rows, CoordinatesType v_cols) {
+    CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid.h b/aslam_cv_common/include/aslam/common/occupancy-grid.h
index 97b4cc9..eecf800 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid.h
@@ -126,7 +126,7 @@ class WeightedOccupancyGrid {
   /// @}
 
  private:
-  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols);
+  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidInputCoordinate(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidGridCoordinates(const GridCoordinates& grid_coordinates) const;
 
-- 
2.43.0


From bcf85627ee26a7b1fbdbd5c19c992f751b1cc2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 23/97] fix: occupancy grid aborts for coordinates just inside
 the image border

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 94e9668..8930072 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -382,8 +382,11 @@ WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
     CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
-  const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
-  const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
+  // The division may round up to the number of cells at the image border.
+  const size_t grid_row = std::min(
+      static_cast<size_t>(std::floor(u_rows / cell_size_rows_)), num_grid_rows_ - 1u);
+  const size_t grid_col = std::min(
+      static_cast<size_t>(std::floor(v_cols / cell_size_cols_)), num_grid_cols_ - 1u);
 
   GridCoordinates grid_coordinates(grid_row, grid_col);
   return grid_coordinates;
-- 
2.43.0


From dbc877040fe07eb81eafbbc1b63b8199d3a6573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 24/97] fix: malformed YAML matrices abort or allocate without
 bound instead of being refused

---
 .../aslam/common/yaml-serialization-eigen.h   | 66 ++++++++++++++++---
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..c41ad71 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -39,29 +39,63 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     return node;
   }
 
-  template <class Scalar, int A, int B, int C, int D, int E>
-  static bool decodeEigenMatrixData(
-      const Node& node, const int rows, const int cols,
-      Eigen::Matrix<Scalar, A, B, C, D, E>& M) {
-    typedef typename Eigen::Matrix<Scalar, A, B, C, D, E>::Index IndexType;
+  // Checks that the data is a sequence that holds rows x cols values, either as
+  // a linear array or as a list of rows.
+  template <typename IndexType>
+  static bool isMatrixDataOfSize(
+      const Node& node, const IndexType rows, const IndexType cols) {
     if (!node.IsSequence()) {
       LOG(ERROR) << "The matrix data is not a sequence.";
       return false;
     }
+    const IndexType size = static_cast<IndexType>(node.size());
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The size of the matrix is negative.";
+      return false;
+    }
+    const bool is_linear_array =
+        rows == 0 || cols == 0
+            ? size == 0
+            : (rows <= size && size % rows == 0 && size / rows == cols);
+    if (!is_linear_array && size != rows) {
+      LOG(ERROR) << "Wrong dimension (number of rows) of Eigen-type "
+                    "matrix!";
+      return false;
+    }
+    const IndexType num_values_per_element = is_linear_array ? 1 : cols;
+    for (const Node& element : node) {
+      const IndexType num_values =
+          element.IsSequence() ? static_cast<IndexType>(element.size()) : 1;
+      if (num_values != num_values_per_element) {
+        LOG(ERROR) << "Wrong dimension of Eigen-type matrix! Expected "
+                   << num_values_per_element << " columns, but provided "
+                   << num_values;
+        return false;
+      }
+    }
+    return true;
+  }
 
-    if (rows == 0 && cols == 0) {
+  template <class Scalar, int A, int B, int C, int D, int E>
+  static bool decodeEigenMatrixData(
+      const Node& node,
+      const typename Eigen::Matrix<Scalar, A, B, C, D, E>::Index rows,
+      const typename Eigen::Matrix<Scalar, A, B, C, D, E>::Index cols,
+      Eigen::Matrix<Scalar, A, B, C, D, E>& M) {
+    typedef typename Eigen::Matrix<Scalar, A, B, C, D, E>::Index IndexType;
+    if (rows == 0 || cols == 0) {
       return true;
     }
     YAML::const_iterator it = node.begin();
     YAML::const_iterator it_end = node.end();
 
     // If the 2D matrix is stored as a linear array:
-    if (static_cast<int>(node.size()) == rows * cols) {
+    if (static_cast<IndexType>(node.size()) == rows * cols) {
       for (IndexType i = 0; i < rows; ++i) {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
@@ -69,7 +103,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
           ++it;
         }
       }
-    } else if (static_cast<int>(node.size()) == rows) {
+    } else if (static_cast<IndexType>(node.size()) == rows) {
       // If the 2D matrix is stored as a 2D, row-major matrix.
       for (IndexType i = 0; i < rows; ++i) {
         CHECK(it != it_end);
@@ -80,7 +114,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         if (it->IsSequence()) {
           YAML::const_iterator col_it = it->begin();
           YAML::const_iterator col_it_end = it->end();
-          CHECK(static_cast<int>(it->size()) == cols)
+          CHECK(static_cast<IndexType>(it->size()) == cols)
               << "Wrong dimension of Eigen-type matrix! Expected " << cols
               << " columns, but provided " << it->size();
 
@@ -123,6 +157,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (!isMatrixDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     return decodeEigenMatrixData(node["data"], rows, cols, M);
   }
 
@@ -147,6 +184,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (!isMatrixDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(rows, Eigen::NoChange);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -172,6 +212,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (!isMatrixDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(Eigen::NoChange, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -192,6 +235,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     IndexType rows = node["rows"].as<IndexType>();
     IndexType cols = node["cols"].as<IndexType>();
 
+    if (!isMatrixDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(rows, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
-- 
2.43.0


From 66a641a1cd28a73018886cb72f4519d2fc528af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 25/97] fix: saving YAML to a file that can not be opened
 aborts

---
 aslam_cv_common/include/aslam/common/yaml-serialization.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization.h b/aslam_cv_common/include/aslam/common/yaml-serialization.h
index 0ae6ca3..afdfb0c 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization.h
@@ -58,7 +58,10 @@ inline bool hasKey(const YAML::Node& node, const std::string& key) {
 template <typename ObjectType>
 bool Save(const ObjectType& object, std::ostream* ofs) {
   CHECK_NOTNULL(ofs);
-  assert(ofs->good());
+  if (!ofs->good()) {
+    LOG(ERROR) << "Unable to save yaml because the stream is not writable.";
+    return false;
+  }
 
   try {
     YAML::Node out;
-- 
2.43.0


From 8841831135fa888ec128281dbc63348ab0bfa966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 26/97] fix: the equidistant distortion Jacobian is zero
 instead of identity at the image center

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From 259ef533b2ca5a23392f3e90aa170550377b57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 27/97] fix: the fisheye parameter Jacobian ignores the point
 close to the image center

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..214262d 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -100,8 +100,8 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
-    *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    // The coordinates get multiplied by an expression not depending on r_u.
+    *out_jacobian = point * (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
   }
   else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 920311207616c750db12ee2d0f82258f686a79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 28/97] fix: the parameter Jacobian of a distortion crashes
 without external coefficients

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 9434841..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 214262d..e0ae856 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 3973147d79cc6e7d82bf8f3e0e67b5796b6b18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 29/97] fix: grid coordinates of a target point are returned as
 column and row

---
 aslam_cv_calibration/src/target-base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/src/target-base.cc b/aslam_cv_calibration/src/target-base.cc
index 1e91e19..a33c727 100644
--- a/aslam_cv_calibration/src/target-base.cc
+++ b/aslam_cv_calibration/src/target-base.cc
@@ -29,7 +29,7 @@ Eigen::Vector3d TargetBase::point(size_t point_idx) const {
 std::pair<size_t, size_t> TargetBase::pointToGridCoordinates(
     size_t point_idx) const {
   return std::pair<size_t, size_t>(
-      point_idx % cols(), static_cast<int>(point_idx / cols()));
+      point_idx / cols(), point_idx % cols());
 }
 
 size_t TargetBase::gridCoordinatesToPoint(
-- 
2.43.0


From f1f2093145d8c8dcd265b0cb4bbf9773c99675c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 30/97] fix: querying a corner of a partial target observation
 by id aborts

---
 .../include/aslam/calibration/target-observation.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..fe604b6 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,7 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_LT(corner_id, static_cast<int>(target_->size()));
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From 301fea1d5de22093a9f69694d706cd0229aeefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 31/97] fix: the intersection of touching or coinciding circles
 is not a number

---
 .../include/aslam/calibration/helpers.h             | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/helpers.h b/aslam_cv_calibration/include/aslam/calibration/helpers.h
index 04d7569..8f9d804 100644
--- a/aslam_cv_calibration/include/aslam/calibration/helpers.h
+++ b/aslam_cv_calibration/include/aslam/calibration/helpers.h
@@ -1,6 +1,10 @@
 #ifndef ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 #define ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 
+#include <algorithm>
+#include <cmath>
+#include <vector>
+
 #include <opencv2/core/eigen.hpp>
 #include <Eigen/Core>
 
@@ -35,8 +39,15 @@ class InitializerHelpers {
       return;
     }
 
+    if (d == 0.0) {
+      // The circles coincide, there is no unique intersection.
+      return;
+    }
+
     double a = (square(r1) - square(r2) + square(d)) / (2.0 * d);
-    double h = sqrt(square(r1) - square(a));
+    // Rounding errors make the argument slightly negative for circles that
+    // touch.
+    double h = sqrt(std::max(0.0, square(r1) - square(a)));
 
     double x3 = x1 + a * (x2 - x1) / d;
     double y3 = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 05f603eed56b0cbc617cc96f82bc3e077f704780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 32/97] fix: incomplete views leave the focal length
 initialization uninitialized

---
 aslam_cv_calibration/src/focallength-initializers.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index 976fb41..ec72f98 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -120,8 +120,10 @@ bool initFocalLengthAbsoluteConic(
  const double cv = (observations.at(0)->getImageHeight() - 1.0) / 2.0;
 
  const size_t num_obs = observations.size();
- cv::Mat A(num_obs * 2, 2, CV_64F);
- cv::Mat b(num_obs * 2, 1, CV_64F);
+ // The rows of observations that are skipped remain zero.
+ cv::Mat A = cv::Mat::zeros(num_obs * 2, 2, CV_64F);
+ cv::Mat b = cv::Mat::zeros(num_obs * 2, 1, CV_64F);
+ bool has_complete_observation = false;
 
  for (size_t obs_idx = 0u; obs_idx < num_obs; ++obs_idx) {
    TargetObservation::ConstPtr obs = observations[obs_idx];
@@ -133,6 +135,7 @@ bool initFocalLengthAbsoluteConic(
    if (!obs->allCornersObservered()) {
      continue;
    }
+   has_complete_observation = true;
 
    std::vector<cv::Point2f> image_corners(obs->numObservedCorners());
    std::vector<cv::Point2f> M(obs->numObservedCorners());
@@ -187,6 +190,10 @@ bool initFocalLengthAbsoluteConic(
    b.at<double>(obs_idx * 2 + 1, 0) = -d1[2] * d2[2];
  }
 
+ if (!has_complete_observation) {
+   return false;
+ }
+
  cv::Mat f(2, 1, CV_64F);
  cv::solve(A, b, f, cv::DECOMP_NORMAL | cv::DECOMP_LU);
 
-- 
2.43.0


From daa9db7b3544464fe857e74a24d2eacc35371126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 33/97] fix: never fit a line to a single point in the line
 segment detector

With a small image or angle tolerance the minimal region size became one,
and a region of one point has no direction: detect() threw.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 5f94958..b7edaac 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -573,7 +573,8 @@ void LineSegmentDetectorImpl::flsd(std::vector<Vec4i>& lines,
     }
 
     LOG_NT = 5 * (log10(double(img_width)) + log10(double(img_height))) / 2 + log10(11.0);
-    const int min_reg_size = int(-LOG_NT/log10(p)); // minimal number of points in region that can give a meaningful event
+    // minimal number of points in region that can give a meaningful event; a single point has no direction
+    const int min_reg_size = std::max(2, int(-LOG_NT/log10(p)));
 
     // // Initialize region only when needed
     // Mat region = Mat::zeros(scaled_image.size(), CV_8UC1);
-- 
2.43.0


From 343315b8658234911d3df804d16214d8e63f95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 34/97] fix: keep detected line segments inside the image

The axis of a wide region that touches the image border could end outside of
the image.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index b7edaac..5fa07d0 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -613,9 +613,6 @@ void LineSegmentDetectorImpl::flsd(std::vector<Vec4i>& lines,
                     if(log_nfa <= LOG_EPS) { continue; }
                 }
             }
-            // Found new line
-            ++ls_count;
-
             // Add the offset
             rec.x1 += 0.5; rec.y1 += 0.5;
             rec.x2 += 0.5; rec.y2 += 0.5;
@@ -628,8 +625,15 @@ void LineSegmentDetectorImpl::flsd(std::vector<Vec4i>& lines,
                 rec.width /= SCALE;
             }
 
+            // The axis of a wide region at the image border can end outside of the image.
+            Point start(int(rec.x1), int(rec.y1)), end(int(rec.x2), int(rec.y2));
+            if(!cv::clipLine(image.size(), start, end)) { continue; }
+
+            // Found new line
+            ++ls_count;
+
             //Store the relevant data
-            lines.push_back(Vec4i(int(rec.x1), int(rec.y1), int(rec.x2), int(rec.y2)));
+            lines.push_back(Vec4i(start.x, start.y, end.x, end.y));
             if(w_needed) widths.push_back(rec.width);
             if(p_needed) precisions.push_back(rec.p);
             if(n_needed && doRefine >= LSD_REFINE_ADV) nfas.push_back(log_nfa);
-- 
2.43.0


From b6022f86fda075a5facec5aee9f12427c9fec863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 35/97] fix: filter, draw and compare all segments given as a
 column matrix

detect() returns the segments as a column when asked for a matrix, of which
only the first one was looked at.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 5fa07d0..9b396a2 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1293,7 +1293,7 @@ void LineSegmentDetectorImpl::drawSegments(InputOutputArray _image, const InputA
     _lines = lines.getMat();
 
     // Draw segments
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1318,13 +1318,13 @@ int LineSegmentDetectorImpl::compareSegments(const Size& size, const InputArray
     _lines2 = lines2.getMat();
     // Draw segments
     std::vector<Mat> _lines;
-    for(int i = 0; i < _lines1.size().width; ++i)
+    for(int i = 0; i < int(_lines1.total()); ++i)
     {
         Point b(_lines1.at<Vec4i>(i)[0], _lines1.at<Vec4i>(i)[1]);
         Point e(_lines1.at<Vec4i>(i)[2], _lines1.at<Vec4i>(i)[3]);
         line(I1, b, e, Scalar::all(255), 1);
     }
-    for(int i = 0; i < _lines2.size().width; ++i)
+    for(int i = 0; i < int(_lines2.total()); ++i)
     {
         Point b(_lines2.at<Vec4i>(i)[0], _lines2.at<Vec4i>(i)[1]);
         Point e(_lines2.at<Vec4i>(i)[2], _lines2.at<Vec4i>(i)[3]);
@@ -1384,7 +1384,7 @@ int LineSegmentDetectorImpl::angle_filtering(InputArray lines, OutputArray filte
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1421,7 +1421,7 @@ int LineSegmentDetectorImpl::filterSize(InputArray lines, OutputArray filtered,
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < int(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
-- 
2.43.0


From 3f9f4c2eab667269c778d22c2a86773dccdddf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 36/97] fix: compute line intersections in double precision

In float the common point of nearly parallel lines was off by pixels, or they
were reported as parallel.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 9b396a2..fcc8e70 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -491,7 +491,7 @@ private:
 /*
  * Finds the equation parameters of a line in the form of Ax + By = C.
  */
-    void find_eq_params(const Vec4i& line, float& a, float& b, float& c) const;
+    void find_eq_params(const Vec4i& line, double& a, double& b, double& c) const;
 
 };
 
@@ -1438,10 +1438,10 @@ int LineSegmentDetectorImpl::filterSize(InputArray lines, OutputArray filtered,
     return num_filtered;
 }
 
-void LineSegmentDetectorImpl::find_eq_params(const Vec4i& line, float& a, float& b, float& c) const
+void LineSegmentDetectorImpl::find_eq_params(const Vec4i& line, double& a, double& b, double& c) const
 {
-    a = line[3] - line[1];
-    b = line[0] - line[2];
+    a = double(line[3]) - line[1];
+    b = double(line[0]) - line[2];
     c = a * line[0] + b * line[1];
 }
 
@@ -1452,12 +1452,13 @@ bool LineSegmentDetectorImpl::intersection(InputArray line1, InputArray line2, P
     Vec4i l1 = line1.getMat().at<Vec4i>(0);
     Vec4i l2 = line2.getMat().at<Vec4i>(0);
 
-    float x, y, a1, b1, a2, b2, c1, c2;
+    // The products of coordinates do not fit into the mantissa of a float.
+    double x, y, a1, b1, a2, b2, c1, c2;
 
     find_eq_params(l1, a1, b1, c1);
     find_eq_params(l2, a2, b2, c2);
 
-    float det = a1 * b2 - a2 * b1;
+    double det = a1 * b2 - a2 * b1;
     if (det == 0)
     {
         return false;
@@ -1467,7 +1468,7 @@ bool LineSegmentDetectorImpl::intersection(InputArray line1, InputArray line2, P
         x = (b2 * c1 - b1 * c2) / det;
         y = (a1 * c2 - a2 * c1) / det;
     }
-    P = Point(x, y);
+    P = cv::Point2d(x, y);
     return true;
 }
 
-- 
2.43.0


From 06c62887bddd4ad24f1c3299d8ff42afce4772b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 37/97] fix: count the points of the whole rectangle in the
 advanced line refinement

The steps of the lower sides mixed up x and y and were truncated to integers,
and a horizontal upper side was counted as a single pixel, so that axis
aligned edges were dropped as not meaningful.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index fcc8e70..a18ffce 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1168,18 +1168,21 @@ double LineSegmentDetectorImpl::rect_nfa(const rect& rec) const
     tailp->taken = true;
 
     double flstep = (min_y->p.y != leftmost->p.y) ?
-                    (min_y->p.x - leftmost->p.x) / (min_y->p.y - leftmost->p.y) : 0; //first left step
-    double slstep = (leftmost->p.y != tailp->p.x) ?
-                    (leftmost->p.x - tailp->p.x) / (leftmost->p.y - tailp->p.x) : 0; //second left step
+                    double(min_y->p.x - leftmost->p.x) / (min_y->p.y - leftmost->p.y) : 0; //first left step
+    double slstep = (leftmost->p.y != tailp->p.y) ?
+                    double(leftmost->p.x - tailp->p.x) / (leftmost->p.y - tailp->p.y) : 0; //second left step
 
     double frstep = (min_y->p.y != rightmost->p.y) ?
-                    (min_y->p.x - rightmost->p.x) / (min_y->p.y - rightmost->p.y) : 0; //first right step
-    double srstep = (rightmost->p.y != tailp->p.x) ?
-                    (rightmost->p.x - tailp->p.x) / (rightmost->p.y - tailp->p.x) : 0; //second right step
+                    double(min_y->p.x - rightmost->p.x) / (min_y->p.y - rightmost->p.y) : 0; //first right step
+    double srstep = (rightmost->p.y != tailp->p.y) ?
+                    double(rightmost->p.x - tailp->p.x) / (rightmost->p.y - tailp->p.y) : 0; //second right step
 
     double lstep = flstep, rstep = frstep;
 
     double left_x = min_y->p.x, right_x = min_y->p.x;
+    // With a horizontal upper side the first row already spans the whole side.
+    if(leftmost->p.y == min_y->p.y) { left_x = std::min(left_x, double(leftmost->p.x)); }
+    if(rightmost->p.y == min_y->p.y) { right_x = std::max(right_x, double(rightmost->p.x)); }
 
     // Loop around all points in the region and count those that are aligned.
     int min_iter = min_y->p.y;
-- 
2.43.0


From cbd8506a5d7c7d1534f248b832783407aed11364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 38/97] fix: do not read before the step list when reordering a
 single FED step

---
 aslam_cv_detector/src/kaze/fed.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/fed.cpp b/aslam_cv_detector/src/kaze/fed.cpp
index 54dab84..402dd11 100644
--- a/aslam_cv_detector/src/kaze/fed.cpp
+++ b/aslam_cv_detector/src/kaze/fed.cpp
@@ -92,7 +92,7 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
 
     // Choose kappa cycle with k = n/2
     // This is a heuristic. We can use Leja ordering instead!!
-    int kappa = n / 2;
+    int kappa = (n > 1) ? n / 2 : 1;
 
     // Get modulus for permutation
     int prime = n + 1;
-- 
2.43.0


From be0fc0267a33e461a74b999f46bfac0d25f0d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 39/97] fix: return an empty step list when no FED step is
 needed

---
 aslam_cv_detector/src/kaze/fed.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/fed.cpp b/aslam_cv_detector/src/kaze/fed.cpp
index 402dd11..fde8691 100644
--- a/aslam_cv_detector/src/kaze/fed.cpp
+++ b/aslam_cv_detector/src/kaze/fed.cpp
@@ -64,8 +64,10 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
   float c = 0.0, d = 0.0;     // Time savers
   vector<float> tauh;    // Helper vector for unsorted taus
 
-  if (n <= 0)
+  if (n <= 0) {
+    tau.clear();
     return 0;
+  }
 
   // Allocate memory for the time step size
   tau = vector<float>(n);
-- 
2.43.0


From 694e36845818c1615f534f5fc97631e72e7bb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 40/97] fix: size the derivative kernel buffer by the kernel

---
 aslam_cv_detector/src/kaze/nldiffusion_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index 6f8eb37..b60ff18 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -232,7 +232,7 @@ void compute_derivative_kernels(cv::OutputArray kx_, cv::OutputArray ky_,
   for (int k = 0; k < 2; k++) {
     cv::Mat* kernel = k == 0 ? &kx : &ky;
     int order = k == 0 ? dx : dy;
-    float kerI[1000];
+    vector<float> kerI(ksize);
 
     for (int t = 0; t<ksize; t++)
       kerI[t] = 0;
-- 
2.43.0


From d6ed0318a85b6f43a8313aab4e3ebc5edd2ed5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 41/97] fix: do not smooth in pixels from outside the given
 image

---
 aslam_cv_detector/src/kaze/nldiffusion_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index b60ff18..cbc6756 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -45,7 +45,8 @@ void gaussian_2D_convolution(const cv::Mat& src, cv::Mat& dst, size_t ksize_x,
     ksize_y += 1;
 
   // Perform the Gaussian Smoothing with border replication
-  cv::GaussianBlur(src, dst, cv::Size(ksize_x, ksize_y), sigma, sigma, cv::BORDER_REPLICATE);
+  cv::GaussianBlur(src, dst, cv::Size(ksize_x, ksize_y), sigma, sigma,
+                   cv::BORDER_REPLICATE | cv::BORDER_ISOLATED);
 }
 
 /* ************************************************************************* */
-- 
2.43.0


From bfcce2f71ddd98096e1c3695ffec7f6e82ff8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 42/97] fix: find image extrema above 1000 and below 0

---
 aslam_cv_detector/src/kaze/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/utils.cpp b/aslam_cv_detector/src/kaze/utils.cpp
index 718883b..d4ba6f4 100755
--- a/aslam_cv_detector/src/kaze/utils.cpp
+++ b/aslam_cv_detector/src/kaze/utils.cpp
@@ -26,13 +26,14 @@
 
 // System
 #include <fstream>
+#include <limits>
 
 using namespace std;
 
 /* ************************************************************************* */
 void compute_min_32F(const cv::Mat& src, float& value) {
 
-  float aux = 1000.0;
+  float aux = numeric_limits<float>::max();
 
   for (int i = 0; i < src.rows; i++) {
     for(int j = 0; j < src.cols; j++) {
@@ -48,7 +49,7 @@ void compute_min_32F(const cv::Mat& src, float& value) {
 /* ************************************************************************* */
 void compute_max_32F(const cv::Mat& src, float& value) {
 
-  float aux = 0.0;
+  float aux = numeric_limits<float>::lowest();
 
   for (int i = 0; i < src.rows; i++) {
     for (int j = 0; j < src.cols; j++) {
-- 
2.43.0


From f50b2452bd8a7ee54835a78ac43496de48a6c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 43/97] fix: size the transposed AOS solution by the transposed
 image

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 4b0283a..ba60296 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -82,7 +82,7 @@ void KAZE::Allocate_Memory_Evolution() {
   }
   // Allocate memory for the auxiliary variables that are used in the AOS scheme
   else {
-    Ltx_.create(size, CV_32F);
+    Ltx_.create(cv::Size(options_.img_height, options_.img_width), CV_32F);  // Holds the transposed solution
     Lty_.create(size, CV_32F);
     px_.create(size, CV_32F);
     py_.create(size, CV_32F);
-- 
2.43.0


From 73178d3a71e2259031fbe095fedb10b8ae1231a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 44/97] fix: do not mix keypoints of an earlier detection into
 the new ones

---
 aslam_cv_detector/src/kaze/KAZE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index ba60296..778da2b 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -258,6 +258,7 @@ void KAZE::Feature_Detection(std::vector<cv::KeyPoint>& kpts) {
   double t2 = 0.0, t1 = 0.0;
   t1 = cv::getTickCount();
 
+  kpts.clear();
   Compute_Detector_Response();
   Determinant_Hessian_Parallel(kpts);
   Do_Subpixel_Refinement(kpts);
-- 
2.43.0


From abb1b6ec2ba78cb0bc77d689038c5c45cdc7f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 45/97] fix: sign of the homogeneous projection Jacobian for a
 negative scale

---
 aslam_cv_cameras/src/camera.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..7a8a690 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -366,7 +366,8 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  // The projected point is the negated vector part for a negative scale.
+  out_jacobian->topLeftCorner<2, 3>() = (point_4d[3] < 0) ? -Je : Je;
 
   return ret;
 }
-- 
2.43.0


From 0c7f9489c21c095a60e4275eee1316fc3e74f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 46/97] fix: 3d lidar projection ignored external intrinsics

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..a36ffc0 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -25,17 +25,19 @@ const ProjectionResult Camera3DLidar::project3Functional(
 
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
-  (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+  (*out_keypoint)[0] =
+      (std::atan2(bearing_vector.x(), bearing_vector.z()) +
+       intrinsics_external[Parameters::kHorizontalCenterRad]) /
+      intrinsics_external[Parameters::kHorizontalResolutionRad];
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) +
+        intrinsics_external[Parameters::kVerticalCenterRad]) /
+       intrinsics_external[Parameters::kVerticalResolutionRad]);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From 2a72e1cfe467f676bc7be04ab4264410c1b04679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 47/97] fix: 3d lidar azimuth wraps at a full turn, not at the
 image width

---
 .../aslam/cameras/camera-3d-lidar-inl.h        | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index a36ffc0..b68c095 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -1,6 +1,7 @@
 #ifndef ASLAM_CAMERAS_CAMERA_3D_LIDAR_INL_H_
 #define ASLAM_CAMERAS_CAMERA_3D_LIDAR_INL_H_
 
+#include <cmath>
 #include <memory>
 
 namespace aslam {
@@ -25,14 +26,17 @@ const ProjectionResult Camera3DLidar::project3Functional(
 
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
-  (*out_keypoint)[0] =
-      (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-       intrinsics_external[Parameters::kHorizontalCenterRad]) /
-      intrinsics_external[Parameters::kHorizontalResolutionRad];
-
-  if ((*out_keypoint)[0] < 0.0) {
-    (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
+  // The columns start at an azimuth of minus the horizontal center and cover at
+  // most a full turn, which need not be a multiple of the image width.
+  ScalarType column_angle =
+      std::fmod(std::atan2(bearing_vector.x(), bearing_vector.z()) +
+                    intrinsics_external[Parameters::kHorizontalCenterRad],
+                2.0 * M_PI);
+  if (column_angle < 0.0) {
+    column_angle += 2.0 * M_PI;
   }
+  (*out_keypoint)[0] =
+      column_angle / intrinsics_external[Parameters::kHorizontalResolutionRad];
 
   (*out_keypoint)[1] =
       ((std::asin(bearing_vector.y()) +
-- 
2.43.0


From 663cc7d8537cc390126b773f93c0a369c0fb39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 48/97] fix: maximum rolling shutter delay of a 3d lidar covers
 its columns

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
index cdc1ea9..a5323c3 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
@@ -263,7 +263,7 @@ class Camera3DLidar : public aslam::Cloneable<Camera, Camera3DLidar> {
   /// \brief The amount of time elapsed between the first row of the image and
   /// the last row of the image. For a global shutter camera, this can return
   /// 0.
-  int64_t rollingShutterDelayNanoSeconds() const {
+  int64_t maxRollingShutterDelayNanoSeconds() const {
     return this->imageWidth() * line_delay_nanoseconds_;
   }
 
-- 
2.43.0


From 2c1cf385095feb5a7aef2b2a532326bab12ce490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 49/97] fix: random keypoints of the unified projection camera
 lie in the image

---
 .../src/camera-unified-projection.cc          | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/aslam_cv_cameras/src/camera-unified-projection.cc b/aslam_cv_cameras/src/camera-unified-projection.cc
index 16202c4..c5bd206 100644
--- a/aslam_cv_cameras/src/camera-unified-projection.cc
+++ b/aslam_cv_cameras/src/camera-unified-projection.cc
@@ -238,29 +238,17 @@ Eigen::Vector2d UnifiedProjectionCamera::createRandomKeypoint() const {
   // plane and the projection equations don't work outside of it.
   // With some manipulation, we can see that, on the normalized image plane,
   // the edge of this circle is at u^2 + v^2 = 1/(xi^2 - 1)
-  // So: this function creates keypoints inside this boundary.
+  // So: this function draws keypoints of the image until one is inside this boundary.
+  Eigen::Vector2d u(imageWidth() + 1, imageHeight() + 1);
 
+  // Keep the point away from the border of the image.
+  const double border = std::min(imageWidth(), imageHeight()) * 0.1;
 
-  // Create a point on the normalized image plane inside the boundary.
-  // This is not efficient, but it should be correct.
-  const double ru = imageWidth(),
-               rv = imageHeight();
-
-  Eigen::Vector2d u(ru + 1, rv + 1);
-  double one_over_xixi_m_1 = 1.0 / (xi() * xi() - 1);
-
-  int max_tries = 20;
+  int max_tries = 1000;
   while ( !(isLiftable(u) && isKeypointVisible(u)) ) {
     u.setRandom();
-    // 0.8 is a magic number to keep the points away from the border.
-    u *= ((double) rand() / (double) RAND_MAX) * one_over_xixi_m_1 * 0.8;
-
-    // Now we run the point through distortion and projection.
-    // Apply distortion
-    distortion_->distort(&u);
-
-    u[0] = fu() * u[0] + cu();
-    u[1] = fv() * u[1] + cv();
+    u[0] = border + std::abs(u[0]) * (imageWidth() - border * 2.0);
+    u[1] = border + std::abs(u[1]) * (imageHeight() - border * 2.0);
 
     // Protect against infinite loops.
     if(--max_tries < 1) {
-- 
2.43.0


From f6693e662cfce4bfd66b73f5116b4c204b3b426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 50/97] fix: loading a camera rig replaces its previous cameras
 and covariance

Deserializing into a rig that already has cameras appended to them and kept
the old localization covariance.
---
 aslam_cv_cameras/src/ncamera.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..6b3b71a 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -97,10 +97,20 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  // Forget the previous content of this rig.
+  cameras_.clear();
+  T_C_B_.clear();
+  id_to_index_.clear();
+  T_G_B_fixed_localization_covariance_.setZero();
+  has_T_G_B_fixed_localization_covariance_ = false;
+
   if (yaml_node["T_G_B_fixed_covariance"]) {
-    CHECK(YAML::safeGet(
-        yaml_node, "T_G_B_fixed_covariance",
-        &T_G_B_fixed_localization_covariance_));
+    if (!YAML::safeGet(
+            yaml_node, "T_G_B_fixed_covariance",
+            &T_G_B_fixed_localization_covariance_)) {
+      LOG(ERROR) << "Unable to parse T_G_B_fixed_covariance.";
+      return false;
+    }
     has_T_G_B_fixed_localization_covariance_ = true;
   }
 
-- 
2.43.0


From 5143bbb72734aaf3d1f05a2186f92cdcff7d5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 51/97] fix: refuse camera rigs with invalid extrinsics instead
 of aborting

---
 aslam_cv_cameras/src/ncamera.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 6b3b71a..4ae96d0 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -161,12 +161,20 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     // frame B).
     Eigen::Matrix4d input_matrix;
     aslam::Transformation T_B_C;
-    if (camera_node["T_B_C"]) {
-      CHECK(YAML::safeGet(camera_node, "T_B_C", &input_matrix));
+    const bool has_T_B_C = static_cast<bool>(camera_node["T_B_C"]);
+    if (has_T_B_C || camera_node["T_C_B"]) {
+      const std::string key = has_T_B_C ? "T_B_C" : "T_C_B";
+      if (!YAML::safeGet(camera_node, key, &input_matrix) ||
+          !aslam::Quaternion::isValidRotationMatrix(
+              input_matrix.topLeftCorner<3, 3>())) {
+        LOG(ERROR) << "Invalid extrinsic transformation " << key
+                   << " for camera " << camera_index;
+        return false;
+      }
       T_B_C = aslam::Transformation(input_matrix);
-    } else if (camera_node["T_C_B"]) {
-      CHECK(YAML::safeGet(camera_node, "T_C_B", &input_matrix));
-      T_B_C = aslam::Transformation(input_matrix).inverse();
+      if (!has_T_B_C) {
+        T_B_C = T_B_C.inverse();
+      }
     } else {
       LOG(ERROR)
           << "Unable to get extrinsic transformation T_B_C or T_C_B for camera "
-- 
2.43.0


From 7d1257eed2bb6e97ce53b39d6a73fcd93a24a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 52/97] fix: refuse sensors with an invalid id instead of
 aborting

---
 aslam_cv_common/src/sensor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/sensor.cc b/aslam_cv_common/src/sensor.cc
index 1d32e24..8efa43d 100644
--- a/aslam_cv_common/src/sensor.cc
+++ b/aslam_cv_common/src/sensor.cc
@@ -50,8 +50,12 @@ bool Sensor::deserialize(const YAML::Node& sensor_node) {
   if (YAML::safeGet(
           sensor_node, static_cast<std::string>(kYamlFieldNameId),
           &id_as_string)) {
-    CHECK(!id_as_string.empty());
-    CHECK(id_.fromHexString(id_as_string));
+    SensorId id;
+    if (!id.fromHexString(id_as_string) || !id.isValid()) {
+      LOG(ERROR) << "Invalid sensor id: \"" << id_as_string << "\".";
+      return false;
+    }
+    id_ = id;
   } else {
     LOG(WARNING) << "Unable to find an ID field. Generating a new random id.";
     generateId(&id_);
-- 
2.43.0


From 6e5a84a75977ea6ffa3b01b35f30ae8998f84e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 53/97] fix: reset the compressed flag of a camera when its
 document has none

---
 aslam_cv_cameras/src/camera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 7a8a690..0a1145e 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -237,6 +237,7 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   }
 
   // Get the optional compressed definition for images or set the default
+  is_compressed_ = false;
   if (YAML::hasKey(yaml_node, "compressed")) {
     if (!YAML::safeGet(yaml_node, "compressed", &is_compressed_)) {
       LOG(WARNING) << "Unable to parse parameter compressed."
-- 
2.43.0


From dbea74283912a9f6b9d7ff15a810a2b491513d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 54/97] fix: refuse to load a camera from the document of
 another camera model

---
 aslam_cv_cameras/src/camera.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 0a1145e..8a21505 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -204,15 +204,23 @@ bool Camera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  Type document_camera_type;
   if (camera_type == "pinhole") {
-    camera_type_ = Type::kPinhole;
+    document_camera_type = Type::kPinhole;
   } else if (camera_type == "unified-projection") {
-    camera_type_ = Type::kUnifiedProjection;
+    document_camera_type = Type::kUnifiedProjection;
   } else if (camera_type == "camera-3d-lidar") {
-    camera_type_ = Type::kLidar3D;
+    document_camera_type = Type::kLidar3D;
   } else {
     LOG(ERROR) << "Unknown camera model: \"" << camera_type << "\". "
-               << "Valid values are {pinhole, unified-projection}.";
+               << "Valid values are {pinhole, unified-projection, "
+               << "camera-3d-lidar}.";
+    return false;
+  }
+  // The projection functions of this object belong to one camera model only.
+  if (document_camera_type != camera_type_) {
+    LOG(ERROR) << "The camera model \"" << camera_type
+               << "\" is not the model of this camera.";
     return false;
   }
 
-- 
2.43.0


From aebc5af3dcd688461f920bd9bdd61dabe1b8707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 55/97] fix: default constructed lidar cameras have four
 intrinsic parameters

---
 aslam_cv_cameras/src/camera-3d-lidar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera-3d-lidar.cc b/aslam_cv_cameras/src/camera-3d-lidar.cc
index 97e8c95..9dc49aa 100644
--- a/aslam_cv_cameras/src/camera-3d-lidar.cc
+++ b/aslam_cv_cameras/src/camera-3d-lidar.cc
@@ -15,7 +15,7 @@ std::ostream& operator<<(std::ostream& out, const Camera3DLidar& camera) {
 }
 
 Camera3DLidar::Camera3DLidar()
-    : Base(Eigen::Vector3d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
+    : Base(Eigen::Vector4d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
 
 Camera3DLidar::Camera3DLidar(
     const Eigen::VectorXd& intrinsics, const uint32_t image_width,
-- 
2.43.0


From 44b8bb8ddc6364ae32175a093d85760cd425e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 56/97] fix: look up the cameras of a rig by the ids they have
 now

The separate id to index map was not updated when the id of a camera changed
(as in cloneRigWithoutDistortion) and lost a camera when two cameras of a rig
were exchanged with setCamera.
---
 .../include/aslam/cameras/ncamera.h           |  3 ---
 aslam_cv_cameras/src/ncamera.cc               | 20 ++++++-------------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/ncamera.h b/aslam_cv_cameras/include/aslam/cameras/ncamera.h
index 0165d39..7f1945d 100644
--- a/aslam_cv_cameras/include/aslam/cameras/ncamera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/ncamera.h
@@ -190,9 +190,6 @@ class NCamera : public Sensor {
   /// The camera geometries.
   std::vector<std::shared_ptr<Camera>> cameras_;
 
-  /// Map from camera id to index.
-  std::unordered_map<CameraId, size_t> id_to_index_;
-
   /// This is a fixed parameter that can be passed in along with the camera
   /// calibration and it represents the covariance of a visual localization based
   /// on this camera.
diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 4ae96d0..a957818 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -100,7 +100,6 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
   // Forget the previous content of this rig.
   cameras_.clear();
   T_C_B_.clear();
-  id_to_index_.clear();
   T_G_B_fixed_localization_covariance_.setZero();
   has_T_G_B_fixed_localization_covariance_ = false;
 
@@ -219,11 +218,9 @@ void NCamera::saveToYamlNodeImpl(YAML::Node* yaml_node) const {
 
 void NCamera::initInternal() {
   CHECK_EQ(cameras_.size(), T_C_B_.size());
-  id_to_index_.clear();
   for (size_t i = 0; i < cameras_.size(); ++i) {
     CHECK_NOTNULL(cameras_[i].get());
     CHECK(cameras_[i]->getId().isValid());
-    id_to_index_[cameras_[i]->getId()] = i;
   }
 }
 
@@ -291,9 +288,7 @@ Camera::ConstPtr NCamera::getCameraShared(size_t camera_index) const {
 void NCamera::setCamera(size_t camera_index, Camera::Ptr camera) {
   CHECK(camera);
   CHECK_LT(camera_index, cameras_.size());
-  id_to_index_.erase(cameras_[camera_index]->getId());
   cameras_[camera_index] = camera;
-  id_to_index_[camera->getId()] = camera_index;
 }
 
 size_t NCamera::numCameras() const {
@@ -311,7 +306,7 @@ const CameraId& NCamera::getCameraId(size_t camera_index) const {
 
 bool NCamera::hasCameraWithId(const CameraId& id) const {
   CHECK(id.isValid());
-  return id_to_index_.find(id) != id_to_index_.end();
+  return getCameraIndex(id) >= 0;
 }
 
 bool NCamera::has_T_G_B_fixed_localization_covariance() const {
@@ -336,13 +331,12 @@ void NCamera::set_T_G_B_fixed_localization_covariance(
 
 int NCamera::getCameraIndex(const CameraId& id) const {
   CHECK(id.isValid());
-  std::unordered_map<CameraId, size_t>::const_iterator it =
-      id_to_index_.find(id);
-  if (it == id_to_index_.end()) {
-    return -1;
-  } else {
-    return it->second;
+  for (size_t i = 0u; i < cameras_.size(); ++i) {
+    if (cameras_[i]->getId() == id) {
+      return static_cast<int>(i);
+    }
   }
+  return -1;
 }
 
 aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
@@ -374,7 +368,6 @@ bool NCamera::isValidImpl() const {
 }
 
 void NCamera::setRandomImpl() {
-  id_to_index_.clear();
   T_C_B_.clear();
   cameras_.clear();
 
@@ -404,7 +397,6 @@ void NCamera::setRandomImpl() {
     aslam::Quaternion q_C_B(0.5, 0.5, -0.5, 0.5);
     aslam::Transformation T_C_B(q_C_B, position);
     T_C_B_vector.emplace_back(T_C_B);
-    id_to_index_[random_camera->getId()] = camera_idx;
   }
   T_C_B_ = T_C_B_vector;
   cameras_ = cameras;
-- 
2.43.0


From 5cd066b24670b4d72563844a83c07433426533b9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 57/97] fix: no keypoints of a type in frames without
 descriptors

---
 aslam_cv_frames/src/visual-frame.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..dda2094 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -851,15 +851,12 @@ size_t VisualFrame::getDescriptorTypeBlock(int descriptor_type) const {
 }
 
 size_t VisualFrame::getNumKeypointMeasurementsOfType(int descriptor_type) const {
-  if (!hasKeypointMeasurements()) {
+  if (!hasKeypointMeasurements() || !hasDescriptorType(descriptor_type)) {
     return 0u;
   }
 
   const std::vector<VisualFrame::DescriptorsT>& descriptors =
       aslam::channels::get_DESCRIPTORS_Data(channels_);
-  if (!hasDescriptorType(descriptor_type)) {
-    return 0u;
-  }
   const size_t block = getDescriptorTypeBlock(descriptor_type);
   CHECK_LT(block, descriptors.size());
   return descriptors[block].cols();
-- 
2.43.0


From 5c377863293623cf6278082bd43c0b2d2fda42e1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 58/97] fix: clearing the keypoints of a frame clears all their
 attributes and feature types

---
 aslam_cv_frames/include/aslam/frames/visual-frame.h |  3 ++-
 aslam_cv_frames/src/visual-frame.cc                 | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_frames/include/aslam/frames/visual-frame.h b/aslam_cv_frames/include/aslam/frames/visual-frame.h
index ac2779c..e9ec42a 100644
--- a/aslam_cv_frames/include/aslam/frames/visual-frame.h
+++ b/aslam_cv_frames/include/aslam/frames/visual-frame.h
@@ -99,7 +99,8 @@ class VisualFrame  {
   }
 
   /// Clears the following channels: KeypointMeasurements, KeypointMeasurementUncertainties,
-  /// KeypointOrientations, KeypointScores, KeypointScales, Descriptors, TrackIds
+  /// KeypointOrientations, KeypointScores, KeypointScales, Descriptors, TrackIds and, if
+  /// they are present, Keypoint3DPositions, KeypointTimeOffsets
   void clearKeypointChannels();
 
   /// The keypoint measurements stored in a frame.
diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index dda2094..840c470 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,17 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+  if (hasKeypoint3DPositions()) {
+    setKeypoint3DPositions(Eigen::Matrix3Xd());
+  }
+  if (hasKeypointTimeOffsets()) {
+    setKeypointTimeOffsets(zero_vector_int);
+  }
+  if (hasDescriptors()) {
+    // Only a single empty block remains.
+    aslam::channels::remove_DESCRIPTORS_Channel(&channels_);
+    aslam::channels::remove_DESCRIPTOR_TYPES_Channel(&channels_);
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From 573095f68d8cdb36667adf92e2479a2cefc2aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 59/97] fix: discarding untracked observations keeps 3d
 positions, time offsets and all feature types aligned

---
 aslam_cv_frames/src/visual-frame.cc | 62 ++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 840c470..3a87f82 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -1,5 +1,6 @@
 #include "aslam/frames/visual-frame.h"
 
+#include <algorithm>
 #include <memory>
 #include <aslam/common/channel-definitions.h>
 #include <aslam/common/stl-helpers.h>
@@ -580,6 +581,23 @@ VisualFrame::Ptr VisualFrame::createEmptyTestVisualFrame(const aslam::Camera::Co
   return frame;
 }
 
+// Erases the columns of the keypoints with the given indices. An attribute may
+// be missing for the last keypoints (see extend*()).
+template <typename Derived>
+void eraseKeypointIndices(
+    const std::vector<size_t>& ordered_keypoint_indices,
+    Eigen::PlainObjectBase<Derived>* data) {
+  const bool is_vector = Derived::ColsAtCompileTime == 1;
+  const size_t num_data =
+      static_cast<size_t>(is_vector ? data->rows() : data->cols());
+  const std::vector<size_t> indices_to_erase(
+      ordered_keypoint_indices.begin(),
+      std::lower_bound(ordered_keypoint_indices.begin(),
+                       ordered_keypoint_indices.end(), num_data));
+  common::stl_helpers::eraseIndicesFromContainer(
+      indices_to_erase, num_data, &data->derived());
+}
+
 void VisualFrame::discardUntrackedObservations(
     std::vector<size_t>* discarded_indices) {
   CHECK_NOTNULL(discarded_indices)->clear();
@@ -597,31 +615,45 @@ void VisualFrame::discardUntrackedObservations(
   }
 
   if (hasKeypointMeasurements()) {
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, getKeypointMeasurementsMutable());
+    eraseKeypointIndices(*discarded_indices, getKeypointMeasurementsMutable());
   }
   if (hasKeypointMeasurementUncertainties()) {
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count,
-        getKeypointMeasurementUncertaintiesMutable());
+    eraseKeypointIndices(
+        *discarded_indices, getKeypointMeasurementUncertaintiesMutable());
   }
   if (hasKeypointOrientations()) {
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, getKeypointOrientationsMutable());
+    eraseKeypointIndices(*discarded_indices, getKeypointOrientationsMutable());
   }
   if (hasKeypointScores()) {
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, getKeypointScoresMutable());
+    eraseKeypointIndices(*discarded_indices, getKeypointScoresMutable());
   }
   if (hasKeypointScales()) {
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, getKeypointScalesMutable());
+    eraseKeypointIndices(*discarded_indices, getKeypointScalesMutable());
+  }
+  if (hasKeypoint3DPositions()) {
+    eraseKeypointIndices(*discarded_indices, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
+    eraseKeypointIndices(*discarded_indices, getKeypointTimeOffsetsMutable());
   }
   if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+    // Every block holds the descriptors of a range of keypoints.
+    std::vector<DescriptorsT>& descriptors =
+        aslam::channels::get_DESCRIPTORS_Data(channels_);
+    std::vector<size_t>::const_iterator it = discarded_indices->begin();
+    size_t block_start = 0u;
+    for (DescriptorsT& block : descriptors) {
+      const size_t block_size = static_cast<size_t>(block.cols());
+      std::vector<size_t> block_indices;
+      for (; it != discarded_indices->end() && *it < block_start + block_size; ++it) {
+        block_indices.emplace_back(*it - block_start);
+      }
+      common::stl_helpers::OneDimensionAdapter<unsigned char,
+      common::stl_helpers::kColumns> adapter(&block);
+      common::stl_helpers::eraseIndicesFromContainer(
+          block_indices, block_size, &adapter);
+      block_start += block_size;
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From 9a464c6aebed412e1e78be7206fa753a70150fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 60/97] fix: assigning a multi-frame to itself keeps its frames

---
 aslam_cv_frames/src/visual-nframe.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..ad1970f 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,6 +39,9 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
+  if (this == &other) {
+    return *this;
+  }
   id_ = other.id_;
   camera_rig_ = other.camera_rig_;
   frames_.clear();
-- 
2.43.0


From f028d88f83922e61adce7bfbf1313883a05377b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 61/97] fix: compare multi-frames of which not all frames are
 set

---
 aslam_cv_frames/src/visual-nframe.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index ad1970f..414e770 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -202,7 +202,7 @@ bool VisualNFrame::operator==(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= *CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get());
+      same &= aslam::checkSharedEqual(frames_[i], other.frames_[i]);
     }
   }
   return same;
@@ -214,8 +214,10 @@ bool VisualNFrame::compareWithoutCameraSystem(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= CHECK_NOTNULL(frames_[i].get())->compareWithoutCameraGeometry(
-          *CHECK_NOTNULL(other.frames_[i].get()));
+      same &= isFrameSet(i) == other.isFrameSet(i);
+      if (isFrameSet(i) && other.isFrameSet(i)) {
+        same &= frames_[i]->compareWithoutCameraGeometry(*other.frames_[i]);
+      }
     }
   }
   return same;
-- 
2.43.0


From d2d2648404696a651e0ee8df1eb9e150290c4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 62/97] fix: timestamps of multi-frames without a camera rig

---
 aslam_cv_frames/src/visual-nframe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 414e770..8ff1e0a 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -170,7 +170,7 @@ bool VisualNFrame::isFrameValid(size_t frame_index) const {
 
 int64_t VisualNFrame::getMinTimestampNanoseconds() const {
   int64_t min_timestamp_nanoseconds = std::numeric_limits<int64_t>::max();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds < min_timestamp_nanoseconds)
@@ -184,7 +184,7 @@ int64_t VisualNFrame::getMinTimestampNanoseconds() const {
 
 int64_t VisualNFrame::getMaxTimestampNanoseconds() const {
   int64_t max_timestamp_nanoseconds = aslam::time::getInvalidTime();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds > max_timestamp_nanoseconds)
-- 
2.43.0


From 5aa3e3a78862594213cc412adaa65bd8a5e2e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 63/97] fix: disparity extent of feature tracks with negative
 coordinates

---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0


From ca942831b1cc123f80ad949db1e6b583b918dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 64/97] fix: descriptor length of one matcher is used by all
 later matchers

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 05d81e7..2efcad9 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -140,7 +140,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   bool passed_ratio_test = false;
   int n_processed_corners = 0;
   KeyPointIterator it_best;
-  const static unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
+  const unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
   int best_score = static_cast<int>(
       kDescriptorSizeBits * kMatchingThresholdBitsRatioRelaxed);
   unsigned int distance_best = kDescriptorSizeBits + 1;
-- 
2.43.0


From de7b214f54280b13385daa5284802cc509488b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 65/97] fix: matcher aborts on descriptors without a common bit

---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 64fbe24..7a15096 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -79,7 +79,7 @@ class GyroTwoFrameMatcher {
     MatchData() = default;
     void addCandidate(
         const KeyPointIterator keypoint_iterator_kp1, const double matching_score) {
-      CHECK_GT(matching_score, 0.0);
+      CHECK_GE(matching_score, 0.0);
       CHECK_LE(matching_score, 1.0);
       keypoint_match_candidates_kp1.push_back(keypoint_iterator_kp1);
       match_candidate_matching_scores.push_back(matching_score);
-- 
2.43.0


From 35b02f887fd81ef34de91d1da2d74150cb8c53a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 66/97] fix: matcher skips the last image row and rounds the
 search window

---
 .../aslam/matcher/gyro-two-frame-matcher.h    | 39 ++++++++++++-------
 .../src/gyro-two-frame-matcher.cc             | 24 ++++--------
 2 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 7a15096..545a2de 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -100,12 +100,18 @@ class GyroTwoFrameMatcher {
   /// already existing match.
   void matchKeypoint(const int idx_k);
 
+  /// \brief Get the keypoints in the image rows that the window touches.
   void getKeypointIteratorsInWindow(
       const Eigen::Vector2d& predicted_keypoint_position,
       const int window_half_side_length_px,
       KeyPointIterator* it_keypoints_begin,
       KeyPointIterator* it_keypoints_end) const;
 
+  bool isInWindow(
+      const Eigen::Vector2d& keypoint_position,
+      const Eigen::Vector2d& predicted_keypoint_position,
+      const int window_half_side_length_px) const;
+
   /// \brief Try to match inferior matches without modifying initial matches.
   ///
   /// Second matcher that is only quering keypoints of frame (k+1) that the
@@ -113,7 +119,8 @@ class GyroTwoFrameMatcher {
   /// Returns true if matches are still found.
   bool matchInferiorMatches(std::vector<bool>* is_inferior_keypoint_kp1_matched);
 
-  int clamp(const int lower, const int upper, const int in) const;
+  // Row of the image that is closest to the y coordinate.
+  int clampToRow(const double y) const;
 
   // The larger the matching score (which is smaller or equal to 1),
   // the higher the probability that a true match occurred.
@@ -197,34 +204,40 @@ class GyroTwoFrameMatcher {
   static constexpr size_t kMaxNumInferiorIterations = 3u;
 };
 
-void GyroTwoFrameMatcher::getKeypointIteratorsInWindow(
+inline void GyroTwoFrameMatcher::getKeypointIteratorsInWindow(
     const Eigen::Vector2d& predicted_keypoint_position,
     const int window_half_side_length_px,
     KeyPointIterator* it_keypoints_begin,
     KeyPointIterator* it_keypoints_end) const {
   CHECK_NOTNULL(it_keypoints_begin);
   CHECK_NOTNULL(it_keypoints_end);
-CHECK_GT(window_half_side_length_px, 0);
+  CHECK_GT(window_half_side_length_px, 0);
 
   // Compute search area for LUT iterators row-wise.
-  int LUT_index_top = clamp(0, kImageHeight - 1, static_cast<int>(
-      predicted_keypoint_position(1) + 0.5 - window_half_side_length_px));
-  int LUT_index_bottom = clamp(0, kImageHeight - 1, static_cast<int>(
-      predicted_keypoint_position(1) + 0.5 + window_half_side_length_px));
+  const int LUT_index_top = clampToRow(
+      predicted_keypoint_position(1) - window_half_side_length_px);
+  const int LUT_index_bottom = clampToRow(
+      predicted_keypoint_position(1) + window_half_side_length_px);
 
   *it_keypoints_begin = keypoints_kp1_sorted_by_y_.begin() + corner_row_LUT_[LUT_index_top];
-  *it_keypoints_end = keypoints_kp1_sorted_by_y_.begin() + corner_row_LUT_[LUT_index_bottom];
+  *it_keypoints_end = keypoints_kp1_sorted_by_y_.begin() + corner_row_LUT_[LUT_index_bottom + 1];
 
   CHECK_LE(LUT_index_top, LUT_index_bottom);
-  CHECK_GE(LUT_index_bottom, 0);
   CHECK_GE(LUT_index_top, 0);
-  CHECK_LT(LUT_index_top, static_cast<int>(kImageHeight));
   CHECK_LT(LUT_index_bottom, static_cast<int>(kImageHeight));
 }
 
-inline int GyroTwoFrameMatcher::clamp(
-    const int lower, const int upper, const int in) const {
-  return std::min<int>(std::max<int>(in, lower), upper);
+inline bool GyroTwoFrameMatcher::isInWindow(
+    const Eigen::Vector2d& keypoint_position,
+    const Eigen::Vector2d& predicted_keypoint_position,
+    const int window_half_side_length_px) const {
+  return (keypoint_position - predicted_keypoint_position).cwiseAbs().maxCoeff() <=
+      window_half_side_length_px;
+}
+
+inline int GyroTwoFrameMatcher::clampToRow(const double y) const {
+  return static_cast<int>(
+      std::min<double>(std::max<double>(y, 0.0), kImageHeight - 1.0));
 }
 
 inline double GyroTwoFrameMatcher::computeMatchingScore(
diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 2efcad9..fac6c52 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -60,7 +60,7 @@ GyroTwoFrameMatcher::GyroTwoFrameMatcher(
   keypoints_kp1_sorted_by_y_.reserve(kNumPointsKp1);
   descriptors_k_wrapped_.reserve(kNumPointsK);
   matches_kp1_k_->reserve(kNumPointsK);
-  corner_row_LUT_.reserve(kImageHeight);
+  corner_row_LUT_.reserve(kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::initialize() {
@@ -106,7 +106,9 @@ void GyroTwoFrameMatcher::initialize() {
     }
     corner_row_LUT_.push_back(v);
   }
-  CHECK_EQ(corner_row_LUT_.size(), kImageHeight);
+  // End of the last row.
+  corner_row_LUT_.push_back(kNumPointsKp1);
+  CHECK_EQ(corner_row_LUT_.size(), kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::match() {
@@ -154,17 +156,12 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   getKeypointIteratorsInWindow(
       predicted_keypoint_position_kp1, small_search_distance_px_, &nearest_corners_begin, &nearest_corners_end);
 
-  const int bound_left_nearest =
-      predicted_keypoint_position_kp1(0) - small_search_distance_px_;
-  const int bound_right_nearest =
-      predicted_keypoint_position_kp1(0) + small_search_distance_px_;
-
   MatchData current_match_data;
 
   // First search small window.
   for (KeyPointIterator it = nearest_corners_begin; it != nearest_corners_end; ++it) {
-    if (it->measurement(0) < bound_left_nearest ||
-        it->measurement(0) > bound_right_nearest) {
+    if (!isInWindow(it->measurement, predicted_keypoint_position_kp1,
+                    small_search_distance_px_)) {
       continue;
     }
 
@@ -194,11 +191,6 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
 
   // If no match in small window, increase window and search again.
   if (!found) {
-    const int bound_left_near =
-        predicted_keypoint_position_kp1(0) - large_search_distance_px_;
-    const int bound_right_near =
-        predicted_keypoint_position_kp1(0) + large_search_distance_px_;
-
     KeyPointIterator near_corners_begin, near_corners_end;
     getKeypointIteratorsInWindow(
         predicted_keypoint_position_kp1, large_search_distance_px_, &near_corners_begin, &near_corners_end);
@@ -207,8 +199,8 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       if (iteration_processed_keypoints_kp1_[it->channel_index]) {
         continue;
       }
-      if (it->measurement(0) < bound_left_near ||
-          it->measurement(0) > bound_right_near) {
+      if (!isInWindow(it->measurement, predicted_keypoint_position_kp1,
+                      large_search_distance_px_)) {
         continue;
       }
       CHECK_LT(it->channel_index, kNumPointsKp1);
-- 
2.43.0


From 31e42b1ebe3db81b01ad57c5379c4f5337f7471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 67/97] fix: matcher ratio test forgets candidates seen before
 the first good one

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index fac6c52..8e08785 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -173,7 +173,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
     int current_score = kDescriptorSizeBits - distance;
     if (current_score > best_score) {
       best_score = current_score;
-      distance_second_best = distance_best;
+      distance_second_best = std::min(distance_best, distance_second_best);
       distance_best = distance;
       it_best = it;
       found = true;
@@ -212,7 +212,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       int current_score = kDescriptorSizeBits - distance;
       if (current_score > best_score) {
         best_score = current_score;
-        distance_second_best = distance_best;
+        distance_second_best = std::min(distance_best, distance_second_best);
         distance_best = distance;
         it_best = it;
         found = true;
-- 
2.43.0


From aface059575c12ccdc415819972041f217ba0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 68/97] fix: stale predictions for a frame without keypoints

---
 aslam_cv_matcher/src/match-helpers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_matcher/src/match-helpers.cc b/aslam_cv_matcher/src/match-helpers.cc
index bbd6066..8cfa0ef 100644
--- a/aslam_cv_matcher/src/match-helpers.cc
+++ b/aslam_cv_matcher/src/match-helpers.cc
@@ -54,6 +54,7 @@ void predictKeypointsByRotation(const VisualFrame& frame_k,
       frame_k.getKeypointMeasurementsOfType(descriptor_type);
 
   if (keypoints_k.cols() == 0u) {
+    predicted_keypoints_kp1->resize(Eigen::NoChange, 0);
     return;
   }
 
-- 
2.43.0


From ac3f6f6c139566e906088a1922f9b3eebcda192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 69/97] fix: additional keypoints for a frame without keypoints

---
 aslam_cv_tracker/src/tracking-helpers.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_tracker/src/tracking-helpers.cc b/aslam_cv_tracker/src/tracking-helpers.cc
index 5425852..efb09a4 100644
--- a/aslam_cv_tracker/src/tracking-helpers.cc
+++ b/aslam_cv_tracker/src/tracking-helpers.cc
@@ -106,7 +106,10 @@ void insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(
   keypointi_scores->conservativeResize(extended_size);
   track_ids->conservativeResize(extended_size);
   keypoint_uncertainties->conservativeResize(extended_size);
-  descriptors->conservativeResize(Eigen::NoChange, extended_size);
+  // The descriptor size of a frame without keypoints is not known.
+  descriptors->conservativeResize(
+      kInitialSize == 0u ? new_cv_descriptors.cols : descriptors->rows(),
+      extended_size);
 
   Eigen::Matrix2Xd new_keypoint_measurements(2, kAdditionalSize);
   Eigen::VectorXd new_keypoint_orientations(kAdditionalSize);
-- 
2.43.0


From 951cee60e88c7c99a037f25908e8c73ff5532d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 70/97] fix: inserting an empty set of keypoints aborts

---
 aslam_cv_tracker/src/tracking-helpers.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_tracker/src/tracking-helpers.cc b/aslam_cv_tracker/src/tracking-helpers.cc
index efb09a4..576da5d 100644
--- a/aslam_cv_tracker/src/tracking-helpers.cc
+++ b/aslam_cv_tracker/src/tracking-helpers.cc
@@ -24,7 +24,7 @@ void insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(
   CHECK_GT(fixed_keypoint_uncertainty_px, 0.0);
   CHECK_EQ(new_cv_keypoints.size(), static_cast<size_t>(new_cv_descriptors.rows));
   CHECK_EQ(new_cv_descriptors.type(), CV_8UC1);
-  CHECK(new_cv_descriptors.isContinuous());
+  CHECK(new_cv_descriptors.empty() || new_cv_descriptors.isContinuous());
 
   const size_t num_new_keypoints = new_cv_keypoints.size();
 
@@ -79,7 +79,7 @@ void insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(
   CHECK_GT(fixed_keypoint_uncertainty_px, 0.0);
   CHECK_EQ(new_cv_keypoints.size(), static_cast<size_t>(new_cv_descriptors.rows));
   CHECK_EQ(new_cv_descriptors.type(), CV_8UC1);
-  CHECK(new_cv_descriptors.isContinuous());
+  CHECK(new_cv_descriptors.empty() || new_cv_descriptors.isContinuous());
 
   const size_t kInitialSize = frame->getTrackIds().size();
   const size_t kAdditionalSize = new_cv_keypoints.size();
-- 
2.43.0


From f7b749a86b2acdd4e405f9d87639c9caaba20013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 71/97] fix: triangulation of points far off the optical axis
 reported unobservable

---
 aslam_cv_triangulation/src/triangulation.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 65d117b..2aedbf1 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -35,8 +35,9 @@ TriangulationResult linearTriangulateFromNViews(
 
   // Fill in A and b.
   for (size_t i = 0; i < measurements_normalized.size(); ++i) {
-    Eigen::Vector3d v(measurements_normalized[i](0),
-        measurements_normalized[i](1), 1.);
+    const Eigen::Vector3d v = Eigen::Vector3d(
+        measurements_normalized[i](0), measurements_normalized[i](1), 1.)
+        .normalized();
     Eigen::Matrix3d R_G_B = T_G_B[i].getRotationMatrix();
     const Eigen::Vector3d& p_G_B = T_G_B[i].getPosition();
     A.block<3, 3>(3 * i, 0) = Eigen::Matrix3d::Identity();
@@ -49,7 +50,7 @@ TriangulationResult linearTriangulateFromNViews(
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
 
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
@@ -129,8 +130,9 @@ TriangulationResult linearTriangulateFromNViewsMultiCam(
   for (size_t i = 0; i < measurements_normalized.size(); ++i) {
     size_t cam_index = measurement_camera_indices[i];
     CHECK_LT(cam_index, T_B_C.size());
-    Eigen::Vector3d v(measurements_normalized[i](0),
-        measurements_normalized[i](1), 1.);
+    const Eigen::Vector3d v = Eigen::Vector3d(
+        measurements_normalized[i](0), measurements_normalized[i](1), 1.)
+        .normalized();
     const Eigen::Vector3d& t_B_C = T_B_C[cam_index].getPosition();
 
     A.block<3, 3>(3 * i, 0) = Eigen::Matrix3d::Identity();
@@ -143,7 +145,7 @@ TriangulationResult linearTriangulateFromNViewsMultiCam(
   static constexpr double kRankLossTolerance = 0.001;
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
-- 
2.43.0


From 33eb128e241b9e272f663af501c6e0754a8ea4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 72/97] fix: Gauss-Newton triangulation uses the inverse of the
 first camera's position

---
 aslam_cv_triangulation/src/triangulation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 2aedbf1..d611b6f 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -181,10 +181,10 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   // Camera frame n: camera frame in which feature was observed for the first time.
   const size_t n = 0;
 
-  // Rotation and position of n-th camera in i-th camera frame.
+  // Rotation of the global frame and position of the n-th camera.
   const aslam::Transformation T_Cn_G = T_B_C.inverse() * T_G_B[n].inverse();
   const Eigen::Matrix3d& R_Cn_G = T_Cn_G.getRotationMatrix();
-  const Eigen::Vector3d& p_G_Cn = T_Cn_G.getPosition();
+  const Eigen::Vector3d p_G_Cn = T_Cn_G.inverse().getPosition();
 
   // Cache matrices that are constant for every iteration.
   Aligned<std::vector, Eigen::Matrix3d> R_Ci_Cn;
-- 
2.43.0


From ce5084d55497b9f7c3dbc49a4c5bcc57b14df0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 73/97] fix: Gauss-Newton triangulation stops early when the
 residual grows

---
 aslam_cv_triangulation/src/triangulation.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index d611b6f..39febb4 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -175,8 +175,7 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   double beta = 0.0;
   double rho = 0.0;
 
-  double residual_norm_last = 1000.0;
-  double residual_norm = 100.0;
+  double update_norm = 1000.0;
 
   // Camera frame n: camera frame in which feature was observed for the first time.
   const size_t n = 0;
@@ -200,9 +199,9 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   }
 
   // [1.] Loop over iterations.
-  // Loop while delta residual too large or number of maximum iterations reached.
+  // Loop while the update is too large, until the maximum number of iterations is reached.
   size_t iter = 0;
-  while (residual_norm_last - residual_norm > kPrecision && iter < kIterMax) {
+  while (update_norm > kPrecision && iter < kIterMax) {
     const size_t num_measurements = 2 * measurements_normalized.size();
     Eigen::VectorXd residuals(num_measurements);
     Eigen::MatrixXd jacobian(num_measurements, 3);
@@ -252,8 +251,7 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
     beta = beta - delta(1);
     rho = rho - delta(2);
 
-    residual_norm_last = residual_norm;
-    residual_norm = residuals.squaredNorm();
+    update_norm = delta.norm();
     ++iter;
   } // Iteration loop.
 
-- 
2.43.0


From a6ededab6943b325b849d96aa6fb36b624014d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 74/97] fix: fast triangulation of a track uses only its last
 observation

---
 aslam_cv_triangulation/src/triangulation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 39febb4..839ebae 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -346,6 +346,7 @@ TriangulationResult fastTriangulateFeatureTrack(
 
     G_bearing_vectors.col(index) = T_W_C.getRotationMatrix() * C_ray;
     p_G_C_vector.col(index) = T_W_C.getPosition();
+    ++index;
   }
 
   VLOG(200) << "Assembled triangulation data.";
-- 
2.43.0


From 0422922dc0bd77cc880f8c5430f138ff736c22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 75/97] fix: triangulation of a track through several cameras
 uses one extrinsic calibration for all

---
 aslam_cv_triangulation/src/triangulation.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 839ebae..e31ef2c 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -272,13 +272,14 @@ TriangulationResult triangulateFeatureTrack(
 
   VLOG(200) << "Triangulating track of length " << track_length;
 
-  const aslam::Camera::ConstPtr& camera = track.getFirstKeypointIdentifier().getCamera();
-  CHECK(camera);
-  aslam::Transformation T_B_C = track.getFirstKeypointIdentifier().get_T_C_B().inverse();
-
-  // Get the normalized measurements for all observations on the track.
+  // Get the normalized measurements for all observations on the track, and the
+  // poses of the cameras that made them.
   Aligned<std::vector, Eigen::Vector2d> normalized_measurements;
   normalized_measurements.reserve(track_length);
+  std::vector<size_t> camera_indices;
+  camera_indices.reserve(track_length);
+  aslam::TransformationVector T_B_Cs;
+  T_B_Cs.reserve(track_length);
 
   for (const aslam::KeypointIdentifier& keypoint_on_track : track.getKeypointIdentifiers()) {
     const aslam::Camera::ConstPtr& camera = keypoint_on_track.getCamera();
@@ -291,6 +292,8 @@ TriangulationResult triangulateFeatureTrack(
     camera->backProject3(keypoint_measurement, &C_ray);
     Eigen::Vector2d normalized_measurement = C_ray.head<2>() / C_ray[2];
     normalized_measurements.push_back(normalized_measurement);
+    camera_indices.push_back(T_B_Cs.size());
+    T_B_Cs.push_back(keypoint_on_track.get_T_C_B().inverse());
   }
 
   VLOG(200) << "Assembled triangulation data.";
@@ -298,11 +301,9 @@ TriangulationResult triangulateFeatureTrack(
   // Triangulate the landmark.
   CHECK_EQ(track_length, normalized_measurements.size());
   CHECK_EQ(track_length, T_W_Bs.size());
-  aslam::TriangulationResult triangulation_result = linearTriangulateFromNViews(
-                                                        normalized_measurements,
-                                                        T_W_Bs,
-                                                        T_B_C,
-                                                        W_landmark);
+  aslam::TriangulationResult triangulation_result =
+      linearTriangulateFromNViewsMultiCam(
+          normalized_measurements, camera_indices, T_W_Bs, T_B_Cs, W_landmark);
 
   VLOG(200) << "Triangulation returned the following result:" << std::endl
           << triangulation_result;
-- 
2.43.0


From 483f587bfdaa485a73485b270d438ccb8205f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 76/97] fix: frame drop detection deletes complete nframes

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..a6d7c7a 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -304,13 +304,20 @@ void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
 
     // Now drop all incomplete nframes up to delete_upto_including_index. All frames below this
     // index will probably never complete as one camera in the rig dropped an image.
+    // The complete nframes among them are moved to the completed_ queue below.
     if (delete_upto_including_index >= 0) {
-      int num_nframes_to_delete = delete_upto_including_index + 1;
+      int num_nframes_to_check = delete_upto_including_index + 1;
+      size_t num_nframes_deleted = 0u;
       auto it_processing = processing_.begin();
-      while (it_processing != processing_.end() && num_nframes_to_delete-- > 0) {
-        it_processing = processing_.erase(it_processing);
+      while (it_processing != processing_.end() && num_nframes_to_check-- > 0) {
+        if (it_processing->second->areAllFramesSet()) {
+          ++it_processing;
+        } else {
+          it_processing = processing_.erase(it_processing);
+          ++num_nframes_deleted;
+        }
       }
-      LOG(WARNING) << "Detected frame drop: removing " << delete_upto_including_index + 1
+      LOG(WARNING) << "Detected frame drop: removing " << num_nframes_deleted
                    << " nframes from the queue.";
     }
 
-- 
2.43.0


From 45629245286b7f0d505d2b075f73cbf839ae5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 77/97] fix: a complete nframe is lost if another one with its
 timestamp waits for retrieval

---
 aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h | 4 ++--
 aslam_cv_pipeline/src/visual-npipeline.cc                   | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h b/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
index c7a135c..95da26d 100644
--- a/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
+++ b/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
@@ -191,8 +191,8 @@ class VisualNPipeline final {
   typedef std::map<int64_t, std::shared_ptr<VisualNFrame>> TimestampVisualNFrameMap;
   /// The frames that are in progress.
   TimestampVisualNFrameMap processing_;
-  /// The output queue of completed frames.
-  TimestampVisualNFrameMap completed_;
+  /// The output queue of completed frames. Several of them may have the same timestamp.
+  std::multimap<int64_t, std::shared_ptr<VisualNFrame>> completed_;
 
   /// A thread pool for processing.
   std::shared_ptr<aslam::ThreadPool> thread_pool_;
diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6d7c7a..edc99e4 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -179,9 +179,8 @@ bool VisualNPipeline::getLatestAndClearBlocking(
         continue;
       }
     }
-    TimestampVisualNFrameMap::const_reverse_iterator nframe_iterator =
-        completed_.rbegin();
-    CHECK(nframe_iterator != completed_.rend());
+    auto nframe_iterator = completed_.crbegin();
+    CHECK(nframe_iterator != completed_.crend());
     *nframe = nframe_iterator->second;
     CHECK(*nframe);
     const int64_t timestamp_nanoseconds = nframe_iterator->first;
-- 
2.43.0


From 403fd833f13336112f11443afa37642abc57e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 78/97] fix: shutdown of the multi-camera pipeline can leave
 blocked calls waiting

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index edc99e4..bbd3fd6 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,12 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    // Without the mutex, a waiter that has just checked the flag would miss the
+    // notification.
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From d5ec69ebed2d01ac03066d048f6723458322f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 79/97] fix: undistortion maps of wide angle cameras flip the
 rays that point backwards

The rays of a unified projection camera may point to the back of the camera
(z < 0). Dividing them by z turned them around, so the border of an undistorted
wide angle image was sampled at the wrong side of the input image.
---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index fc9cb32..f075396 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -192,7 +192,6 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       Eigen::Vector2d keypoint_dist;
       Eigen::Vector3d point_3d;
       output_camera.backProject3(keypoint, &point_3d);
-      point_3d /= point_3d[2];
       input_camera.project3(point_3d, &keypoint_dist);
 
       const double& u = keypoint_dist[0];
-- 
2.43.0


From dad3777c4d2d70f64fd3e1e4cdfc8846d93fc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 80/97] fix: positions beyond the range of fixed point
 undistortion maps wrap around into the image

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index f075396..f674e6f 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -201,8 +201,8 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       if (map_type == CV_16SC2) {
         int iu = cv::saturate_cast<int>(u * cv::INTER_TAB_SIZE);
         int iv = cv::saturate_cast<int>(v * cv::INTER_TAB_SIZE);
-        m1[j * 2] = (short) (iu >> cv::INTER_BITS);
-        m1[j * 2 + 1] = (short) (iv >> cv::INTER_BITS);
+        m1[j * 2] = cv::saturate_cast<short>(iu >> cv::INTER_BITS);
+        m1[j * 2 + 1] = cv::saturate_cast<short>(iv >> cv::INTER_BITS);
         m2[j] = (ushort) ((iv & (cv::INTER_TAB_SIZE - 1)) * cv::INTER_TAB_SIZE
             + (iu & (cv::INTER_TAB_SIZE - 1)));
       } else if (map_type == CV_32FC1) {
-- 
2.43.0


From fac6bd966ed455d73de8990bf9677e40254dbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 81/97] fix: undistorting with alpha 0 leaves an invalid last
 row and column

The border grid ended one pixel beyond the image, so the last row and column of
the output were sampled outside of the input even without any distortion. The
other grid positions were truncated to whole pixels.
---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index f674e6f..4764b16 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -34,8 +34,9 @@ static void getUndistortRectangles(const DerivedCameraType& input_camera, bool u
 
   for (y = k = 0; y < N; y++) {
     for (x = 0; x < N; x++) {
-      Eigen::Vector2d keypoint(x * input_camera.imageWidth()/ (N - 1),
-                               y * input_camera.imageHeight() / (N - 1));
+      // The border of the image are the centers of its outermost pixels.
+      Eigen::Vector2d keypoint(x * (input_camera.imageWidth() - 1.0) / (N - 1),
+                               y * (input_camera.imageHeight() - 1.0) / (N - 1));
 
       // Transform keypoint from image to normalized image plane. (incl. projection effects)
       Eigen::Vector2d keypoint_normalized;
-- 
2.43.0


From e7b77fe383530bcccbcebc238681cf2178dca969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 82/97] fix: size of the undistorted image disagrees between
 camera and projection matrix

The output camera is sized with a single precision product and the projection
matrix with a double precision one. For scales like 1.05f they differ by a pixel
and the last row or column of the output falls outside of the input.
---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index 4764b16..ced7c38 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -125,8 +125,10 @@ Eigen::Matrix3d getOptimalNewCameraMatrix(const DerivedCameraType& input_camera,
   CHECK_GE(alpha, 0.0); CHECK_LE(alpha, 1.0);
   CHECK_GT(scale, 0.0);
 
-  cv::Size output_size(static_cast<int>(scale * input_camera.imageWidth()),
-                       static_cast<int>(scale * input_camera.imageHeight()));
+  // Single precision as in the creation of the output camera, so that both get the same size.
+  const float output_scale = static_cast<float>(scale);
+  cv::Size output_size(static_cast<int>(output_scale * input_camera.imageWidth()),
+                       static_cast<int>(output_scale * input_camera.imageHeight()));
 
   // Get inscribed and circumscribed rectangles in normalized
   cv::Rect_<float> inner, outer;
-- 
2.43.0


From 193889748688ae3af9af69f4777abd2e8105498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 83/97] fix: nearest neighbor undistortion samples the wrong
 pixel

cv::remap adds a pixel to the positions of fixed-point maps whose fraction is
below one half instead of above, so every sample was up to one pixel off.
---
 .../include/aslam/pipeline/undistorter-mapped.h    |  2 ++
 aslam_cv_pipeline/src/undistorter-mapped.cc        | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h b/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h
index 384902d..b824b63 100644
--- a/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h
+++ b/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped.h
@@ -87,6 +87,8 @@ private:
   const cv::Mat map_u_;
   /// \brief LUT for v coordinates.
   const cv::Mat map_v_;
+  /// \brief LUT of whole pixels for the nearest neighbor interpolation of fixed-point maps.
+  cv::Mat map_nearest_;
   /// \brief Interpolation strategy
   InterpolationMethod interpolation_method_;
 };
diff --git a/aslam_cv_pipeline/src/undistorter-mapped.cc b/aslam_cv_pipeline/src/undistorter-mapped.cc
index a572b73..f52dbce 100644
--- a/aslam_cv_pipeline/src/undistorter-mapped.cc
+++ b/aslam_cv_pipeline/src/undistorter-mapped.cc
@@ -54,12 +54,26 @@ MappedUndistorter::MappedUndistorter(Camera::Ptr input_camera, Camera::Ptr outpu
   CHECK_EQ(static_cast<size_t>(map_u_.cols), output_camera->imageWidth());
   CHECK_EQ(static_cast<size_t>(map_v_.rows), output_camera->imageHeight());
   CHECK_EQ(static_cast<size_t>(map_v_.cols), output_camera->imageWidth());
+
+  if (interpolation_method_ == aslam::InterpolationMethod::NearestNeighbor &&
+      map_u_.type() == CV_16SC2) {
+    // cv::remap does not round the fractions of fixed-point maps to the nearest pixel; it needs a
+    // map of whole pixels.
+    cv::Mat u, v, unused;
+    cv::convertMaps(map_u_, map_v_, u, v, CV_32FC1);
+    cv::convertMaps(u, v, map_nearest_, unused, CV_16SC2, true);
+  }
 }
 
 void MappedUndistorter::processImage(const cv::Mat& input_image, cv::Mat* output_image) const {
   CHECK_EQ(input_camera_->imageWidth(), static_cast<size_t>(input_image.cols));
   CHECK_EQ(input_camera_->imageHeight(), static_cast<size_t>(input_image.rows));
   CHECK_NOTNULL(output_image);
+  if (!map_nearest_.empty()) {
+    cv::remap(input_image, *output_image, map_nearest_, cv::Mat(),
+              static_cast<int>(interpolation_method_));
+    return;
+  }
   cv::remap(input_image, *output_image, map_u_, map_v_, static_cast<int>(interpolation_method_));
 }
 
-- 
2.43.0


From cf1964507e01aaf5149048eea9fda7c92b939e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 84/97] fix: comparison of multi-channel images only looks at
 their first columns

---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index 1699645..72dc619 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -54,8 +54,8 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
   for (int r = 0; r < A.rows; ++r) {
     for (int c = 0; c < A.cols; ++c) {
       for(int ch = 0; ch < A.channels(); ++ch) {
-        Scalar Aij = (&A.at<Scalar>(r, c))[ch];
-        Scalar Bij = (&B.at<Scalar>(r, c))[ch];
+        const Scalar Aij = A.ptr<Scalar>(r)[c * A.channels() + ch];
+        const Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
             !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
-- 
2.43.0


From d7d9692d4aa12c07138f81860a816674e2e20fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 85/97] fix: image comparison ignores the tolerance of integer
 images

The documented absolute tolerance was applied relative to the values of floating
point images and not at all to integer images.
---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index 72dc619..fa3b254 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -58,7 +58,7 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
         const Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
-            !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
+            std::abs(static_cast<double>(Aij) - static_cast<double>(Bij)) > tolerance) {
           spy_difference << "x";
           if (A.rows == 1) {
             failure_reason <<
-- 
2.43.0


From d08cfd3ed988bc8c461a169c205ee1476445d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 86/97] fix: count the match that starts a track in the status
 track length

The track ids of frame (k-1) are stored before the matches to frame k are
applied, so the first match of a keypoint was not recognised and a detected
keypoint had to be matched twice before optical flow took it over, contrary to
gyro_lk_track_detected_threshold.
---
 .../include/aslam/tracker/feature-tracker-gyro.h   |  2 ++
 aslam_cv_tracker/src/feature-tracker-gyro.cc       | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h b/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
index 3e03e30..e85aa4e 100644
--- a/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
+++ b/aslam_cv_tracker/include/aslam/tracker/feature-tracker-gyro.h
@@ -147,6 +147,8 @@ class GyroTracker : public FeatureTracker{
   bool initialized_;
   // Store track IDs of frame k and (k-1) in that order.
   std::deque<TrackIds> track_ids_k_km1_;
+  /// Matches between frame k and (k-1) as returned by the last call.
+  FrameToFrameMatches matches_k_km1_;
   /// Keep feature status for every index. For frames k and km1 in that order.
   std::deque<FrameFeatureStatus> feature_status_k_km1_;
   /// Keep status track length of frame (k-1) for every index.
diff --git a/aslam_cv_tracker/src/feature-tracker-gyro.cc b/aslam_cv_tracker/src/feature-tracker-gyro.cc
index 211bb5b..38a5390 100644
--- a/aslam_cv_tracker/src/feature-tracker-gyro.cc
+++ b/aslam_cv_tracker/src/feature-tracker-gyro.cc
@@ -147,6 +147,7 @@ void GyroTracker::track(const Quaternion& q_Ckp1_Ck,
                lk_candidate_indices_k, frame_k, frame_kp1, matches_kp1_k);
 
     status_track_length_km1_.swap(status_track_length_k);
+    matches_k_km1_ = *matches_kp1_k;
     initialized_ = true;
   }
 }
@@ -322,7 +323,18 @@ void GyroTracker::computeTrackedMatches(
     const int track_id_k = track_ids_k_eigen(index_k);
     // Skip invalid track IDs.
     if (track_id_k == -1) continue;
-    const int index_km1 = GetIndexOfValue(track_ids_km1, track_ids_k_eigen(index_k));
+    int index_km1 = GetIndexOfValue(track_ids_km1, track_ids_k_eigen(index_k));
+    if (index_km1 < 0) {
+      // The IDs of frame (k-1) were stored before its matches to frame k were
+      // known. A keypoint that had no ID then starts its track with the match.
+      for (const FrameToFrameMatch& match : matches_k_km1_) {
+        if (match.getKeypointIndexInFrameA() == index_k &&
+            track_ids_km1_eigen(match.getKeypointIndexInFrameB()) == -1) {
+          index_km1 = match.getKeypointIndexInFrameB();
+          break;
+        }
+      }
+    }
     if (index_km1 >= 0) {
       tracked_matches->emplace_back(index_k, index_km1);
     }
-- 
2.43.0


From bac958b70d4f24719b305b44c0cda46ddf87823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 87/97] fix: hold all six sampled points of a 3D registration
 hypothesis

The comma initialiser wrote six columns into 3x3 matrices.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index e1f9e03..f7325e1 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -364,7 +364,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
 
     // Generate transformation matrix.
     // https://igl.ethz.ch/projects/ARAP/svd_rot.pdf
-    Eigen::Matrix3d X, Y;
+    Eigen::Matrix<double, 3, 6> X, Y;
     X << point_set_1[ransac_indices[0]], point_set_1[ransac_indices[1]],
         point_set_1[ransac_indices[2]], point_set_1[ransac_indices[3]],
         point_set_1[ransac_indices[4]], point_set_1[ransac_indices[5]];
-- 
2.43.0


From becd8aaa71f15784961c923dd19ec3de23b620d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 88/97] fix: report failure for fewer than six 3D
 correspondences

The number of coefficients was compared, so two to six points aborted.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index f7325e1..eda3d76 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -296,7 +296,7 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
   const std::size_t n_measurements = measurements.cols();
   CHECK_EQ(n_measurements, G_landmark_positions.cols())
       << "Measurements and landmarks are not in pairs.";
-  if (measurements.size() < 6) {
+  if (n_measurements < 6u) {
     return false;
   }
 
@@ -350,7 +350,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   const std::size_t n_point_set_1 = point_set_1.size();
   const std::size_t n_point_set_2 = point_set_2.size();
   CHECK_EQ(n_point_set_1, n_point_set_2);
-  CHECK_GT(n_point_set_2, 6u);
+  CHECK_GE(n_point_set_2, 6u);
 
   std::vector<std::size_t> outliers;
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
-- 
2.43.0


From cb9a9b4ccf05b56bd93eec6a354ce6516e1369bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 89/97] fix: keep the best hypothesis of a 3D registration

The inliers of every hypothesis overwrote the best ones, so that no
hypothesis was ever better and the transformation stayed uninitialised.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index eda3d76..ded8737 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -352,6 +352,12 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   CHECK_EQ(n_point_set_1, n_point_set_2);
   CHECK_GE(n_point_set_2, 6u);
 
+  best_inliers->clear();
+  best_outliers->clear();
+  best_rotation_matrix->setIdentity();
+  best_translation->setZero();
+
+  std::vector<int> inliers;
   std::vector<std::size_t> outliers;
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
     // Generate 6 unique random indices for Ransac.
@@ -391,7 +397,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
 
     // Calculate Outliers for Transformation
     outliers.clear();
-    best_inliers->clear();
+    inliers.clear();
 
     for (std::size_t i = 0u; i < n_point_set_1; ++i) {
       const Eigen::Vector3d transformation_error =
@@ -400,12 +406,13 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
           ransac_threshold) {
         outliers.emplace_back(i);
       } else {
-        best_inliers->emplace_back(i);
+        inliers.emplace_back(i);
       }
     }
     // Compare results
-    const std::size_t n_inliers = best_inliers->size();
+    const std::size_t n_inliers = inliers.size();
     if (n_inliers > best_inliers->size()) {
+      *best_inliers = inliers;
       *best_outliers = outliers;
       *best_rotation_matrix = R;
       *best_translation = t;
-- 
2.43.0


From b4731c60b29ee5899665e2a48bfc89d77b081ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 90/97] fix: compare the actual inlier ratio with the stopping
 ratio

The integer division only knew the ratios zero and one.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index ded8737..fce173a 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -417,7 +417,8 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
       *best_rotation_matrix = R;
       *best_translation = t;
     }
-    const double inlier_ratio = n_inliers / (n_inliers + outliers.size());
+    const double inlier_ratio =
+        static_cast<double>(n_inliers) / (n_inliers + outliers.size());
     if (inlier_ratio > pnp_3d_ransac_stopping_ratio) {
       break;
     }
-- 
2.43.0


From 84228e7b6a4615b347920fc3703028433dda06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 91/97] fix: return the estimated pose of a 3D registration

The rotation was assigned to a temporary, and the translation was that of the
inverse transformation.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index fce173a..c35e7d9 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -321,8 +321,9 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
       &ransac_rotation_matrix, &ransac_translation, inliers, &ransac_outliers);
 
   // Set result.
-  T_G_I->getPosition() = ransac_translation;
-  T_G_I->getRotationMatrix() = ransac_rotation_matrix;
+  // The estimate maps the landmarks in frame G to the observations in frame I.
+  *T_G_I = aslam::Transformation(
+      aslam::Quaternion(ransac_rotation_matrix), ransac_translation).inverse();
   for (const int& inlier : *inliers) {
     inlier_distances_to_model->emplace_back(
         (ransac_rotation_matrix * landmarks[inlier] + ransac_translation -
-- 
2.43.0


From 19aaaab2d900ae885d0bf5507a7c6d019e6024b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 92/97] fix: place 3D measurements with the camera that made
 them

All measurements were treated as those of the first camera of the rig.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index c35e7d9..e083389 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -296,21 +296,20 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac3DFeatures(
   const std::size_t n_measurements = measurements.cols();
   CHECK_EQ(n_measurements, G_landmark_positions.cols())
       << "Measurements and landmarks are not in pairs.";
+  CHECK_EQ(n_measurements, measurement_camera_indices.size());
   if (n_measurements < 6u) {
     return false;
   }
 
-  const aslam::Transformation& T_C_B = ncamera_ptr->get_T_C_B(0);
-  const aslam::Transformation T_B_C = T_C_B.inverse();
-  const Eigen::Matrix3d& R_B_C = T_B_C.getRotationMatrix();
-  const Eigen::Vector3d& p_B_C = T_B_C.getPosition();
-
   std::vector<Eigen::Vector3d> landmarks;
   std::vector<Eigen::Vector3d> observations;
 
   for (std::size_t i = 0u; i < n_measurements; ++i) {
+    const aslam::Transformation T_B_C =
+        ncamera_ptr->get_T_C_B(measurement_camera_indices[i]).inverse();
     landmarks.emplace_back(G_landmark_positions.col(i));
-    observations.emplace_back(R_B_C * measurements.col(i) + p_B_C);
+    observations.emplace_back(
+        T_B_C.getRotationMatrix() * measurements.col(i) + T_B_C.getPosition());
   }
   Eigen::Matrix3d ransac_rotation_matrix;
   Eigen::Vector3d ransac_translation;
-- 
2.43.0


From ecea14b893a40d5dac6e27ab7bcb0d02ae373b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 93/97] fix: seed the 3D registration once and only if
 requested

With a fixed seed it was seeded with the time, in every iteration, so that all
hypotheses of one second sampled the same points.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index e083389..030b1de 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -357,13 +357,13 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
   best_rotation_matrix->setIdentity();
   best_translation->setZero();
 
+  if (random_seed_) {
+    std::srand(time(0));
+  }
   std::vector<int> inliers;
   std::vector<std::size_t> outliers;
   for (std::size_t j = 0u; j < ransac_max_iterations; ++j) {
     // Generate 6 unique random indices for Ransac.
-    if (!random_seed_) {
-      std::srand(time(0));
-    }
     std::vector<std::size_t> ransac_indices(n_point_set_1);
     std::iota(ransac_indices.begin(), ransac_indices.end(), 0);
     std::random_shuffle(ransac_indices.begin(), ransac_indices.end());
-- 
2.43.0


From 6f77ccc59156a1fa521f41d9c04f5eb5a5203caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 94/97] fix: compute the full SVD of the fixed-size correlation
 matrix

Eigen offers thin factors for matrices of dynamic size only and aborted.
---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index 030b1de..8881456 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -386,7 +386,7 @@ void PnpPoseEstimator::ransacTransformationFor3DPoints(
 
     const Eigen::Matrix3d S = X * Y.transpose();
     const Eigen::JacobiSVD<Eigen::Matrix3d> svd(
-        S, Eigen::ComputeThinU | Eigen::ComputeThinV);
+        S, Eigen::ComputeFullU | Eigen::ComputeFullV);
 
     Eigen::Matrix3d reflection_handler = Eigen::Matrix3d::Identity();
     reflection_handler(2, 2) =
-- 
2.43.0


From 901979b4116862cfd9f2262b07ef5479c3a50e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 95/97] fix: keep the FREAK detector and extractor alive

---
 aslam_cv_pipeline/src/visual-pipeline-freak.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-pipeline-freak.cc b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
index 6b35c32..313ac4c 100644
--- a/aslam_cv_pipeline/src/visual-pipeline-freak.cc
+++ b/aslam_cv_pipeline/src/visual-pipeline-freak.cc
@@ -54,10 +54,14 @@ void FreakVisualPipeline::initializeFreak(size_t num_octaves,
   scale_invariant_ = scale_invariant;
   pattern_scale_ = pattern_scale;
 
-  detector_.reset(cv::xfeatures2d::SurfFeatureDetector::create(
-      hessian_threshold_, octaves_, num_octave_layers_).get());
-  extractor_.reset(cv::xfeatures2d::FREAK::create(
-      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_).get());
+  // The OpenCV pointers own the objects and have to live as long as the users.
+  const cv::Ptr<cv::Feature2D> detector =
+      cv::xfeatures2d::SurfFeatureDetector::create(
+          hessian_threshold_, octaves_, num_octave_layers_);
+  detector_.reset(detector.get(), [detector](cv::Feature2D*) {});
+  const cv::Ptr<cv::Feature2D> extractor = cv::xfeatures2d::FREAK::create(
+      rotation_invariant_, scale_invariant_, pattern_scale_, octaves_);
+  extractor_.reset(extractor.get(), [extractor](cv::Feature2D*) {});
 }
 
 void FreakVisualPipeline::processFrameImpl(const cv::Mat& image, VisualFrame* frame) const {
-- 
2.43.0


From 7bb9876351e7e676c4d9b6ab9197da51ad970fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 96/97] fix: decoding an image into a view writes across its
 rows

---
 aslam_cv_common/src/channel-serialization.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index ba8989e..bb8286d 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -128,6 +128,10 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
   int type = CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels);
+  if (!image->isContinuous()) {
+    // Do not write across the gaps between the rows of a view.
+    image->release();
+  }
   // http://docs.opencv.org/modules/core/doc/basic_structures.html#mat-create
   // Create should only allocate if necessary.
   image->create(header.rows, header.cols, type);
-- 
2.43.0


From 051bdb5a3240bcf336d98ecd3bbe75ce8faa73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:08 +0000
Subject: [PATCH 97/97] fix: matrices of bytes do not survive a YAML round trip

---
 .../aslam/common/yaml-serialization-eigen.h   | 51 ++++++++++++++++---
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index c41ad71..5890265 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -1,11 +1,50 @@
 #ifndef ASLAM_CV_COMMON_EIGEN_YAML_SERIALIZATION_H_
 #define ASLAM_CV_COMMON_EIGEN_YAML_SERIALIZATION_H_
 
+#include <limits>
+
 #include <Eigen/Core>
 #include <glog/logging.h>
 #include <yaml-cpp/yaml.h>
 
 namespace YAML {  // This has to be in the same namespace as the Emitter.
+namespace internal {
+// The coefficients of matrices of bytes are numbers, which yaml-cpp would write
+// as characters.
+template <typename Scalar>
+inline const Scalar& toYamlNumber(const Scalar& value) {
+  return value;
+}
+inline int toYamlNumber(const signed char value) {
+  return value;
+}
+inline int toYamlNumber(const unsigned char value) {
+  return value;
+}
+
+template <typename Scalar>
+struct YamlNumber {
+  static Scalar read(const Node& node) {
+    return node.as<Scalar>();
+  }
+};
+template <typename Byte>
+struct YamlByte {
+  static Byte read(const Node& node) {
+    const int value = node.as<int>();
+    if (value < std::numeric_limits<Byte>::min() ||
+        value > std::numeric_limits<Byte>::max()) {
+      throw TypedBadConversion<Byte>(node.Mark());
+    }
+    return static_cast<Byte>(value);
+  }
+};
+template <>
+struct YamlNumber<signed char> : YamlByte<signed char> {};
+template <>
+struct YamlNumber<unsigned char> : YamlByte<unsigned char> {};
+}  // namespace internal
+
 // yaml serialization helper function for the Eigen3 Matrix object.
 // The matrix is a base class for dense matrices.
 // http://eigen.tuxfamily.org/dox-devel/TutorialMatrixClass.html
@@ -27,13 +66,13 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         ith_row << YAML::Flow;
         ith_row << YAML::BeginSeq;
         for (IndexType j = 0; j < cols; ++j) {
-          ith_row << M(i, j);
+          ith_row << internal::toYamlNumber(M(i, j));
         }
         ith_row << YAML::EndSeq;
         CHECK(ith_row.good()) << "Emitter error: " << ith_row.GetLastError();
         node["data"].push_back(YAML::Load(ith_row.c_str()));
       } else {
-        node["data"].push_back(M(i, 0));
+        node["data"].push_back(internal::toYamlNumber(M(i, 0)));
       }
     }
     return node;
@@ -96,9 +135,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
           CHECK(it != it_end);
           if (it->IsSequence()) {
             CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
-            M(i, j) = it->begin()->as<Scalar>();
+            M(i, j) = internal::YamlNumber<Scalar>::read(*it->begin());
           } else {
-            M(i, j) = it->as<Scalar>();
+            M(i, j) = internal::YamlNumber<Scalar>::read(*it);
           }
           ++it;
         }
@@ -120,13 +159,13 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
 
           for (IndexType j = 0; j < cols; ++j) {
             CHECK(col_it != col_it_end);
-            M(i, j) = col_it->as<Scalar>();
+            M(i, j) = internal::YamlNumber<Scalar>::read(*col_it);
             ++col_it;
           }
         } else {
           CHECK(cols == 1) << "Wrong dimension of Eigen-type matrix! Expected "
                            << cols << " columns, but provided " << 1;
-          M(i, 0) = it->as<Scalar>();
+          M(i, 0) = internal::YamlNumber<Scalar>::read(*it);
         }
         ++it;
       }
-- 
2.43.0

