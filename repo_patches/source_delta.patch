From 8f18de04d223e855bd7a8c99724a82bf36ef1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 01/69] fix: encode and decode the smallest signed integer and
 8-bit integers

The magnitude of the minimum value does not fit in the signed type, so its
encoding decoded to another number; 8-bit values were read as characters.
---
 include/utils/elen.hpp |  2 ++
 include/utils/elen.tpp | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/utils/elen.hpp b/include/utils/elen.hpp
index 53861b0..7625432 100644
--- a/include/utils/elen.hpp
+++ b/include/utils/elen.hpp
@@ -6,11 +6,13 @@
 // https://github.com/jordanorelli/lexnum
 
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 
 #include "utils/type_traits.hpp"
 
diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 14b977a..f185922 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -42,7 +42,8 @@ template <typename T,
           typename Cond>
 std::string integers(const T value, const char neg, const char pos) {
     if (value < 0) {
-        return unique<T, Cond>(-value, neg, neg, pos);
+        // the magnitude of the smallest value does not fit in T
+        return unique<std::uintmax_t, std::true_type>(0 - static_cast<std::uintmax_t>(value), neg, neg, pos);
     }
     else if (value > 0) {
         return unique<T, Cond>(value, pos, neg, pos);
@@ -275,13 +276,20 @@ T integers(const std::string &str, std::size_t* prefix_len, const char neg, cons
         *prefix_len = position + len;
     }
 
-    // read the final value
-    T out = next<T, std::true_type>(prefix, str, position, len, neg);
-    if (prefix == neg) {
-        out = -out;
+    // read the magnitude of the final value
+    // (reading into T directly would not be able to hold the smallest
+    // value, and would read a character instead of a number for 8-bit types)
+    const std::uintmax_t magnitude = next<std::uintmax_t, std::true_type>(prefix, str, position, len, neg);
+    std::uintmax_t limit = static_cast<std::uintmax_t>(std::numeric_limits<T>::max());
+    if (std::is_signed<T>::value && (prefix == neg)) {
+        limit++;
     }
 
-    return out;
+    if (magnitude > limit) {
+        throw std::invalid_argument(ERROR_PREFIX + "Decode Integer: Value is out of range: " + str);
+    }
+
+    return static_cast<T>((prefix == neg)?(0 - magnitude):magnitude);
 }
 
 // Chapter 4 Small Decimals
-- 
2.43.0


From 5c39529fde14447b8050f1872d108353fdf7b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 02/69] fix: elen of very large, denormal and near-1 values;
 histogram bounds and bin counts

- powers of ten beyond the range of the type decoded to inf or encoded garbage
- small decimals that round up to 1 were encoded as 0
- the histogram upper bound was wrong for data without positive values
- Scott's rule and log-n produced negative, NaN or infinite bin counts
- a retried bucket generation read past the cached values
---
 include/utils/elen.tpp  | 11 +++++++++--
 src/utils/Histogram.cpp | 15 +++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index f185922..3af2154 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -70,6 +70,11 @@ std::string small_decimals_digits(const T value, const int precision) {
     std::string out;
     s >> out;
 
+    // the largest value with this precision is used instead of rounding up to 1
+    if (tmp[0] != '0') {
+        out.assign(out.size(), '9');
+    }
+
     // negatives get their digits flipped
     if (value < 0) {
         flip(out);
@@ -144,7 +149,8 @@ template <typename R, typename Z, typename = enable_if_t<std::is_arithmetic<R>::
                                                          std::is_integral<Z>::value> >
 R frexp10(const R arg, Z *exp) {
     *exp = (arg == 0) ? 0 : (Z)(1 + std::round(std::log10(std::fabs(arg))));
-    return arg * pow(10 , -(*exp));
+    // the power of ten does not always fit in R
+    return arg * std::pow((long double) 10, -(*exp));
 }
 
 // Chapter 6 Floating Pointer Numbers
@@ -442,7 +448,8 @@ T floating_point(const std::string &str, const char neg, const char pos) {
         mantissa = small_decimals<T, std::true_type>(sign + wo_sign.substr(position, wo_sign.size() - position), neg, pos);
     }
 
-    return std::pow(10, ((sign == neg)?-1:1) * exp) * mantissa;
+    // the power of ten does not always fit in T
+    return std::pow((long double) 10, ((sign == neg)?-1:1) * exp) * mantissa;
 }
 
 }
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index cca9aba..bffa5aa 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -31,11 +32,17 @@ static int minmax(const double *values, const std::size_t len, double &min, doub
     return HISTOGRAM_SUCCESS;
 }
 
-static int generate_using_bin_count(const double &min, const double &max, const std::size_t bin_count, double **buckets, size_t *size) {
+static int generate_using_bin_count(const double &min, const double &max, const double &bins_needed, double **buckets, size_t *size) {
     if (!buckets || !size) {
         return HISTOGRAM_ERROR;
     }
 
+    // data without any spread only has enough information for one bin
+    const std::size_t bin_count = (bins_needed >= 1)?((bins_needed < std::numeric_limits<uint32_t>::max())?bins_needed:0):1;
+    if (!bin_count) {
+        return HISTOGRAM_ERROR;
+    }
+
     double *bins = alloc_array<double>(bin_count + 1);
 
     // generate the left ends of the buckets
@@ -136,7 +143,7 @@ int histogram_scotts_normal_reference_rule(const double *first_n, const size_t n
     // width of a bin
     const double h = 3.5 * stdev / std::cbrt(n);
 
-    return generate_using_bin_count(min, max, (min - max) / h, buckets, size);
+    return generate_using_bin_count(min, max, (max - min) / h, buckets, size);
 }
 
 int histogram_uniform_logn(const double *first_n, const size_t n, double **buckets, size_t *size, void *extra) {
@@ -212,13 +219,13 @@ int Histogram::Histogram::add(const double &value) {
     if (count_ >= first_n_) {
         if (!buckets_) {
             // generate the buckets and allocate space for the counts
-            if ((gen_(cache_, count_, &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
+            if ((gen_(cache_, std::min(count_, first_n_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
                 return HISTOGRAM_ERROR;
             }
 
             // initialize the upper bound
-            buckets_[size_] = std::numeric_limits<double>::min();
+            buckets_[size_] = std::numeric_limits<double>::lowest();
 
             // insert original data
             for(std::size_t i = 0; i < first_n_; i++) {
-- 
2.43.0


From 0521869cd22dc96a832bc102935ac959ed4d6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 03/69] fix: negative numbers with an exponent starting with 9,
 empty blobs, histograms without buckets

- the flipped exponent digit 9 was taken for the exponent 0
- an empty blob was not packed although it was unpacked
- unpacking kept an initial-value cache of the wrong size
---
 include/utils/elen.tpp  | 3 ++-
 src/utils/Blob.cpp      | 8 ++++++--
 src/utils/Histogram.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/utils/elen.tpp b/include/utils/elen.tpp
index 3af2154..868c1df 100644
--- a/include/utils/elen.tpp
+++ b/include/utils/elen.tpp
@@ -423,7 +423,8 @@ T floating_point(const std::string &str, const char neg, const char pos) {
     std::size_t position = prefix_count;
 
     // only decode exponent portion if the exponent is not 0
-    if (wo_sign[position] != '0') {
+    // (only 0 is encoded without a prefix; the first digit can be a flipped 9)
+    if (prefix_count) {
         // read the encoded lengths
         position = prefix_count;
         std::size_t len = 1;
diff --git a/src/utils/Blob.cpp b/src/utils/Blob.cpp
index 78990cb..722701e 100644
--- a/src/utils/Blob.cpp
+++ b/src/utils/Blob.cpp
@@ -112,14 +112,18 @@ void Blob::dealloc() {
 // the blob argument is assumed to be defined and large enough to fit the data
 // (length is not known)
 char *Blob::pack(char *&dst, const bool include_type) const {
-    if (!dst || !ptr) {
+    // empty blobs still have to be packed
+    // because their space has been counted and they will be unpacked
+    if (!dst || (!ptr && len)) {
         return nullptr;
     }
 
     little_endian::encode(dst, len);
     dst += sizeof(len);
 
-    memcpy(dst, ptr, len);
+    if (len) {
+        memcpy(dst, ptr, len);
+    }
     dst += len;
 
     if (include_type) {
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index bffa5aa..a0890f6 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -495,8 +495,11 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     memcpy(&first_n_, curr, sizeof(first_n_));
     curr += sizeof(first_n_);
 
+    // the existing cache might be too small for the new first_n_
+    dealloc_array(cache_);
+    cache_ = nullptr;
+
     if (count_ < first_n_) {
-        dealloc_array(cache_);
         cache_ = alloc_array<double>(first_n_);
 
         for(std::size_t i = 0; i < count_; i++) {
-- 
2.43.0


From 90b0d0fcff36dd06fed0d4e93d98dae0c1fc2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 04/69] fix: GETOP EQ returned an unrelated record when no key
 has the prefix

---
 src/datastore/InMemory.cpp | 3 ++-
 src/datastore/LevelDB.cpp  | 6 ++++--
 src/datastore/RocksDB.cpp  | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 68a31c3..705e5d3 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -199,7 +199,8 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
                 it = db.lower_bound(std::string((const char *) key.data(), prefix_len));
 
-                if (it != db.end()) {
+                if ((it != db.end()) &&
+                    (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, 0, event);
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 734c397..f1fb540 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::leveldb::Slice((char *) key.data(), prefix_len));
+                const ::leveldb::Slice prefix((char *) key.data(), prefix_len);
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bc47284..4b75b32 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -242,9 +242,11 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
 
         if (res->statuses[i] == DATASTORE_UNSET) {
             if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_EQ) {
-                it->Seek(::rocksdb::Slice((char *) key.data(), prefix_len));
+                const ::rocksdb::Slice prefix((char *) key.data(), prefix_len);
 
-                if (it->Valid()) {
+                it->Seek(prefix);
+
+                if (it->Valid() && it->key().starts_with(prefix)) {
                     // only 1 response, so j == 0 (num_recs is ignored)
                     this->template BGetOp_copy_response(callbacks,
                                                         it->key(), it->value(),
-- 
2.43.0


From a34062d380f7f03b68453746bda382ed5bfa30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 05/69] fix: in-memory GETOP LAST on an empty datastore stepped
 before the first key

---
 src/datastore/InMemory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 705e5d3..302014e 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -257,10 +257,10 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_LAST) {
                 // ignore key
-                it = db.end();
-                it--;
+                if (!db.empty()) {
+                    it = db.end();
+                    it--;
 
-                if (it != db.end()) {
                     for(std::size_t j = 0; j < req->num_recs[i]; j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         if (it == db.begin()) {
-- 
2.43.0


From 36d35118b316c7e02378c658d22f4a24b3eba34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 06/69] fix: GETOPs that find nothing return one ERROR result
 instead of freed or out of bounds records

---
 src/datastore/InMemory.cpp  |  6 ++++--
 src/datastore/LevelDB.cpp   |  6 ++++--
 src/datastore/RocksDB.cpp   |  6 ++++--
 src/datastore/datastore.cpp | 23 ++++++++++++++++-------
 src/hxhim/Results.cpp       |  2 +-
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 302014e..d79a2b1 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -336,10 +336,12 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
         }
 
         // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // as long as it found something
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index f1fb540..978280b 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -379,10 +379,12 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
         }
 
         // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // as long as it found something
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 4b75b32..83cb2f0 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -379,10 +379,12 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
         }
 
         // if the status is still DATASTORE_UNSET, the operation succeeded
-        if (res->statuses[i] == DATASTORE_UNSET) {
+        // as long as it found something
+        if ((res->statuses[i] == DATASTORE_UNSET) && res->num_recs[i]) {
             res->statuses[i] = DATASTORE_SUCCESS;
         }
-        else /* if (res->statuses[i] == DATASTORE_ERROR) */ {
+        else {
+            res->statuses[i] = DATASTORE_ERROR;
             BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
         }
 
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 261cbbc..504d327 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -451,9 +451,12 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     // does not modify serialized size
     // set status early so failures during copy will change the status
     // all responses for this Op share a status
-    res->add(alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
-             alloc_array<Blob>(req->num_recs[i]),
+    // there is always space for at least one record, since
+    // EQ ignores num_recs and errors return the original request
+    const std::size_t max_recs = req->num_recs[i]?req->num_recs[i]:1;
+    res->add(alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
+             alloc_array<Blob>(max_recs),
              0,
              DATASTORE_UNSET);
 
@@ -520,10 +523,16 @@ void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
                                                  Datastore::Datastore::Stats::Event &event) {
-    std::size_t &index = res->num_recs[i];
-    res->subjects[i][index]   = std::move(subject);
-    res->predicates[i][index] = std::move(predicate);
-    index++;
+    // drop records that were copied before the error occurred
+    for(std::size_t j = 0; j < res->num_recs[i]; j++) {
+        res->subjects[i][j]   = Blob();
+        res->predicates[i][j] = Blob();
+        res->objects[i][j]    = Blob();
+    }
+
+    res->subjects[i][0]   = std::move(subject);
+    res->predicates[i][0] = std::move(predicate);
+    res->num_recs[i] = 1;
 
     event.size += subject.pack_size(true) + predicate.pack_size(true);
 }
diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 1e6a510..3e89cc9 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -197,8 +197,8 @@ hxhim::Result::GetOp *hxhim::Result::init(hxhim_t *hx, Message::Response::BGetOp
     // drop last item (empty)
     if (prev) {
         prev->next = nullptr;
+        destruct(curr);
     }
-    destruct(curr);
 
     return top;
 }
-- 
2.43.0


From 1524a0a1423b8d6c784c05fd6afa4ad95b65bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 07/69] fix: GETOP HIGHEST starts at the last key with the
 prefix

---
 include/datastore/datastore.hpp |  5 +++++
 src/datastore/InMemory.cpp      | 21 +++++++++-----------
 src/datastore/LevelDB.cpp       | 11 +++++++----
 src/datastore/RocksDB.cpp       | 11 +++++++----
 src/datastore/datastore.cpp     | 35 +++++++++++++++++++++++++++++++++
 5 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index 3578d86..b800990 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -157,6 +157,11 @@ class Datastore {
                                     std::size_t predicate_len,
                                     hxhim_data_t predicate_type);
 
+        std::string BGetOp_get_seek_end(const Blob &key,
+                                        std::size_t prefix_len,
+                                        std::size_t predicate_len,
+                                        hxhim_data_t predicate_type);
+
         template <typename Key_t, typename Value_t>
         static void BGetOp_copy_response(Transform::Callbacks *callbacks,
                                          const Key_t &key,
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index d79a2b1..54c3990 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -283,7 +283,7 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
                         (it != db.end()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
                         it++;
@@ -294,28 +294,25 @@ Message::Response::BGetOp *Datastore::InMemory::BGetOpImpl(Message::Request::BGe
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
 
                 // find first key larger than the prefix
-                it = db.upper_bound(seek);
+                it = seek.size()?db.lower_bound(seek):db.end();
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it != db.end()) {
+                if (it != db.begin()) {
                     it--;
-                }
-                else {
-                    it = db.rbegin().base();
-                }
 
-                if (it != db.end()) {
                     // walk backwards to get values
                     for(std::size_t j = 0;
                         (j < req->num_recs[i]) &&
-                        (it != db.rend().base()) &&
-                        (memcmp(key.data(), it->first.data(), prefix_len) == 0);
+                        (it->first.compare(0, prefix_len, (const char *) key.data(), prefix_len) == 0);
                         j++) {
                         this->template BGetOp_copy_response(callbacks, it->first, it->second, req, res, i, j, event);
+                        if (it == db.begin()) {
+                            break;
+                        }
                         it--;
                     }
                 }
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 978280b..20e98be 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -336,14 +336,17 @@ Message::Response::BGetOp *Datastore::LevelDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
                 ::leveldb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                // find first key larger than the prefix
+                if (seek.size()) {
+                    it->Seek(::leveldb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (seek.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 83cb2f0..10f90a7 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -336,14 +336,17 @@ Message::Response::BGetOp *Datastore::RocksDB::BGetOpImpl(Message::Request::BGet
                 }
             }
             else if (req->ops[i] == hxhim_getop_t::HXHIM_GETOP_HIGHEST) {
-                const std::string seek = BGetOp_get_seek(key, prefix_len, predicate_len,
-                                                         req->predicates[i].data_type());
+                const std::string seek = BGetOp_get_seek_end(key, prefix_len, predicate_len,
+                                                             req->predicates[i].data_type());
                 ::rocksdb::Slice prefix((char *) key.data(), prefix_len); // need prefix for starts_with()
 
-                it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                // find first key larger than the prefix
+                if (seek.size()) {
+                    it->Seek(::rocksdb::Slice(seek.data(), seek.size()));
+                }
 
                 // go back one since the seek value is guaranteed to be past the last value found
-                if (it->Valid()) {
+                if (seek.size() && it->Valid()) {
                     it->Prev();
                 }
                 else {
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 504d327..9e504f3 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -519,6 +519,41 @@ std::string Datastore::Datastore::BGetOp_get_seek(const Blob &key,
     return seek;
 }
 
+/**
+ * BGetOp_get_seek_end
+ * Get the smallest string that is larger than
+ * every key with the given prefix.
+ *
+ * @return the string to seek to, or an empty string if there is no such string
+ */
+std::string Datastore::Datastore::BGetOp_get_seek_end(const Blob &key,
+                                                      std::size_t prefix_len,
+                                                      std::size_t predicate_len,
+                                                      hxhim_data_t predicate_type) {
+    std::string seek((char *) key.data(), prefix_len);
+
+    if ((predicate_len == 0) &&
+        ((predicate_type == HXHIM_DATA_INT32)   ||
+         (predicate_type == HXHIM_DATA_INT64)   ||
+         (predicate_type == HXHIM_DATA_UINT32)  ||
+         (predicate_type == HXHIM_DATA_UINT64)  ||
+         (predicate_type == HXHIM_DATA_FLOAT)   ||
+         (predicate_type == HXHIM_DATA_DOUBLE))) {
+        // find last numerical value with the given prefix
+        seek += callbacks->numeric_extra.pos;
+    }
+
+    while (seek.size() && (seek.back() == '\xff')) {
+        seek.pop_back();
+    }
+
+    if (seek.size()) {
+        seek.back()++;
+    }
+
+    return seek;
+}
+
 void Datastore::Datastore::BGetOp_error_response(Message::Response::BGetOp *res,
                                                  const std::size_t i,
                                                  Blob &subject, Blob &predicate,
-- 
2.43.0


From a1ccb6dec6e899322dca7c0501c5270bf8235218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 08/69] fix: default ELEN_NEG_SYMBOL was character 1 and
 ELEN_POS_SYMBOL was missing

---
 include/hxhim/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 72885d2..577c3e0 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -201,8 +201,8 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::NEG_SYMBOL, 1)),
-    std::make_pair(ELEN_NEG_SYMBOL,               std::string(elen::POS_SYMBOL, 1)),
+    std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
+    std::make_pair(ELEN_POS_SYMBOL,               std::string(1, elen::POS_SYMBOL)),
     std::make_pair(ELEN_ENCODE_FLOAT_PRECISION,   std::to_string(elen::encode::FLOAT_PRECISION)),
     std::make_pair(ELEN_ENCODE_DOUBLE_PRECISION,  std::to_string(elen::encode::DOUBLE_PRECISION)),
 };
-- 
2.43.0


From 0d818f6b84d95ed6a14eab7edf71ec10a5f18822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 09/69] fix: stored histograms had no type and broke scans that
 reached them

---
 src/datastore/InMemory.cpp | 3 ++-
 src/datastore/LevelDB.cpp  | 5 ++++-
 src/datastore/RocksDB.cpp  | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index 54c3990..a275201 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -431,7 +431,8 @@ int Datastore::InMemory::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
-        db[key] = std::string((char *) serial_hist, serial_hist_len);
+        // stored like any other value, so that GETs and GETOPs can read it
+        db[key] = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
     }
 
     for(void *ptr : ptrs) {
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 20e98be..b1a73a4 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -481,8 +481,11 @@ int Datastore::LevelDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // stored like any other value, so that GETs and GETOPs can read it
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::leveldb::Slice((char *) key.data(), key.size()),
-                  ::leveldb::Slice((char *) serial_hist, serial_hist_len));
+                  ::leveldb::Slice((char *) value.data(), value.size()));
     }
 
     ::leveldb::Status status = db->Write(::leveldb::WriteOptions(), &batch);
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 10f90a7..6cbf6f4 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -481,8 +481,11 @@ int Datastore::RocksDB::WriteHistogramsImpl() {
         hist.second->pack(&serial_hist, &serial_hist_len);
         ptrs.push_back(serial_hist);
 
+        // stored like any other value, so that GETs and GETOPs can read it
+        Blob value = append_type(serial_hist, serial_hist_len, hxhim_data_t::HXHIM_DATA_BYTE);
+
         batch.Put(::rocksdb::Slice((char *) key.data(), key.size()),
-                  ::rocksdb::Slice((char *) serial_hist, serial_hist_len));
+                  ::rocksdb::Slice((char *) value.data(), value.size()));
     }
 
     ::rocksdb::Status status = db->Write(::rocksdb::WriteOptions(), &batch);
-- 
2.43.0


From 388acdedd6161cce19db7b9b12c3b832ea312cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 10/69] fix: LevelDB and RocksDB reported PUTs and DELETEs that
 could not be encoded as successful

---
 src/datastore/LevelDB.cpp | 8 ++++++--
 src/datastore/RocksDB.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index b1a73a4..535e423 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::LevelDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -426,6 +426,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // only items in the batch get the status of the batch
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -435,8 +436,11 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::leveldb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -452,7 +456,7 @@ Message::Response::BDelete *Datastore::LevelDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index 6cbf6f4..bcc5a57 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -124,7 +124,7 @@ Message::Response::BPut *Datastore::RocksDB::BPutImpl(Message::Request::BPut *re
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 res_status);
+                 (res->statuses[i] == DATASTORE_UNSET)?res_status:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
@@ -426,6 +426,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
         void *predicate = nullptr;
         std::size_t predicate_len = 0;
 
+        int status = DATASTORE_ERROR; // only items in the batch get the status of the batch
         if ((encode(callbacks, req->subjects[i],   &subject,   &subject_len)   == DATASTORE_SUCCESS) &&
             (encode(callbacks, req->predicates[i], &predicate, &predicate_len) == DATASTORE_SUCCESS)) {
             // create the key from the subject and predicate
@@ -435,8 +436,11 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
                       &key);
             batch.Delete(::rocksdb::Slice((char *) key.data(), key.size()));
             event.size += key.size();
+            status = DATASTORE_UNSET;
         }
 
+        res->statuses[i] = status;
+
         if (subject != req->subjects[i].data()) {
             dealloc(subject);
         }
@@ -452,7 +456,7 @@ Message::Response::BDelete *Datastore::RocksDB::BDeleteImpl(Message::Request::BD
     for(std::size_t i = 0; i < req->count; i++) {
         res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
                  ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
-                 stat);
+                 (res->statuses[i] == DATASTORE_UNSET)?stat:DATASTORE_ERROR);
     }
 
     event.time.end = ::Stats::now();
-- 
2.43.0


From f6579f49087cdc39ec0058c5dc4ccd5953263b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 11/69] fix: HISTOGRAMs of every datastore can be queried, not
 only of the first per range server

---
 src/hxhim/ops/BHISTOGRAM.cpp | 2 +-
 src/hxhim/ops/HISTOGRAM.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index 699f2bd..fb576ba 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -22,7 +22,7 @@ int hxhim::BHistogram(hxhim_t *hx,
 
     for(std::size_t i = 0; i < count; i++) {
         if ((rs_ids[i] < 0) ||
-            (rs_ids[i] >= (int) hx->p->range_server.total_range_servers)) {
+            (rs_ids[i] >= (int) hx->p->range_server.datastores.total)) {
             return HXHIM_ERROR;
         }
 
diff --git a/src/hxhim/ops/HISTOGRAM.cpp b/src/hxhim/ops/HISTOGRAM.cpp
index de1a19b..1d2141c 100644
--- a/src/hxhim/ops/HISTOGRAM.cpp
+++ b/src/hxhim/ops/HISTOGRAM.cpp
@@ -13,7 +13,7 @@ int hxhim::Histogram(hxhim_t *hx, int rs_id,
                      const char *name, const std::size_t len) {
     if (!started(hx) ||
         (rs_id < 0)  ||
-        (rs_id >= (int) hx->p->range_server.total_range_servers)) {
+        (rs_id >= (int) hx->p->range_server.datastores.total)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 4e32131f6c2a88ca2d5520d1fc4d9e59ce6c4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 12/69] fix: OpenOne did not set the number of datastores, so
 every operation accessed queues that did not exist

---
 src/hxhim/init.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 614f0a9..d699ceb 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -210,6 +210,8 @@ int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
     hx->p->range_server.id = 0;
     hx->p->range_server.datastores.ds.push_back(ds);
     hx->p->range_server.total_range_servers = 1;
+    hx->p->range_server.datastores.per_server = 1;
+    hx->p->range_server.datastores.total = 1;
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From d4339c9eafb87cc67e4cd219c5dd5938734d82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:33 +0000
Subject: [PATCH 13/69] fix: histograms read from a datastore had no bucket
 generator and crashed when they had enough data

---
 include/utils/Histogram.hpp  |  4 ++++
 src/datastore/datastores.cpp |  5 +++++
 src/hxhim/hxhim.cpp          | 11 ++++++++---
 src/utils/Histogram.cpp      | 12 ++++++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/utils/Histogram.hpp b/include/utils/Histogram.hpp
index f778ece..0bcb7d0 100644
--- a/include/utils/Histogram.hpp
+++ b/include/utils/Histogram.hpp
@@ -47,6 +47,10 @@ class Histogram {
         bool unpack(const void *buf, const std::size_t size);
         bool unpack(char *&curr, std::size_t &size, std::size_t *used);
 
+        // set how buckets are generated, e.g. after unpacking,
+        // since functions cannot be serialized
+        void set_generator(const Config &config);
+
         // removes all datapoints, including the first_n values
         void clear();
 
diff --git a/src/datastore/datastores.cpp b/src/datastore/datastores.cpp
index 126d5a0..0778c85 100644
--- a/src/datastore/datastores.cpp
+++ b/src/datastore/datastores.cpp
@@ -124,6 +124,11 @@ Datastore::Init(hxhim_t *hx,
         const Datastore::Datastore::Histograms *existing = nullptr;
         ds->GetHistograms(&existing);
 
+        // histograms that were read still need to know how to generate buckets
+        for(Datastore::Datastore::Histograms::value_type const &hist : *existing) {
+            hist.second->set_generator(hist_config);
+        }
+
         // construct histograms that don't exist
         for(std::string const &name : hx->p->histograms.names) {
             if (!read_histograms                          ||   // overwrite existing histogram
diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index efe31c3..b082d1b 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -390,10 +390,15 @@ hxhim::Results *hxhim::ChangeDatastoreName(hxhim_t *hx, const std::string &basen
                    write_histograms,
                    read_histograms?&hx->p->histograms.names:nullptr);
 
-        if (create_missing) {
-            const ::Datastore::Datastore::Histograms *hists = nullptr;
-            ds->GetHistograms(&hists);
+        const ::Datastore::Datastore::Histograms *hists = nullptr;
+        ds->GetHistograms(&hists);
+
+        // histograms that were read still need to know how to generate buckets
+        for(::Datastore::Datastore::Histograms::value_type const &hist : *hists) {
+            hist.second->set_generator(hx->p->histograms.config);
+        }
 
+        if (create_missing) {
             for(std::string const &hist_name : hx->p->histograms.names) {
                 if (hists->find(hist_name) == hists->end()){
                     ds->AddHistogram(hist_name, hx->p->histograms.config);
diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index a0890f6..0cb3c7a 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -534,6 +534,18 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     return true;
 }
 
+/**
+ * set_generator
+ * Set the function used to generate buckets.
+ * The amount of data needed and existing buckets are not changed.
+ *
+ * @param config the configuration to take the generator and its extra arguments from
+ */
+void Histogram::Histogram::set_generator(const Config &config) {
+    gen_ = config.generator;
+    extra_ = config.extra_args;
+}
+
 /**
  * clear
  * Clears all existing data, including
-- 
2.43.0


From 59786bdb3e09919827993de15f585d46184a4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 14/69] fix: Open returned HXHIM_SUCCESS when the datastores
 could not be opened

---
 include/hxhim/constants.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hxhim/constants.h b/include/hxhim/constants.h
index 724c6bd..6ea52a3 100644
--- a/include/hxhim/constants.h
+++ b/include/hxhim/constants.h
@@ -18,11 +18,14 @@ extern "C"
 #define GENERATE_ENUM(prefix, name) prefix##_##name,
 #define GENERATE_STR(prefix, name)  #prefix "_" #name,
 
-/* not 0 to force return value checks to use this macro */
-#define HXHIM_SUCCESS                 3
+/*
+ * not 0 to force return value checks to use this macro
+ * must be different from the hxhim_open_t values, since hxhim::Open returns those as well
+ */
+#define HXHIM_SUCCESS                 10
 
 /** Generic Error */
-#define HXHIM_ERROR                   4
+#define HXHIM_ERROR                   11
 
 /** hxhim::Open Errors */
 #define HXHIM_OPEN_ERROR_GEN(PREFIX, GEN)       \
-- 
2.43.0


From 1cf19f610c86e96bc6ed4404b835ae846909e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 15/69] fix: mkdir_p did not create directories with a one
 character name

---
 src/utils/mkdir_p.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/mkdir_p.cpp b/src/utils/mkdir_p.cpp
index 417c0d6..2545d54 100644
--- a/src/utils/mkdir_p.cpp
+++ b/src/utils/mkdir_p.cpp
@@ -9,7 +9,8 @@ int mkdir_p(const std::string & path, const mode_t mode, const char sep) {
     memcpy(copy, path.c_str(), path.size());
     copy[path.size()] = '\0';
 
-    size_t i = 1;
+    // the root directory already exists
+    size_t i = (path.size() && (path[0] == sep))?1:0;
     while (i < path.size()) {
         while ((i < path.size()) &&
                (copy[i] != sep)) {
-- 
2.43.0


From bd8e93a373c624aa865fd54cd00516772934990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 16/69] fix: operations on a datastore that could not be opened
 returned no results

---
 src/datastore/datastore.cpp | 46 +++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 9e504f3..05013d1 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -114,11 +114,35 @@ int Datastore::Datastore::ID() const {
     return id;
 }
 
+// PUTs and DELETEs sent to a datastore that is not usable fail
+template <typename Response_t, typename Request_t>
+static Response_t *unusable(Request_t *req) {
+    Response_t *res = construct<Response_t>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
+// GETs sent to a datastore that is not usable fail
+static Message::Response::BGet *unusable(Message::Request::BGet *req) {
+    Message::Response::BGet *res = construct<Message::Response::BGet>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        res->add(ReferenceBlob(req->orig.subjects[i], req->subjects[i].size(), req->subjects[i].data_type()),
+                 ReferenceBlob(req->orig.predicates[i], req->predicates[i].size(), req->predicates[i].data_type()),
+                 RealBlob(nullptr, 0, req->object_types[i]),
+                 DATASTORE_ERROR);
+    }
+    return res;
+}
+
 Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    Message::Response::BPut *res = Usable()?BPutImpl(req):nullptr;
+    Message::Response::BPut *res = Usable()?BPutImpl(req):unusable<Message::Response::BPut>(req);
 
-    if (hists.size() && res) {
+    if (hists.size()) {
         // if a predicate is HXHIM_DATA_BYTE and the PUT was successful
         // keep track of the subject in the histogram
 
@@ -158,17 +182,29 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
 
 Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetImpl(req):nullptr;
+    return Usable()?BGetImpl(req):unusable(req);
 }
 
 Message::Response::BGetOp *Datastore::Datastore::operate(Message::Request::BGetOp *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BGetOpImpl(req):nullptr;
+    if (Usable()) {
+        return BGetOpImpl(req);
+    }
+
+    // GETOPs sent to a datastore that is not usable fail
+    Message::Response::BGetOp *res = construct<Message::Response::BGetOp>(req->count);
+    for(std::size_t i = 0; i < req->count; i++) {
+        Datastore::Stats::Event event;
+        res->add(alloc_array<Blob>(1), alloc_array<Blob>(1), alloc_array<Blob>(1), 0, DATASTORE_ERROR);
+        BGetOp_error_response(res, i, req->subjects[i], req->predicates[i], event);
+        res->update_size(i);
+    }
+    return res;
 }
 
 Message::Response::BDelete *Datastore::Datastore::operate(Message::Request::BDelete *req) {
     std::lock_guard<std::mutex> lock(mutex);
-    return Usable()?BDeleteImpl(req):nullptr;
+    return Usable()?BDeleteImpl(req):unusable<Message::Response::BDelete>(req);
 }
 
 Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::BHistogram *req) {
-- 
2.43.0


From 6f9cc5a5f919f0ab5653e8c76caef5c2ebea6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 17/69] fix: ChangeHash opened datastores without closing them,
 with wrong ids, and kept the old hash name

---
 src/hxhim/hxhim.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index b082d1b..fdd1f90 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -310,18 +310,19 @@ hxhim::Results *hxhim::ChangeHash(hxhim_t *hx, const std::string &name, hxhim_ha
     MPI_Barrier(hx->p->bootstrap.comm);
 
     // change hashes
+    hx->p->hash.name = name;
     hx->p->hash.func = func;
     hx->p->hash.args = args;
 
-    for(std::size_t i = 0; i < hx->p->range_server.datastores.ds.size(); i++) {
+    for(::Datastore::Datastore *ds : hx->p->range_server.datastores.ds) {
         // change datastores
         std::stringstream s;
-        s << name << "-" << Datastore::get_id(hx->p->bootstrap.rank,
-                                              hx->p->bootstrap.size,
-                                              hx->p->range_server.client_ratio,
-                                              hx->p->range_server.server_ratio,
-                                              i);
-        hx->p->range_server.datastores.ds[i]->Open(s.str());
+        s << name << "-" << ds->ID();
+        ds->Change(s.str(), hx->p->histograms.write, nullptr);
+
+        for(std::string const &hist_name : hx->p->histograms.names) {
+            ds->AddHistogram(hist_name, hx->p->histograms.config);
+        }
     }
 
     MPI_Barrier(hx->p->bootstrap.comm);
-- 
2.43.0


From 6872c8eeb62a050b76362fba7c18dc954f866a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 18/69] fix: OpenOne destroyed the datastore configuration
 before using it

---
 src/hxhim/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index d699ceb..ceec1d1 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -182,9 +182,9 @@ int hxhim::init::datastore(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::init::one_datastore(hxhim_t *hx, const std::string &name) {
-    if (destroy::datastore(hx) != HXHIM_SUCCESS) {
-        return HXHIM_ERROR;
-    }
+    // nothing has been opened yet
+    // do not call destroy::datastore, since the datastore config is still needed
+    hx->p->range_server.datastores.ds.clear();
 
     // ignore previous values
     hx->p->range_server.client_ratio = 1;
-- 
2.43.0


From 192bd8b99944a4b52d1128caa836056b3672f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:02 +0000
Subject: [PATCH 19/69] fix: GetDatastoreLocation passed the wrong arguments
 and returned wrong ranks or errors

---
 src/hxhim/accessors.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 9bc275a..4561210 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -1,4 +1,4 @@
-#include "hxhim/RangeServer.hpp"
+#include "hxhim/Datastore.hpp"
 #include "hxhim/accessors.hpp"
 #include "hxhim/private/accessors.hpp"
 #include "hxhim/private/hxhim.hpp"
@@ -288,10 +288,11 @@ int hxhim::nocheck::GetDatastoreLocation(hxhim_t *hx, const int id, int *rank, i
     }
 
     if (rank) {
-        *rank = RangeServer::get_rank(id,
-                                      hx->p->range_server.client_ratio,
-                                      hx->p->range_server.server_ratio,
-                                      hx->p->range_server.datastores.per_server);
+        *rank = Datastore::get_rank(id,
+                                    hx->p->bootstrap.size,
+                                    hx->p->range_server.client_ratio,
+                                    hx->p->range_server.server_ratio,
+                                    hx->p->range_server.datastores.per_server);
         if (*rank < 0) {
             return HXHIM_ERROR;
         }
-- 
2.43.0


From b2aa39897ca8480fc7eecfb3842eb052d65dbb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:12 +0000
Subject: [PATCH 20/69] fix: a list of endpoint group ranks in the
 configuration never finished parsing

---
 src/hxhim/config.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 3b5da67..241d80c 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -235,8 +235,9 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             return true;
         }
         else {
+            std::stringstream ids(endpointgroup->second);
             int id;
-            while (std::stringstream(endpointgroup->second) >> id) {
+            while (ids >> id) {
                 if (hxhim_add_endpoint_to_group(hx, id) != HXHIM_SUCCESS) {
                     // should probably write to mlog and continue instead of returning
                     return false;
@@ -244,7 +245,7 @@ static bool parse_endpointgroup(hxhim_t *hx, const Config::Config &config) {
             }
         }
     }
-    return false;
+    return true;
 }
 
 static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
-- 
2.43.0


From 6fa8bc082b42e4911da249f9627c0760988381db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 21/69] fix: configuration settings were ignored when the
 datastore settings were not also given

---
 src/hxhim/config.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 241d80c..84dee54 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -386,6 +386,10 @@ int process_config_and_fill_options(hxhim_t *hx, Config::Sequence &sequence) {
     Config::Config config;
     sequence.process(config);
 
+    // each setting can be set on its own, so use the
+    // default values of those that were not found
+    config.insert(hxhim::config::DEFAULT_CONFIG.begin(), hxhim::config::DEFAULT_CONFIG.end());
+
     // fill hx with values from configuration
     return fill_options(hx, config);
 }
-- 
2.43.0


From d93e3bbd2787d1c3cc9ae3069978573edc2bfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:53 +0000
Subject: [PATCH 22/69] fix: string settings were cut at the first whitespace

---
 include/utils/Configuration.hpp | 11 +++++++++++
 src/utils/Configuration.cpp     | 24 ++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/include/utils/Configuration.hpp b/include/utils/Configuration.hpp
index 99e5626..afd4750 100644
--- a/include/utils/Configuration.hpp
+++ b/include/utils/Configuration.hpp
@@ -161,6 +161,17 @@ int get_value(const Config &config, const std::string &config_key, T &v) {
  */
 int get_value(const Config &config, const std::string &config_key, bool &b);
 
+/**
+ * get_value <std::string> overload
+ * Helper function for reading entire strings, including whitespace, from the configuration
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return CONFIG_FOUND if the configuration value was good, CONFIG_NOT_FOUND if the configuration key was not found, or CONFIG_ERROR if the configuration value was empty
+ */
+int get_value(const Config &config, const std::string &config_key, std::string &s);
+
 /**
  * get_from_map
  * Helper function for getting values from a map with the value read from the configuration
diff --git a/src/utils/Configuration.cpp b/src/utils/Configuration.cpp
index 57c469a..e46aa56 100644
--- a/src/utils/Configuration.cpp
+++ b/src/utils/Configuration.cpp
@@ -163,3 +163,27 @@ int Config::get_value(const Config &config, const std::string &config_key, bool
 
     return NOT_FOUND;
 }
+
+/**
+ * get_value <std::string> overload
+ * Helper function for reading entire strings, including whitespace, from the configuration
+ *
+ * @param config     the configuration
+ * @param config_key the entry in the configuraion to read
+ * @param s          the value of the configuration
+ * @return Config::FOUND if the configuration value was good, Config::NOT_FOUND if the configuration key was not found, or Config::ERROR if the configuration value was empty
+ */
+int Config::get_value(const Config &config, const std::string &config_key, std::string &s) {
+    // find the key
+    Config_it in_config = config.find(config_key);
+    if (in_config != config.end()) {
+        if (in_config->second.empty()) {
+            return ERROR;
+        }
+
+        s = in_config->second;
+        return FOUND;
+    }
+
+    return NOT_FOUND;
+}
-- 
2.43.0


From d3e17d76016c95972cb6571eb56427b29415de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 23/69] fix: settings without a default could not be set with
 environment variables

---
 include/hxhim/config.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/config.hpp b/include/hxhim/config.hpp
index 577c3e0..f1a9707 100644
--- a/include/hxhim/config.hpp
+++ b/include/hxhim/config.hpp
@@ -184,14 +184,19 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(DATASTORE_POSTFIX,             ""),
 #if HXHIM_HAVE_LEVELDB
     std::make_pair(DATASTORE_TYPE,                "LEVELDB"),
-    std::make_pair(LEVELDB_CREATE_IF_MISSING,     "true"),
 #elif HXHIM_HAVE_ROCKSDB
     std::make_pair(DATASTORE_TYPE,                "ROCKSDB"),
-    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #else
     std::make_pair(DATASTORE_TYPE,                "IN_MEMORY"),
+#endif
+#if HXHIM_HAVE_LEVELDB
+    std::make_pair(LEVELDB_CREATE_IF_MISSING,     "true"),
+#endif
+#if HXHIM_HAVE_ROCKSDB
+    std::make_pair(ROCKSDB_CREATE_IF_MISSING,     "true"),
 #endif
     std::make_pair(TRANSPORT,                     "NULL"),
+    std::make_pair(MPI_LISTENERS,                 "1"),
     std::make_pair(HASH,                          "RANK_MOD_DATASTORES"),
     std::make_pair(TRANSPORT_ENDPOINT_GROUP,      "ALL"),
     std::make_pair(START_ASYNC_PUTS_AT,           "0"),
@@ -199,6 +204,7 @@ const Config::Config DEFAULT_CONFIG = {
     std::make_pair(MAXIMUM_SIZE_PER_REQUEST,      "1048576"),
     std::make_pair(HISTOGRAM_FIRST_N,             "10"),
     std::make_pair(HISTOGRAM_BUCKET_GEN_NAME,     "10_BUCKETS"),
+    std::make_pair(HISTOGRAM_TRACK_PREDICATES,    ""),
     std::make_pair(HISTOGRAM_READ_EXISTING,       "true"),
     std::make_pair(HISTOGRAM_WRITE_AT_EXIT,       "true"),
     std::make_pair(ELEN_NEG_SYMBOL,               std::string(1, elen::NEG_SYMBOL)),
-- 
2.43.0


From 6e5d8589da2b2954791f9151d2ea3f99de857675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:57 +0000
Subject: [PATCH 24/69] fix: options accepted values with which the instance
 could not work (no ops per request, unordered symbols, no instance)

---
 src/hxhim/options.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index f178f62..dbef0b4 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -305,6 +305,11 @@ int hxhim_set_transform_numeric_values(hxhim_t *hx, const char neg, const char p
         return HXHIM_ERROR;
     }
 
+    // encoded numbers only sort properly when the negative symbol sorts before the positive one
+    if (neg >= pos) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->range_server.datastores.transform.numeric_extra.neg = neg;
     hx->p->range_server.datastores.transform.numeric_extra.pos = pos;
     hx->p->range_server.datastores.transform.numeric_extra.float_precision = float_precision;
@@ -373,6 +378,10 @@ int hxhim_set_transport_null(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_set_transport_mpi(hxhim_t *hx, const size_t listeners) {
+    if (!hx || !hx->p || hx->p->running) {
+        return HXHIM_ERROR;
+    }
+
     Transport::Options *config = construct<Transport::MPI::Options>(hx->p->bootstrap.comm, listeners);
     if (hxhim_set_transport(hx, config) != HXHIM_SUCCESS) {
         destruct(config);
@@ -485,6 +494,10 @@ int hxhim_set_maximum_ops_per_request(hxhim_t *hx, const std::size_t count) {
         return HXHIM_ERROR;
     }
 
+    if (!count) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->queues.max_per_request.ops = count;
 
     return HXHIM_SUCCESS;
-- 
2.43.0


From 28e9b4d0eede1e5375a8dbd32be4c8cbcdac795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:02 +0000
Subject: [PATCH 25/69] fix: a hash function returning an ID past the last
 datastore corrupted memory

---
 src/hxhim/hash.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/hash.cpp b/src/hxhim/hash.cpp
index 79434a6..a2c2145 100644
--- a/src/hxhim/hash.cpp
+++ b/src/hxhim/hash.cpp
@@ -23,10 +23,19 @@ int hxhim_hash(hxhim_t *hx,
         return -1;
     }
 
-    return func(hx,
-                subject, subject_len,
-                predicate, predicate_len,
-                args);
+    const int id = func(hx,
+                        subject, subject_len,
+                        predicate, predicate_len,
+                        args);
+
+    // the datastore has to exist
+    std::size_t count = 0;
+    hxhim::nocheck::GetDatastoreCount(hx, &count);
+    if ((id < 0) || ((std::size_t) id >= count)) {
+        return -1;
+    }
+
+    return id;
 }
 
 /**
-- 
2.43.0


From 18369c339e7daa0e0e0158a5533417c5d62c0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:35 +0000
Subject: [PATCH 26/69] fix: a refused MPI communicator replaced the valid one

---
 src/hxhim/options.cpp | 8 +++++++-
 src/hxhim/private.cpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index dbef0b4..a77056e 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -22,7 +22,13 @@ int hxhim_set_mpi_bootstrap(hxhim_t *hx, MPI_Comm comm) {
         return HXHIM_ERROR;
     }
 
-    return ((hx->p->bootstrap.comm = comm) == MPI_COMM_NULL)?HXHIM_ERROR:HXHIM_SUCCESS;
+    if (comm == MPI_COMM_NULL) {
+        return HXHIM_ERROR;
+    }
+
+    hx->p->bootstrap.comm = comm;
+
+    return HXHIM_SUCCESS;
 }
 
 /**
diff --git a/src/hxhim/private.cpp b/src/hxhim/private.cpp
index c7f592b..5cb0a38 100644
--- a/src/hxhim/private.cpp
+++ b/src/hxhim/private.cpp
@@ -7,7 +7,7 @@
 hxhim_private::hxhim_private()
     : epoch(::Stats::init()),
       debug_level(MLOG_DBG3),
-      bootstrap(),
+      bootstrap({MPI_COMM_NULL, -1, -1}),
       running(false),
       queues(),
       async_puts(),
-- 
2.43.0


From 75679190b0ed47774bc4f470ae75adf8e3ab6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 27/69] fix: closing an instance that was not opened terminated
 the process when asynchronous PUTs were enabled

---
 src/hxhim/destroy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/destroy.cpp b/src/hxhim/destroy.cpp
index 8ee1e21..e713dbe 100644
--- a/src/hxhim/destroy.cpp
+++ b/src/hxhim/destroy.cpp
@@ -37,7 +37,8 @@ int hxhim::destroy::running(hxhim_t *hx) {
  * @return HXHIM_SUCCESS on success or HXHIM_ERROR
  */
 int hxhim::destroy::async_puts(hxhim_t *hx) {
-    if (hx->p->async_puts.enabled) {
+    // the thread does not exist if the instance was never (completely) opened
+    if (hx->p->async_puts.enabled && hx->p->async_puts.thread.joinable()) {
         wait_for_background_puts(hx, true);
 
         hx->p->async_puts.thread.join();
-- 
2.43.0


From cd223aa95dc36069c116e3ab12864a8ae4c99570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 28/69] fix: transform functions set by the user never replaced
 the default ones

---
 src/hxhim/init.cpp    | 4 ++--
 src/hxhim/options.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index ceec1d1..f2cab81 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -89,10 +89,10 @@ static ::Datastore::Transform::Callbacks *transform(hxhim_t *hx) {
 
     // overwrite existing callbacks with those set in opts
     for(decltype(transform.encode)::value_type const &callback : transform.encode) {
-        callbacks->encode.emplace(callback);
+        callbacks->encode[callback.first] = callback.second;
     }
     for(decltype(transform.decode)::value_type const &callback : transform.decode) {
-        callbacks->decode.emplace(callback);
+        callbacks->decode[callback.first] = callback.second;
     }
 
     return callbacks;
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a77056e..89a6a7a 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -331,8 +331,8 @@ int hxhim_set_transform_function(hxhim_t *hx, const enum hxhim_data_t type,
         return HXHIM_ERROR;
     }
 
-    hx->p->range_server.datastores.transform.encode.emplace(type, std::make_pair(encode, encode_extra));
-    hx->p->range_server.datastores.transform.decode.emplace(type, std::make_pair(decode, decode_extra));
+    hx->p->range_server.datastores.transform.encode[type] = std::make_pair(encode, encode_extra);
+    hx->p->range_server.datastores.transform.decode[type] = std::make_pair(decode, decode_extra);
 
     return HXHIM_SUCCESS;
 }
-- 
2.43.0


From 1b4156668520af02bfded330264396c2d8a600d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 29/69] fix: the background PUT thread made one queue per range
 server instead of one per datastore

---
 src/hxhim/init.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index f2cab81..8c2838e 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -251,7 +251,7 @@ static void async_put_thread(hxhim_t *hx) {
 
             // reset PUT queues
             hx->p->queues.puts.queue.clear();
-            hx->p->queues.puts.queue.resize(hx->p->range_server.total_range_servers);
+            hx->p->queues.puts.queue.resize(hx->p->range_server.datastores.total);
             hx->p->queues.puts.count = 0;
             hx->p->queues.puts.flushed = false;
         }
-- 
2.43.0


From b1bce510e3110b9b3db8dd8f1deba070f46a935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:52 +0000
Subject: [PATCH 30/69] fix: background PUT results were appended and taken
 without holding their mutex

---
 src/hxhim/init.cpp      |  2 +-
 src/hxhim/ops/FLUSH.cpp | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/init.cpp b/src/hxhim/init.cpp
index 8c2838e..114ff44 100644
--- a/src/hxhim/init.cpp
+++ b/src/hxhim/init.cpp
@@ -264,6 +264,7 @@ static void async_put_thread(hxhim_t *hx) {
 
         // store results in hxhim instance
         {
+            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             if (hx->p->async_puts.results) {
                 hx->p->async_puts.results->Append(results);
                 destruct(results);
@@ -272,7 +273,6 @@ static void async_put_thread(hxhim_t *hx) {
                 hx->p->async_puts.results = results;
             }
 
-            std::unique_lock<std::mutex> async_lock(hx->p->async_puts.mutex);
             hx->p->async_puts.done_check = true;
         }
 
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 37927da..ad0b8e8 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -42,9 +42,13 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
         hxhim::wait_for_background_puts(hx, false);
 
         // move internal results to res to give to caller
-        res->Append(hx->p->async_puts.results);
-        destruct(hx->p->async_puts.results);
-        hx->p->async_puts.results = nullptr;
+        {
+            // the background thread might be finishing another (empty) run
+            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+            res->Append(hx->p->async_puts.results);
+            destruct(hx->p->async_puts.results);
+            hx->p->async_puts.results = nullptr;
+        }
 
         hx->p->queues.puts.mutex.lock();
     }
-- 
2.43.0


From 17c1651a16b7237ca4e32e36ae54cd17ce1b504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 31/69] fix: packets for several datastores of one remote rank
 overwrote each other

---
 include/hxhim/private/process.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index a677510..ca8579d 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -53,6 +53,12 @@ hxhim::Results *process(hxhim_t *hx,
                 continue;
             }
 
+            // only one request can be sent to each remote rank at a time,
+            // so other datastores of the same rank wait for the next round
+            if (remote.find(hx->p->queues.ds_to_rank[ds]) != remote.end()) {
+                continue;
+            }
+
             Request_t *req = queues[ds].front();
             queues[ds].pop_front();
 
-- 
2.43.0


From e8d600f0011be05679e350eca9ec7a375e94dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 32/69] fix: results of single type bulk PUTs were never
 returned when asynchronous PUTs are disabled

---
 src/hxhim/ops/FLUSH.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index ad0b8e8..4925f96 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -40,16 +40,19 @@ hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
     if (hx->p->async_puts.enabled) {
         // wait for the background thread to finish
         hxhim::wait_for_background_puts(hx, false);
+    }
 
-        // move internal results to res to give to caller
-        {
-            // the background thread might be finishing another (empty) run
-            std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
-            res->Append(hx->p->async_puts.results);
-            destruct(hx->p->async_puts.results);
-            hx->p->async_puts.results = nullptr;
-        }
+    // move internal results to res to give to caller
+    // results are placed here even when background PUTs are disabled (serial_puts)
+    {
+        // the background thread might be finishing another (empty) run
+        std::lock_guard<std::mutex> async_lock(hx->p->async_puts.mutex);
+        res->Append(hx->p->async_puts.results);
+        destruct(hx->p->async_puts.results);
+        hx->p->async_puts.results = nullptr;
+    }
 
+    if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.mutex.lock();
     }
 
-- 
2.43.0


From cbb3707aedf1da2f413d2986876289e6a15c18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 33/69] fix: single type bulk PUTs modified the PUT queues
 without holding their mutex

---
 src/hxhim/ops/single_type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8033e4e..8b9f5bd 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -23,6 +23,10 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
+    if (hx->p->async_puts.enabled) {
+        hx->p->queues.puts.mutex.lock();
+    }
+
     for(std::size_t i = 0; i < count; i++) {
         hxhim::PutImpl(hx,
                        hx->p->queues.puts.queue,
@@ -34,6 +38,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
 
     if (hx->p->async_puts.enabled) {
         hx->p->queues.puts.start_processing.notify_all();
+        hx->p->queues.puts.mutex.unlock();
     }
     else {
         hxhim::serial_puts(hx);
-- 
2.43.0


From 286be108e11b737c0c4e24006ba36fca76adb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:43 +0000
Subject: [PATCH 34/69] fix: single type bulk GETOPs were always refused and
 had no C symbol, and missing type lists were dereferenced

---
 src/hxhim/ops/single_type.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 8b9f5bd..26cd113 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -13,8 +13,8 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu PUTs of type %d", count, object_type);
 
     if (!started(hx)||
-        !subjects   || !subject_lens   ||
-        !predicates || !predicate_lens ||
+        !subjects   || !subject_lens   || !subject_types   ||
+        !predicates || !predicate_lens || !predicate_types ||
         !objects    || !object_lens    ||
         !permutations) {
         return HXHIM_ERROR;
@@ -72,8 +72,8 @@ int hxhim::BGetSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens) {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types) {
         return HXHIM_ERROR;
     }
 
@@ -116,9 +116,9 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Started %zu GETs of type %d", count, object_type);
 
     if (!started(hx) ||
-        !subjects    || !subject_lens   ||
-        !predicates  || !predicate_lens ||
-        !num_records || ops)             {
+        !subjects    || !subject_lens   || !subject_types   ||
+        !predicates  || !predicate_lens || !predicate_types ||
+        !num_records || !ops)            {
         return HXHIM_ERROR;
     }
 
@@ -141,7 +141,7 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
     return HXHIM_SUCCESS;
 }
 
-int hxhimBGetOPSingleType(hxhim_t *hx,
+int hxhimBGetOpSingleType(hxhim_t *hx,
                           void **subjects, size_t *subject_lens, enum hxhim_data_t *subject_types,
                           void **predicates, size_t *predicate_lens, enum hxhim_data_t *predicate_types,
                           enum hxhim_data_t object_type,
-- 
2.43.0


From 85b6ce8772c3ab58f4917e685373ddf499b2b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 35/69] fix: packet statistics were modified by the background
 PUT thread and the user at the same time

---
 include/hxhim/private/Stats.hpp   |  5 +++++
 include/hxhim/private/process.hpp | 10 ++++++++--
 src/hxhim/Stats.cpp               |  2 ++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/hxhim/private/Stats.hpp b/include/hxhim/private/Stats.hpp
index 1fea7d8..6b0cb2a 100644
--- a/include/hxhim/private/Stats.hpp
+++ b/include/hxhim/private/Stats.hpp
@@ -3,6 +3,7 @@
 
 #include <map>
 #include <list>
+#include <mutex>
 #include <ostream>
 
 #include "hxhim/constants.h"
@@ -13,6 +14,10 @@ namespace Stats {
 
 // Events sorted by op type
 struct Global {
+    // protects used and outgoing, which are updated
+    // by the background PUT thread as well as the user
+    std::mutex mutex;
+
     // how long each single operation called by the user took
     std::map<enum hxhim_op_t, std::list<::Stats::Chronostamp> > single_op;
 
diff --git a/include/hxhim/private/process.hpp b/include/hxhim/private/process.hpp
index ca8579d..d42085b 100644
--- a/include/hxhim/private/process.hpp
+++ b/include/hxhim/private/process.hpp
@@ -1,6 +1,8 @@
 #ifndef PROCESS_HPP
 #define PROCESS_HPP
 
+#include <mutex>
+
 #include "hxhim/private/Results.hpp"
 #include "hxhim/private/hxhim.hpp"
 #include "transport/backend/local/RangeServer.hpp"
@@ -77,8 +79,12 @@ hxhim::Results *process(hxhim_t *hx,
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_start = ::Stats::now();
             #endif
-            hx->p->stats.used[req->op].push_back(req->filled());
-            hx->p->stats.outgoing[req->op][req->dst]++;
+            {
+                // background PUTs are processed at the same time as other requests
+                std::lock_guard<std::mutex> stats_lock(hx->p->stats.mutex);
+                hx->p->stats.used[req->op].push_back(req->filled());
+                hx->p->stats.outgoing[req->op][req->dst]++;
+            }
             #if PRINT_TIMESTAMPS
             ::Stats::Chronopoint collect_stats_end = ::Stats::now();
             ::Stats::print_event(hx->p->print_buffer, rank, "collect_stats",
diff --git a/src/hxhim/Stats.cpp b/src/hxhim/Stats.cpp
index 64dffe6..60a5c93 100644
--- a/src/hxhim/Stats.cpp
+++ b/src/hxhim/Stats.cpp
@@ -8,6 +8,8 @@ std::ostream &hxhim::Stats::Global::print(const int rank,
                                           const ::Stats::Chronopoint epoch,
                                           std::ostream &stream,
                                           const std::string &indent) {
+    std::lock_guard<std::mutex> lock(mutex);
+
     std::ios_base::fmtflags flags(stream.flags());
 
     stream << std::fixed << std::setprecision(3);
-- 
2.43.0


From 20384a65e569947f3920c1c6b6b24bc5642a5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 36/69] fix: destroying C results after closing the instance
 they came from crashed

---
 src/hxhim/Results.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 3e89cc9..444affd 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -778,7 +778,8 @@ hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
  */
 void hxhim_results_destroy(hxhim_results_t *res) {
     if (res) {
-        const int rank = res->hx->p->bootstrap.rank;
+        // results can outlive the instance they came from
+        const int rank = (res->hx && res->hx->p)?res->hx->p->bootstrap.rank:-1;
 
         mlog(HXHIM_CLIENT_DBG, "Rank %d Destroying hxhim_results_t %p", rank, res);
         hxhim::Results::Destroy(res->res);
-- 
2.43.0


From 366ad81fef5aae4f947db7b55504e0e7edf6e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 37/69] fix: Close stopped the instance before syncing it,
 dropping queued operations and stranding ranks still waiting for responses

---
 src/hxhim/hxhim.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index fdd1f90..7c5b3f3 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -158,6 +158,7 @@ int hxhim::Open(hxhim_t *hx) {
     if (rc != HXHIM_OPEN_ERROR_BOOTSTRAP) {
         MPI_Barrier(hx->p->bootstrap.comm);
     }
+    destroy::running(hx); // there is nothing to sync
     Close(hx);
     mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
     return rc;
@@ -198,6 +199,7 @@ int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
         (init::queues        (hx)          != HXHIM_SUCCESS) ||
         (init::async_puts    (hx)          != HXHIM_SUCCESS)) {
         MPI_Barrier(hx->p->bootstrap.comm);
+        destroy::running(hx); // there is nothing to sync
         Close(hx);
         mlog(HXHIM_CLIENT_ERR, "Failed to initialize HXHIM");
         return HXHIM_ERROR;
@@ -241,9 +243,7 @@ int hxhim::Close(hxhim_t *hx) {
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Starting to shutdown HXHIM", rank);
 
-    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
-    destroy::running(hx);
-
+    // the range servers have to keep running until all ranks have completed their requests
     mlog(HXHIM_CLIENT_DBG, "Rank %d Waiting for all ranks to complete syncing", rank);
     Results::Destroy(hxhim::Sync(hx));
     mlog(HXHIM_CLIENT_DBG, "Rank %d Closing HXHIM", rank);
@@ -251,6 +251,9 @@ int hxhim::Close(hxhim_t *hx) {
     // make sure all ranks are ready to stop
     MPI_Barrier(comm);
 
+    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
+    destroy::running(hx);
+
     destroy::async_puts(hx); // complete existing processing and prevent new processing
     destroy::hash(hx);       // prevent new work from hashing properly
     destroy::queues(hx);     // clear queued work
-- 
2.43.0


From 6461631351616c6f24524cb2ff2ba968a2957c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 38/69] fix: MPI requests were addressed with datastore IDs,
 which only match range server IDs and ranks in the simplest layout

---
 include/transport/backend/MPI/EndpointGroup.tpp | 2 +-
 src/transport/backend/MPI/Init.cpp              | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index b7a53c7..f8cc0d7 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -41,7 +41,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
         if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
-            dsts[pack_count] = msg->dst;
+            dsts[pack_count] = message.first; // msg->dst is a datastore
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
         }
diff --git a/src/transport/backend/MPI/Init.cpp b/src/transport/backend/MPI/Init.cpp
index a5a0420..8f678fd 100644
--- a/src/transport/backend/MPI/Init.cpp
+++ b/src/transport/backend/MPI/Init.cpp
@@ -35,21 +35,16 @@ Transport::Transport *Transport::MPI::init(hxhim_t *hx,
     EndpointGroup *eg = construct<EndpointGroup>(hx->p->bootstrap.comm,
                                                  hx->p->running);
 
-    // logical
-    int rs_id = 0;
-
-    // create mapping between logical IDs and endpoint ranks
+    // requests are addressed to ranks, so ranks are their own IDs
     for(int i = 0; i < hx->p->bootstrap.size; i++) {
         if (hxhim::RangeServer::is_range_server(i, hx->p->bootstrap.size, client_ratio, server_ratio)) {
             if (hx->p->bootstrap.rank != i) { // skip adding the local range server
                 // if the rank was specified as part of the endpoint
                 // group, add the rank to the endpoint group
                 if (endpointgroup.find(i) != endpointgroup.end()) {
-                    eg->AddID(rs_id, i);
+                    eg->AddID(i, i);
                 }
             }
-
-            rs_id++;
         }
     }
 
-- 
2.43.0


From 42bd4364b9b2f09ff69c94303f812064f972cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 39/69] fix: the background PUT thread and the user exchanged
 MPI messages at the same time, mixing up buffers and responses

---
 include/transport/backend/MPI/EndpointGroup.hpp | 4 ++++
 include/transport/backend/MPI/EndpointGroup.tpp | 3 +++
 src/transport/backend/MPI/EndpointGroup.cpp     | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9977d02..9137097 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -2,6 +2,7 @@
 #define TRANSPORT_MPI_ENDPOINT_GROUP_HPP
 
 #include <atomic>
+#include <mutex>
 #include <unordered_map>
 
 #include <mpi.h>
@@ -65,6 +66,9 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         volatile std::atomic_bool &running;
 
+        /** Requests of the background PUT thread and of the user must not mix */
+        std::mutex mutex;
+
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
         std::size_t *lens; // buffer lengths
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index f8cc0d7..24bcbab 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -336,6 +336,9 @@ template<typename Recv_t, typename Send_t, typename>
 Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messages) {
     mlog(MPI_DBG, "Maximum number of messages: %zu", messages.size());
 
+    // the buffers are shared, and responses can only be told apart by the server they come from
+    std::lock_guard<std::mutex> lock(mutex);
+
     // return value here is not useful
     const std::size_t sent = parallel_send(messages);
 
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index 15f68b8..f63f011 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -12,6 +12,7 @@ EndpointGroup::EndpointGroup(const MPI_Comm comm,
     EndpointBase(comm),
     ranks(),
     running(running),
+    mutex(),
     lens(new std::size_t[size]),
     dsts(new int[size]),
     srvs(new int[size])
-- 
2.43.0


From 51876845eaff65f86f90564da83eec282606f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 40/69] fix: the MPI range server did not run the destructors
 of the packets it handled, leaking their contents

---
 src/transport/backend/MPI/RangeServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 6676fc7..755fc03 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -58,7 +58,7 @@ void RangeServer::listener_thread() {
 
         // process request
         Message::Response::Response *response = local::range_server(hx, request);
-        dealloc(request);
+        destruct(request);
 
         // encode result
         void *res = nullptr;
@@ -67,7 +67,7 @@ void RangeServer::listener_thread() {
 
         // send result
         const int ret = send(response->dst, res, len);
-        dealloc(response);
+        destruct(response);
         dealloc(res);
 
         if (ret != TRANSPORT_SUCCESS) {
-- 
2.43.0


From 95ffd0eeb6e56ac41cde47d27e13fe7855a37e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 41/69] fix: stopped MPI range servers left a receive posted,
 which took a request of the next instance

---
 src/transport/backend/MPI/RangeServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/backend/MPI/RangeServer.cpp b/src/transport/backend/MPI/RangeServer.cpp
index 755fc03..30b483f 100644
--- a/src/transport/backend/MPI/RangeServer.cpp
+++ b/src/transport/backend/MPI/RangeServer.cpp
@@ -198,7 +198,10 @@ int RangeServer::Flush(MPI_Request &req, MPI_Status &status) {
     }
 
     // mlog(MPI_DBG, "MPI Range Server flush failed (flag %d, running %d)", flag, hx->p->running.load());
-    MPI_Request_free(&req);
+    // the buffer will no longer exist once this function returns,
+    // so the request must not receive messages of later instances
+    MPI_Cancel(&req);
+    MPI_Wait(&req, &status);
     return TRANSPORT_ERROR;
 }
 
-- 
2.43.0


From 6708a77443891ffb21936ed2e8277dc444d2cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 42/69] fix: HISTOGRAM results shared the histogram the
 datastore keeps modifying

---
 src/datastore/datastore.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 05013d1..1e72327 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -228,9 +228,23 @@ Message::Response::BHistogram *Datastore::Datastore::operate(Message::Request::B
         REF(hists)::const_iterator it = hists.find((std::string) req->names[i]);
         clock_gettime(CLOCK_MONOTONIC, &end);
 
+        // return a copy, since the histogram can be modified by other
+        // requests as soon as the mutex is released
+        std::shared_ptr<::Histogram::Histogram> hist = nullptr;
         if (it != hists.end()) {
-            res->add(it->second, DATASTORE_SUCCESS);
-            event.size += it->second->pack_size();
+            void *buf = nullptr;
+            std::size_t size = 0;
+            hist = std::shared_ptr<::Histogram::Histogram>(construct<::Histogram::Histogram>(::Histogram::Config{0, nullptr, nullptr}, ""),
+                                                           ::Histogram::deleter);
+            if (!it->second->pack(&buf, &size) || !hist->unpack(buf, size)) {
+                hist = nullptr;
+            }
+            dealloc(buf);
+        }
+
+        if (hist) {
+            res->add(hist, DATASTORE_SUCCESS);
+            event.size += hist->pack_size();
         }
         else {
             res->add(nullptr, DATASTORE_ERROR);
-- 
2.43.0


From 9789117ee3a871029efc940ff4d937d0bf54289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:23 +0000
Subject: [PATCH 43/69] fix: transform callbacks that return HXHIM_SUCCESS as
 documented were treated as failed

---
 src/datastore/datastore.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 1e72327..235c039 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -424,6 +424,18 @@ int Datastore::Datastore::Sync(const bool write_histograms) {
     return Usable()?SyncImpl():DATASTORE_ERROR;
 }
 
+/**
+ * callback_status
+ * User callbacks return HXHIM_SUCCESS or HXHIM_ERROR (see datastore/transform.h),
+ * while the default callbacks return DATASTORE_SUCCESS or DATASTORE_ERROR.
+ *
+ * @param rc  the return value of a callback
+ * @return DATASTORE_SUCCESS or DATASTORE_ERROR
+ */
+static int callback_status(const int rc) {
+    return ((rc == HXHIM_SUCCESS) || (rc == DATASTORE_SUCCESS))?DATASTORE_SUCCESS:DATASTORE_ERROR;
+}
+
 int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
                                  const Blob &src,
                                  void **dst, std::size_t *dst_size) {
@@ -440,7 +452,7 @@ int Datastore::Datastore::encode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return callback_status(it->second.first(src.data(), src.size(), dst, dst_size, it->second.second));
 }
 
 int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
@@ -459,7 +471,7 @@ int Datastore::Datastore::decode(Transform::Callbacks *callbacks,
         return DATASTORE_SUCCESS;
     }
 
-    return it->second.first(src.data(), src.size(), dst, dst_size, it->second.second);
+    return callback_status(it->second.first(src.data(), src.size(), dst, dst_size, it->second.second));
 }
 
 Datastore::Datastore::Stats::Event::Event()
-- 
2.43.0


From 4f5cb8a78583dc8eeda73b55788a3f2d14e090da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 44/69] fix: requests exceeded the maximum size per request
 because only a part of each operation was counted

---
 src/hxhim/ops/impl.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 41c9911..84904cf 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -59,14 +59,15 @@ Request_t *setup_packet(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue, const
  * @param queue      the queue to push into
  * @param subject    the subject to hash
  * @param predicate  the predicate to hash
- * @param insert     the insert timerstamps - only start is filled
+ * @param extra_size the size of everything else that will be added to the packet with the subject and predicate
  * @return pointer to a packet with space for a new set of data
  */
 template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 Request_t *get_packet(hxhim_t *hx,
                       hxhim::Queues<Request_t> &queues,
-                      const Blob &subject, const Blob &predicate) {
+                      const Blob &subject, const Blob &predicate,
+                      const std::size_t extra_size) {
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
 
@@ -85,7 +86,7 @@ Request_t *get_packet(hxhim_t *hx,
     ::Stats::Chronopoint insert_start = ::Stats::now();
 
     // set up the packet this triple should be placed into
-    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true));
+    Request_t *req = setup_packet(hx, queues[rs_id], subject.pack_size(true) + predicate.pack_size(true) + extra_size);
     req->timestamps.reqs[req->count].hash = hash;
     req->timestamps.reqs[req->count].insert.start = insert_start;
     return req;
@@ -176,8 +177,8 @@ int hxhim::PutImpl(hxhim_t *hx,
 
         // add the triple to the last packet in the queue
         Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
-                                                   sub->pack_size(true) +
-                                                   pred->pack_size(true) +
+                                                   sub->pack_size(true)  + sizeof(sub->data()) +
+                                                   pred->pack_size(true) + sizeof(pred->data()) +
                                                    obj->pack_size(true));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
@@ -214,7 +215,9 @@ int hxhim::GetImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
     Message::Request::BGet *get = get_packet(hx, gets,
-                                             subject, predicate);
+                                             subject, predicate,
+                                             sizeof(subject.data()) + sizeof(predicate.data()) +
+                                             sizeof(object_type));
     if (!get) {
         return HXHIM_ERROR;
     }
@@ -252,7 +255,8 @@ int hxhim::GetOpImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
     Message::Request::BGetOp *getop = get_packet(hx, getops,
-                                                 subject, predicate);
+                                                 subject, predicate,
+                                                 sizeof(object_type) + sizeof(num_records) + sizeof(op));
     if (!getop) {
         return HXHIM_ERROR;
     }
@@ -284,7 +288,8 @@ int hxhim::DeleteImpl(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
     Message::Request::BDelete *del = get_packet(hx, dels,
-                                                subject, predicate);
+                                                subject, predicate,
+                                                sizeof(subject.data()) + sizeof(predicate.data()));
     if (!del) {
         return HXHIM_ERROR;
     }
-- 
2.43.0


From 86ff9b5d2073e21e178014175357e536e678ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 45/69] fix: no MPI request was ever sent because the result of
 packing was compared with the wrong constant

---
 include/transport/backend/MPI/EndpointGroup.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index 24bcbab..c963d69 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -40,7 +40,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
         mlog(MPI_DBG, "Attempting to pack message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
 
-        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == TRANSPORT_SUCCESS) {
+        if (Message::Packer::pack(msg, &bufs[pack_count], &lens[pack_count]) == MESSAGE_SUCCESS) {
             dsts[pack_count] = message.first; // msg->dst is a datastore
             pack_count++;
             mlog(MPI_DBG, "Successfully packed message (type %s, size %zu, %d -> %d)", HXHIM_OP_STR[msg->op], msg->size(), msg->src, msg->dst);
@@ -312,7 +312,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     std::size_t valid = 0;
     *messages = alloc_array<Recv_t *>(data_req_count);
     for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == TRANSPORT_SUCCESS) {
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
-- 
2.43.0


From 5b6568a76cfd9e1ac935a93e242958e040ec8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 46/69] fix: MPI ranks waited for each other forever when sends
 could only complete once they were received

---
 .../transport/backend/MPI/EndpointGroup.hpp   |  16 +-
 .../transport/backend/MPI/EndpointGroup.tpp   | 191 +++++-------------
 src/transport/backend/MPI/EndpointGroup.cpp   |  40 +++-
 3 files changed, 98 insertions(+), 149 deletions(-)

diff --git a/include/transport/backend/MPI/EndpointGroup.hpp b/include/transport/backend/MPI/EndpointGroup.hpp
index 9137097..b7775ff 100644
--- a/include/transport/backend/MPI/EndpointGroup.hpp
+++ b/include/transport/backend/MPI/EndpointGroup.hpp
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 #include <mpi.h>
 
@@ -56,6 +57,8 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
         template <typename Recv_t, typename = enable_if_t<std::is_base_of<Message::Response::Response, Recv_t>::value> >
         std::size_t parallel_recv(const std::size_t nsrcs, int *srcs, Recv_t ***messages);  // receive from range server
 
+        void complete_sends();                                                              // wait for parallel_send
+
         template <typename Recv_t, typename Send_t,
                   typename = enable_if_t<std::is_base_of<Message::Request::Request,   Send_t>::value &&
                                          std::is_base_of<Message::Response::Response, Recv_t>::value> >
@@ -71,9 +74,16 @@ class EndpointGroup : virtual public ::Transport::EndpointGroup, virtual public
 
         /** Memory that is only allocated once during the lifetime of EndpointGroup
             and is only used by one function at a time */
-        std::size_t *lens; // buffer lengths
-        int *dsts;         // request destination servers
-        int *srvs;         // response source servers
+        std::size_t *lens;      // request lengths
+        std::size_t *recv_lens; // response lengths
+        int *dsts;              // request destination servers
+        int *srvs;              // response source servers
+
+        /** Requests that are being sent. Servers might not be able to complete receiving
+            before their responses are received, so sends are completed after receiving */
+        std::vector<void *> bufs;
+        std::vector<MPI_Request *> size_reqs;
+        std::vector<MPI_Request *> data_reqs;
 };
 
 }
diff --git a/include/transport/backend/MPI/EndpointGroup.tpp b/include/transport/backend/MPI/EndpointGroup.tpp
index c963d69..adb59b8 100644
--- a/include/transport/backend/MPI/EndpointGroup.tpp
+++ b/include/transport/backend/MPI/EndpointGroup.tpp
@@ -10,13 +10,14 @@
 
 /**
  * parallel_send
- * This function packs data and sends it in parallel.
+ * This function packs data and starts sending it in parallel.
  * Each array is filled so that only the first n elements (from the previous operation) are valid.
  * This function does not error. It only sends as much as possible.
+ * complete_sends should be called once the responses have been received.
  *
  * @param num_srvs the maximum number of messages there are
  * @tparm messages the array of messages to send
- * @return the number of messages successfully sent
+ * @return the number of messages that are being sent
  */
 template <typename Send_t, typename>
 std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &messages) {
@@ -29,7 +30,7 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
 
     // pack the data
     // packs might fail - use pack_count to keep track of successful packs
-    std::vector<void *> bufs(messages.size(), nullptr);
+    bufs.assign(messages.size(), nullptr);
     std::size_t pack_count = 0;
     for(REF(messages)::value_type const &message : messages) {
         Send_t *msg = message.second;
@@ -53,8 +54,8 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     mlog(MPI_DBG, "Successfully packed %zu messages", pack_count);
 
     // send sizes and data in parallel
-    std::vector<MPI_Request *> size_reqs(pack_count);
-    std::vector<MPI_Request *> data_reqs(pack_count);
+    size_reqs.assign(pack_count, nullptr);
+    data_reqs.assign(pack_count, nullptr);
     std::size_t size_count = 0;
     std::size_t data_count = 0;
 
@@ -98,69 +99,6 @@ std::size_t Transport::MPI::EndpointGroup::parallel_send(const ReqList<Send_t> &
     }
     mlog(MPI_DBG, "Done sending messages asynchronously");
 
-    mlog(MPI_DBG, "Waiting for messages to complete");
-
-    //Wait for messages to complete
-    int rank;
-    MPI_Comm_rank(comm, &rank);
-    const std::size_t total_msgs = size_count + data_count;
-    std::size_t done = 0;
-    while (running && (done != total_msgs)) {
-        for(std::size_t i = 0; i < size_count; i++) {
-            if (!size_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-            MPI_Test(size_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(size_reqs[i]);
-                size_reqs[i] = nullptr;
-                done++;
-            }
-        }
-
-        for(std::size_t i = 0; i < data_count; i++) {
-            if (!data_reqs[i]) {
-                continue;
-            }
-
-            int flag = 0;
-            MPI_Status status;
-
-            MPI_Test(data_reqs[i], &flag, &status);
-
-            if (flag) {
-                dealloc(data_reqs[i]);
-                data_reqs[i] = nullptr;
-                done++;
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_count; i++) {
-        if (size_reqs[i]) {
-            MPI_Request_free(size_reqs[i]);
-            dealloc(size_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < data_count; i++) {
-        if (data_reqs[i]) {
-            MPI_Request_free(data_reqs[i]);
-            dealloc(data_reqs[i]);
-        }
-    }
-
-    for(std::size_t i = 0; i < pack_count; i++) {
-        dealloc(bufs[i]);
-    }
-
-    mlog(MPI_DBG, "Messages completed: %zu", data_count);
-
     return data_count;
 }
 
@@ -190,95 +128,38 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
     mlog(MPI_DBG, "Waiting to receive %zu messages", nsrcs);
 
     std::vector<MPI_Request *> reqs(nsrcs);
+    std::vector<int> from(nsrcs);
+    std::vector<void *> recvbufs(nsrcs, nullptr);
 
     // use reqs to receive size messages from the servers in the list
-    std::size_t size_req_count = 0;
+    std::size_t req_count = 0;
     for(std::size_t i = 0; i < nsrcs; i++) {
         //this is not really necessary
         std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
 
         if (src_it != ranks.end()) {
-            reqs[size_req_count] = construct<MPI_Request>();
-            if (MPI_Irecv(&lens[i], sizeof(lens[i]), MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[size_req_count]) == MPI_SUCCESS) {
+            reqs[req_count] = construct<MPI_Request>();
+            from[req_count] = src_it->second;
+            if (MPI_Irecv(&recv_lens[req_count], sizeof(recv_lens[req_count]), MPI_CHAR,
+                          src_it->second, TRANSPORT_MPI_SIZE_RESPONSE_TAG, comm, reqs[req_count]) == MPI_SUCCESS) {
                 mlog(MPI_DBG, "Receiving size[%zu] from %d %d", i, src_it->second, srcs[i]);
-                size_req_count++;
+                req_count++;
             }
             else {
                 mlog(MPI_DBG, "Failed to start receiving size[%zu]", i);
-                dealloc(reqs[size_req_count]);
-                reqs[size_req_count] = nullptr;
+                dealloc(reqs[req_count]);
+                reqs[req_count] = nullptr;
             }
         }
     }
 
-    // Wait for size messages to complete
-    mlog(MPI_DBG, "Waiting for size to be received");
+    // Wait for messages to complete. The data is received as soon as its size is known,
+    // without waiting for the other servers, which might be waiting for each other
+    mlog(MPI_DBG, "Waiting for responses to be received");
 
     std::size_t done = 0;
-    while (running && (done != size_req_count)) {
-        for(std::size_t i = 0; i < size_req_count; i++) {
-            // if there is a request
-            if (reqs[i]) {
-                int flag = 0;
-                MPI_Status status;
-
-                // test the request
-                MPI_Test(reqs[i], &flag, &status);
-
-                // if the request completed, add 1
-                if (flag) {
-                    // mlog(MPI_DBG, "size received: %zu", i);
-                    dealloc(reqs[i]);
-                    reqs[i] = nullptr;
-                    done++;
-                }
-                else {
-                    // mlog(MPI_DBG, "size[%zu] not completed yet %zu", i, sizeof(lens[i]));
-                }
-            }
-        }
-    }
-
-    // Free any remaining requests
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        if (reqs[i]) {
-            MPI_Request_free(reqs[i]);
-            dealloc(reqs[i]);
-        }
-    }
-
-    mlog(MPI_DBG, "Received %zu sizes", done);
-
-    // reuse reqs to receive data messages from the servers
-    std::size_t data_req_count = 0;
-    std::vector<void *> recvbufs(size_req_count);
-    for(std::size_t i = 0; i < size_req_count; i++) {
-        std::unordered_map<int, int>::const_iterator src_it = ranks.find(srcs[i]);
-        if (src_it != ranks.end()) {
-            // Receive a message from the servers in the list
-            reqs[data_req_count] = construct<MPI_Request>();
-            recvbufs[data_req_count] = alloc(lens[i]);
-            if (MPI_Irecv(recvbufs[data_req_count], lens[i], MPI_CHAR,
-                          src_it->second, TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[data_req_count]) == MPI_SUCCESS) {
-                data_req_count++;
-            }
-            else {
-                dealloc(reqs[data_req_count]);
-                reqs[data_req_count] = nullptr;
-                dealloc(recvbufs[data_req_count]);
-            }
-        }
-    }
-
-    mlog(MPI_DBG, "Completed receiving %zu sizes", done);
-
-    // Wait for messages to complete
-    mlog(MPI_DBG, "Waiting for data to be received");
-
-    done = 0;
-    while (running && (done != data_req_count)) {
-        for(std::size_t i = 0; i < data_req_count; i++) {
+    while (running && (done != req_count)) {
+        for(std::size_t i = 0; i < req_count; i++) {
             if (!reqs[i]) {
                 continue;
             }
@@ -292,27 +173,46 @@ std::size_t Transport::MPI::EndpointGroup::parallel_recv(const std::size_t nsrcs
                 continue;
             }
 
+            // the size was received, so reuse the request to receive the data
+            if (!recvbufs[i]) {
+                recvbufs[i] = alloc(recv_lens[i]);
+                if (MPI_Irecv(recvbufs[i], recv_lens[i], MPI_CHAR,
+                              from[i], TRANSPORT_MPI_DATA_RESPONSE_TAG, comm, reqs[i]) == MPI_SUCCESS) {
+                    continue;
+                }
+
+                mlog(MPI_DBG, "Failed to start receiving data[%zu]", i);
+                dealloc(recvbufs[i]);
+                recvbufs[i] = nullptr;
+            }
+
             dealloc(reqs[i]);
             reqs[i] = nullptr;
             done++;
         }
     }
 
-    mlog(MPI_DBG, "Data received");
+    mlog(MPI_DBG, "Received %zu responses", done);
 
     // Free any remaining requests
-    for(std::size_t i = 0; i < data_req_count; i++) {
+    for(std::size_t i = 0; i < req_count; i++) {
         if (reqs[i]) {
             MPI_Request_free(reqs[i]);
             dealloc(reqs[i]);
+            dealloc(recvbufs[i]);
+            recvbufs[i] = nullptr;
         }
     }
 
     // unpack the data
     std::size_t valid = 0;
-    *messages = alloc_array<Recv_t *>(data_req_count);
-    for(std::size_t i = 0; i < data_req_count; i++) {
-        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], lens[i]) == MESSAGE_SUCCESS) {
+    *messages = alloc_array<Recv_t *>(req_count);
+    for(std::size_t i = 0; i < req_count; i++) {
+        if (!recvbufs[i]) {
+            continue;
+        }
+
+        if (Message::Unpacker::unpack(&((*messages)[valid]), recvbufs[i], recv_lens[i]) == MESSAGE_SUCCESS) {
             valid++;
         }
 
@@ -352,6 +252,7 @@ Recv_t *Transport::MPI::EndpointGroup::return_msgs(const ReqList<Send_t> &messag
     // wait for responses
     Recv_t **recv_list = nullptr;
     const std::size_t recvd = parallel_recv(sent, srvs, &recv_list);
+    complete_sends();
     mlog(MPI_DBG, "Received from %zu servers", recvd);
 
     // convert the responses into a list
diff --git a/src/transport/backend/MPI/EndpointGroup.cpp b/src/transport/backend/MPI/EndpointGroup.cpp
index f63f011..1ccada6 100644
--- a/src/transport/backend/MPI/EndpointGroup.cpp
+++ b/src/transport/backend/MPI/EndpointGroup.cpp
@@ -14,13 +14,18 @@ EndpointGroup::EndpointGroup(const MPI_Comm comm,
     running(running),
     mutex(),
     lens(new std::size_t[size]),
+    recv_lens(new std::size_t[size]),
     dsts(new int[size]),
-    srvs(new int[size])
+    srvs(new int[size]),
+    bufs(),
+    size_reqs(),
+    data_reqs()
 {}
 
 EndpointGroup::~EndpointGroup() {
     delete [] srvs;
     delete [] dsts;
+    delete [] recv_lens;
     delete [] lens;
 }
 
@@ -46,6 +51,39 @@ void EndpointGroup::RemoveID(const int id) {
     ranks.erase(id);
 }
 
+/**
+ * complete_sends
+ * Waits for the requests started by parallel_send and cleans them up
+ */
+void EndpointGroup::complete_sends() {
+    mlog(MPI_DBG, "Waiting for messages to complete");
+
+    for(std::vector<MPI_Request *> *reqs : {&size_reqs, &data_reqs}) {
+        for(MPI_Request *&req : *reqs) {
+            int flag = !req;
+            while (running && !flag) {
+                MPI_Test(req, &flag, MPI_STATUS_IGNORE);
+            }
+
+            // free remaining request
+            if (!flag) {
+                MPI_Request_free(req);
+            }
+
+            dealloc(req);
+            req = nullptr;
+        }
+    }
+
+    for(void *buf : bufs) {
+        dealloc(buf);
+    }
+
+    bufs.clear();
+
+    mlog(MPI_DBG, "Messages completed");
+}
+
 /**
  * BPut
  *
-- 
2.43.0


From 326930308a98e31b852a20e1cc248eb63dc84270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 47/69] fix: return the hash and insert timestamps with results

steal() moves blobs but not the individual timestamps, so the response
took them from the (empty) response instead of the request.
---
 include/transport/backend/local/RangeServer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/transport/backend/local/RangeServer.hpp b/include/transport/backend/local/RangeServer.hpp
index daf465a..176f5ed 100644
--- a/include/transport/backend/local/RangeServer.hpp
+++ b/include/transport/backend/local/RangeServer.hpp
@@ -56,11 +56,11 @@ Response_t *range_server(hxhim_t *hx, Request_t *req) {
     // if there were responses, copy them into the output variable
     if (response) {
         for(std::size_t i = 0; i < response->count; i++) {
-            // move timestamps over to response (responses should correspond to requests)
-            response->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
-
             // move the datastore response to the main response
             res->steal(response, i);
+
+            // move timestamps over to response (responses should correspond to requests)
+            res->timestamps.reqs[i] = std::move(req->timestamps.reqs[i]);
         }
 
         response->count = 0;
-- 
2.43.0


From 0bb94a9cd47f9e3d67ee41b7bfe5a835f1b839b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:08 +0000
Subject: [PATCH 48/69] fix: flushes and results of closed or missing instances
 crashed instead of being refused

---
 src/hxhim/Results.cpp   |  3 ++-
 src/hxhim/ops/FLUSH.cpp | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/Results.cpp b/src/hxhim/Results.cpp
index 444affd..7fb48d9 100644
--- a/src/hxhim/Results.cpp
+++ b/src/hxhim/Results.cpp
@@ -760,7 +760,8 @@ int hxhim::Results::Timestamps(struct hxhim::Result::Timestamps **timestamps) co
  * @return the pointer to the C structure containing the hxhim::Results
  */
 hxhim_results_t *hxhim_results_init(hxhim_t * hx, hxhim::Results *res) {
-    const int rank = hx->p->bootstrap.rank;
+    // there are no results if the instance is not running
+    const int rank = (hx && hx->p)?hx->p->bootstrap.rank:-1;
 
     mlog(HXHIM_CLIENT_DBG, "Rank %d Creating hxhim_results_t using %p", rank, res);
     hxhim_results_t *ret = construct<hxhim_results_t>();
diff --git a/src/hxhim/ops/FLUSH.cpp b/src/hxhim/ops/FLUSH.cpp
index 4925f96..0a582df 100644
--- a/src/hxhim/ops/FLUSH.cpp
+++ b/src/hxhim/ops/FLUSH.cpp
@@ -31,6 +31,10 @@ hxhim::Results *FlushImpl(hxhim_t *hx,
  * @return results from sending the PUTs
  */
 hxhim::Results *hxhim::FlushPuts(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     const int rank = hx->p->bootstrap.rank;
 
     mlog(HXHIM_CLIENT_INFO, "Rank %d Flushing PUTs", rank);
@@ -93,6 +97,10 @@ hxhim_results_t *hxhimFlushPuts(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGets(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -123,6 +131,10 @@ hxhim_results_t *hxhimFlushGets(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushGetOps(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -153,6 +165,10 @@ hxhim_results_t *hxhimFlushGetOps(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushDeletes(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -183,6 +199,10 @@ hxhim_results_t *hxhimFlushDeletes(hxhim_t *hx) {
  * @return Pointer to return value wrapper
  */
 hxhim::Results *hxhim::FlushHistograms(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
@@ -216,6 +236,10 @@ hxhim_results_t *hxhimFlushHistograms(hxhim_t *hx) {
  * @return A list of results
  */
 hxhim::Results *hxhim::Flush(hxhim_t *hx) {
+    if (!hxhim::started(hx)) {
+        return nullptr;
+    }
+
     int rank = -1;
     hxhim::nocheck::GetMPI(hx, nullptr, &rank, nullptr);
 
-- 
2.43.0


From d4cd09ede004ec28bcdfcf96c2eb000c67aab228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:08 +0000
Subject: [PATCH 49/69] fix: opening a missing or closed instance crashed
 instead of being refused

---
 src/hxhim/hxhim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hxhim/hxhim.cpp b/src/hxhim/hxhim.cpp
index 7c5b3f3..ad37556 100644
--- a/src/hxhim/hxhim.cpp
+++ b/src/hxhim/hxhim.cpp
@@ -94,8 +94,8 @@ int hxhimInit(hxhim_t *hx, MPI_Comm comm) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::Open(hxhim_t *hx) {
-    /** don't restart already running instances */
-    if (started(hx)) {
+    /** don't start instances that were not initialized or restart already running instances */
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
@@ -185,7 +185,7 @@ int hxhimOpen(hxhim_t *hx) {
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim::OpenOne(hxhim_t *hx, const std::string &db_path) {
-    if (started(hx)) {
+    if (!hx || !hx->p || started(hx)) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 9975f7b6619bc2b803ab8a1a6f89a0c049fae733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:08 +0000
Subject: [PATCH 50/69] fix: GETOP leaked the decoded parts of a record that
 cannot be decoded

---
 include/datastore/datastore.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index e97c85e..0efeeba 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -62,6 +62,10 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
             event.size += key.size() + value.size();
         }
         else {
+            // whatever was decoded before the failure is not returned
+            dealloc(subject);
+            dealloc(predicate);
+            dealloc(object);
             res->statuses[i] = DATASTORE_ERROR;
         }
     }
-- 
2.43.0


From 3b126bfc4255e398119771bd72b39bd2f1628269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:06 +0000
Subject: [PATCH 51/69] fix: log names of data types that are not built in

The warnings about data types that do not match indexed HXHIM_DATA_STR with
types registered by users (and with types read from datastores), reading past
the end of the array when the debug level includes warnings.
---
 include/datastore/datastore.hpp |  3 +++
 include/datastore/datastore.tpp | 12 ++++++------
 src/datastore/InMemory.cpp      |  4 ++--
 src/datastore/LevelDB.cpp       |  4 ++--
 src/datastore/RocksDB.cpp       |  4 ++--
 src/datastore/datastore.cpp     |  5 +++++
 6 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/datastore/datastore.hpp b/include/datastore/datastore.hpp
index b800990..db587cd 100644
--- a/include/datastore/datastore.hpp
+++ b/include/datastore/datastore.hpp
@@ -117,6 +117,9 @@ class Datastore {
         static Blob append_type(void *ptr, std::size_t size, hxhim_data_t type);
         static hxhim_data_t remove_type(const void *ptr, std::size_t &size);
 
+        // transforms can be registered for types that are not built in
+        static const char *type_name(const hxhim_data_t type);
+
     protected:
         int rank;      // MPI rank of HXHIM instance
         int id;
diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index 0efeeba..96b6d24 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -25,14 +25,14 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
 
         if (encoded_subject.data_type() != req->subjects[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded subject data type (%s) does not match provided data type (%s). Using decoded type.",
-                 HXHIM_DATA_STR[encoded_subject.data_type()],
-                 HXHIM_DATA_STR[req->subjects[i].data_type()]);
+                 type_name(encoded_subject.data_type()),
+                 type_name(req->subjects[i].data_type()));
         }
 
         if (encoded_predicate.data_type() != req->predicates[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded predicate data type (%s) does not match provided data type (%s).  Using decoded type.",
-                 HXHIM_DATA_STR[encoded_predicate.data_type()],
-                 HXHIM_DATA_STR[req->predicates[i].data_type()]);
+                 type_name(encoded_predicate.data_type()),
+                 type_name(req->predicates[i].data_type()));
         }
 
         std::size_t value_len = value.size();
@@ -40,8 +40,8 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
         Blob encoded_object = ReferenceBlob((char *) value.data(), value_len, value_type);
         if (encoded_object.data_type() != req->object_types[i]) {
             mlog(DATASTORE_WARN, "GETOP Decoded object data type (%s) does not match provided data type (%s). Using decoded type.",
-                 HXHIM_DATA_STR[encoded_object.data_type()],
-                 HXHIM_DATA_STR[req->object_types[i]]);
+                 type_name(encoded_object.data_type()),
+                 type_name(req->object_types[i]));
         }
 
         void *subject = nullptr;
diff --git a/src/datastore/InMemory.cpp b/src/datastore/InMemory.cpp
index a275201..dc38620 100644
--- a/src/datastore/InMemory.cpp
+++ b/src/datastore/InMemory.cpp
@@ -135,8 +135,8 @@ Message::Response::BGet *Datastore::InMemory::BGetImpl(Message::Request::BGet *r
                     object_type = remove_type((void *) it->second.data(), value_len);
                     if (object_type != req->object_types[i]) {
                         mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                             HXHIM_DATA_STR[object_type],
-                             HXHIM_DATA_STR[req->object_types[i]]);
+                             type_name(object_type),
+                             type_name(req->object_types[i]));
                     }
 
                     // decode the object
diff --git a/src/datastore/LevelDB.cpp b/src/datastore/LevelDB.cpp
index 535e423..b1ec364 100644
--- a/src/datastore/LevelDB.cpp
+++ b/src/datastore/LevelDB.cpp
@@ -181,8 +181,8 @@ Message::Response::BGet *Datastore::LevelDB::BGetImpl(Message::Request::BGet *re
                 object_type = remove_type((void *) value.data(), value_len);
                 if (object_type != req->object_types[i]) {
                     mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                         HXHIM_DATA_STR[object_type],
-                         HXHIM_DATA_STR[req->object_types[i]]);
+                         type_name(object_type),
+                         type_name(req->object_types[i]));
                 }
 
                 // decode the object
diff --git a/src/datastore/RocksDB.cpp b/src/datastore/RocksDB.cpp
index bcc5a57..e3c7fbf 100644
--- a/src/datastore/RocksDB.cpp
+++ b/src/datastore/RocksDB.cpp
@@ -181,8 +181,8 @@ Message::Response::BGet *Datastore::RocksDB::BGetImpl(Message::Request::BGet *re
                 object_type = remove_type((void *) value.data(), value_len);
                 if (object_type != req->object_types[i]) {
                     mlog(DATASTORE_WARN, "GET extracted object data type (%s) does not match provided data type (%s). Using extracted type.",
-                         HXHIM_DATA_STR[object_type],
-                         HXHIM_DATA_STR[req->object_types[i]]);
+                         type_name(object_type),
+                         type_name(req->object_types[i]));
                 }
 
                 // decode the object
diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 235c039..399d210 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -503,6 +503,11 @@ hxhim_data_t Datastore::Datastore::remove_type(const void *ptr, std::size_t &siz
     return type;
 }
 
+const char *Datastore::Datastore::type_name(const hxhim_data_t type) {
+    return ((hxhim_data_t::HXHIM_DATA_INVALID <= type) &&
+            (type <= hxhim_data_t::HXHIM_DATA_MAX_KNOWN))?HXHIM_DATA_STR[type]:"Unknown Type";
+}
+
 void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
                                             Message::Response::BGetOp *res,
                                             const std::size_t i,
-- 
2.43.0


From 45c82f8ec655f0c639f6bed8242ace7923778022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:56 +0000
Subject: [PATCH 52/69] fix: a histogram without its first values called its
 bucket generator with NULL

---
 src/utils/Histogram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 0cb3c7a..28e8c5b 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -218,6 +218,12 @@ int Histogram::Histogram::add(const double &value) {
     // insert into the buckets if the limit has been hit
     if (count_ >= first_n_) {
         if (!buckets_) {
+            // the first values are not kept by pack once there are enough of them,
+            // so buckets that could not be generated then cannot be generated now
+            if (first_n_ && !cache_) {
+                return HISTOGRAM_ERROR;
+            }
+
             // generate the buckets and allocate space for the counts
             if ((gen_(cache_, std::min(count_, first_n_), &buckets_, &size_, extra_) != HISTOGRAM_SUCCESS) ||
                 (gen_counts()                                    != HISTOGRAM_SUCCESS)) {
-- 
2.43.0


From cad0c58cb9b730ace2e5209e1f0d62dea3129762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:43 +0000
Subject: [PATCH 53/69] fix: keys that are not formatted as keys were read
 outside of their buffers

A datastore can contain records that were not written by HXHIM. key_to_sp
trusted the lengths in the key, and GETOP ignored its return value.
---
 include/datastore/datastore.tpp |  7 +++++--
 src/datastore/triplestore.cpp   | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/datastore/datastore.tpp b/include/datastore/datastore.tpp
index 96b6d24..c70c6a6 100644
--- a/include/datastore/datastore.tpp
+++ b/include/datastore/datastore.tpp
@@ -20,8 +20,11 @@ void Datastore::Datastore::BGetOp_copy_response(Transform::Callbacks *callbacks,
         // cannot call string constructor because key might not be string
         Blob encoded_subject;
         Blob encoded_predicate;
-        key_to_sp(ReferenceBlob((void *) key.data(), key.size(), hxhim_data_t::HXHIM_DATA_BYTE),
-                  encoded_subject, encoded_predicate, false);
+        if (key_to_sp(ReferenceBlob((void *) key.data(), key.size(), hxhim_data_t::HXHIM_DATA_BYTE),
+                      encoded_subject, encoded_predicate, false) != HXHIM_SUCCESS) {
+            res->statuses[i] = DATASTORE_ERROR;
+            return;
+        }
 
         if (encoded_subject.data_type() != req->subjects[i].data_type()) {
             mlog(DATASTORE_WARN, "GETOP Decoded subject data type (%s) does not match provided data type (%s). Using decoded type.",
diff --git a/src/datastore/triplestore.cpp b/src/datastore/triplestore.cpp
index 748b00a..f9b58c7 100644
--- a/src/datastore/triplestore.cpp
+++ b/src/datastore/triplestore.cpp
@@ -80,6 +80,12 @@ int key_to_sp(const Blob &key,
               Blob &subject,
               Blob &predicate,
               const bool copy) {
+    // terminator, lengths, and types
+    static const std::size_t SUFFIX_LEN = sizeof(char) + 2 * sizeof(std::size_t) + 2 * sizeof(uint8_t);
+    if (!key.data() || (key.size() < SUFFIX_LEN)) {
+        return HXHIM_ERROR;
+    }
+
     char *end = ((char *) key.data()) + key.size();
 
     // read predicate type
@@ -105,6 +111,14 @@ int key_to_sp(const Blob &key,
     // read terminator character
     const char *check = sub_len_start - 1;
 
+    // not everything that is stored in a datastore was created by sp_to_key
+    const std::size_t sp_len = key.size() - SUFFIX_LEN;
+    if ((*check != '\xff')  ||
+        (sub_len > sp_len)  ||
+        (pred_len != sp_len - sub_len)) {
+        return HXHIM_ERROR;
+    }
+
     // read predicate
     const char *pred_start = check - pred_len;
     if (copy) {
-- 
2.43.0


From f06be4697d01a366cb2d2f0545f2e9237dd260a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 54/69] fix: numbers that cannot be decoded ended the process

elen throws on data that is not an encoded number, and nothing caught the
exceptions. The decode functions return an error instead.
---
 include/datastore/transform.tpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index e446606..0f687ca 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -2,6 +2,8 @@
 #define TRANSFORM_TPP
 
 #include <cstring>
+#include <stdexcept>
+#include <string>
 
 #include "datastore/constants.hpp"
 #include "utils/elen.hpp"
@@ -66,14 +68,22 @@ int integers(void *src, const size_t src_size,
 
     NumericExtra *num_extra = (NumericExtra *) extra;
 
+    // the decoder throws when the data is not an encoded integer
+    T value = 0;
+    try {
+        value = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
+                                          num_extra->neg, num_extra->pos);
+    }
+    catch (const std::logic_error &) {
+        return DATASTORE_ERROR;
+    }
+
     if (dst_size) {
         *dst_size = sizeof(T);
     }
 
     *dst = (T *) alloc(sizeof(T));
-
-    * (T *) *dst = elen::decode::integers<T>(std::string((const char *) src, src_size), nullptr,
-                                             num_extra->neg, num_extra->pos);
+    * (T *) *dst = value;
     return DATASTORE_SUCCESS;
 }
 
@@ -87,14 +97,19 @@ int floating_point(void *src, const size_t src_size,
 
     NumericExtra *num_extra = (NumericExtra *) extra;
 
-    if (dst_size) {
-        *dst_size = sizeof(T);
+    // the decoder throws when the data is not an encoded floating point number
+    T value = 0;
+    try {
+        value = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
+                                                num_extra->neg, num_extra->pos);
+    }
+    catch (const std::logic_error &) {
+        return DATASTORE_ERROR;
     }
 
+    *dst_size = sizeof(T);
     *dst = (T *) alloc(sizeof(T));
-
-    * (T *) *dst = elen::decode::floating_point<T>(std::string((const char *) src, src_size),
-                                                   num_extra->neg, num_extra->pos);
+    * (T *) *dst = value;
     return DATASTORE_SUCCESS;
 }
 
-- 
2.43.0


From ce4aba17ffd9772c25f8d7b7e09f3704ce7ba090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:50 +0000
Subject: [PATCH 55/69] fix: values too short to have a type were read outside
 of their buffers

---
 src/datastore/datastore.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 399d210..5105379 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -494,11 +494,15 @@ Blob Datastore::Datastore::append_type(void *ptr, std::size_t size, hxhim_data_t
 }
 
 hxhim_data_t Datastore::Datastore::remove_type(const void *ptr, std::size_t &size) {
-    hxhim_data_t type;
-    char *curr = (char *) ptr;
+    hxhim_data_t type = hxhim_data_t::HXHIM_DATA_INVALID;
+
+    // not everything that is stored in a datastore was created by append_type
+    if (size < sizeof(type)) {
+        return hxhim_data_t::HXHIM_DATA_INVALID;
+    }
+
     size -= sizeof(type);
-    curr += size;
-    type = * (hxhim_data_t *) curr;
+    memcpy(&type, ((char *) ptr) + size, sizeof(type));
 
     return type;
 }
-- 
2.43.0


From 62deefafb8f9b47f7e4c56fe2d6aea5218bcfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:53 +0000
Subject: [PATCH 56/69] fix: incomplete stored histograms were read past their
 end

---
 src/utils/Histogram.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/utils/Histogram.cpp b/src/utils/Histogram.cpp
index 28e8c5b..d3d0b6d 100644
--- a/src/utils/Histogram.cpp
+++ b/src/utils/Histogram.cpp
@@ -488,10 +488,20 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
 
     char *orig = curr;
 
+    // every variable length section has to fit into what is left
+    // after the fixed length values that have not been read yet
+    std::size_t avail = size - 4 * sizeof(std::size_t);
+
     std::size_t name_len = 0;
     memcpy(&name_len, curr, sizeof(name_len));
     curr += sizeof(name_len);
 
+    if (name_len > avail) {
+        curr = orig;
+        return false;
+    }
+    avail -= name_len;
+
     name_.assign(curr, name_len);
     curr += name_len;
 
@@ -506,6 +516,13 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     cache_ = nullptr;
 
     if (count_ < first_n_) {
+        if (count_ > (avail / sizeof(*cache_))) {
+            clear();
+            curr = orig;
+            return false;
+        }
+        avail -= count_ * sizeof(*cache_);
+
         cache_ = alloc_array<double>(first_n_);
 
         for(std::size_t i = 0; i < count_; i++) {
@@ -518,6 +535,16 @@ bool Histogram::Histogram::unpack(char *&curr, std::size_t &size, std::size_t *u
     curr += sizeof(size_);
 
     if (size_) {
+        // buckets do not exist until there are enough values
+        if ((count_ < first_n_)        ||
+            (avail < sizeof(*buckets_)) ||
+            (size_ > ((avail - sizeof(*buckets_)) / (sizeof(*buckets_) + sizeof(*counts_))))) {
+            size_ = 0;
+            clear();
+            curr = orig;
+            return false;
+        }
+
         buckets_ = alloc_array<double>(size_ + 1);
         gen_counts();
 
-- 
2.43.0


From ace790b827dfdb9b689b8ae957a36669c26c800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:04 +0000
Subject: [PATCH 57/69] fix: a PUT whose hash failed for one ordering queued
 the orderings before it

---
 src/hxhim/ops/impl.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 84904cf..85ec4c1 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -1,3 +1,5 @@
+#include <list>
+
 #include "hxhim/private/hxhim.hpp"
 #include "utils/Blob.hpp"
 #include "utils/Stats.hpp"
@@ -113,6 +115,16 @@ int hxhim::PutImpl(hxhim_t *hx,
                    const hxhim_put_permutation_t permutations) {
     mlog(HXHIM_CLIENT_INFO, "Foreground PUT Start (%p, %p, %p)", subject.data(), predicate.data(), object.data());
 
+    // where each requested ordering is going
+    struct Ordering {
+        Blob *sub;
+        Blob *pred;
+        Blob *obj;
+        int rs_id;
+        ::Stats::Chronostamp hash;
+    };
+    std::list<Ordering> orderings;
+
     for(std::size_t i = 0; i < HXHIM_PUT_PERMUTATIONS_COUNT; i++) {
         if (!(permutations & HXHIM_PUT_PERMUTATIONS[i])) {
             continue;
@@ -170,20 +182,29 @@ int hxhim::PutImpl(hxhim_t *hx,
             return HXHIM_ERROR;
         }
 
+        orderings.push_back({sub, pred, obj, rs_id, hash});
+    }
+
+    // either all of the orderings are queued or none of them
+    for(Ordering const &ordering : orderings) {
+        Blob *sub  = ordering.sub;
+        Blob *pred = ordering.pred;
+        Blob *obj  = ordering.obj;
+
         mlog(HXHIM_CLIENT_DBG, "Foreground PUT Insert SPO into queue");
 
         ::Stats::Chronostamp insert;
         insert.start = ::Stats::now();
 
         // add the triple to the last packet in the queue
-        Message::Request::BPut *put = setup_packet(hx, puts[rs_id],
+        Message::Request::BPut *put = setup_packet(hx, puts[ordering.rs_id],
                                                    sub->pack_size(true)  + sizeof(sub->data()) +
                                                    pred->pack_size(true) + sizeof(pred->data()) +
                                                    obj->pack_size(true));
         put->add(*sub, *pred, *obj);
         hx->p->queues.puts.count++; // mutex is locked by caller
 
-        put->timestamps.reqs[put->count - 1].hash = hash;
+        put->timestamps.reqs[put->count - 1].hash = ordering.hash;
         put->timestamps.reqs[put->count - 1].insert = insert;
         put->timestamps.reqs[put->count - 1].insert.end = ::Stats::now();
     }
-- 
2.43.0


From 1cfd2b6f08b7ebaa534f49ff3a5cd7d5dd0e6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:33 +0000
Subject: [PATCH 58/69] fix: bulk calls reported success for operations that
 could not be queued

---
 src/hxhim/ops/BDELETE.cpp     | 15 ++++++----
 src/hxhim/ops/BGET.cpp        | 17 +++++++----
 src/hxhim/ops/BGETOP.cpp      | 19 +++++++-----
 src/hxhim/ops/BHISTOGRAM.cpp  |  9 ++++--
 src/hxhim/ops/BPUT.cpp        | 19 +++++++-----
 src/hxhim/ops/single_type.cpp | 55 ++++++++++++++++++++++-------------
 6 files changed, 87 insertions(+), 47 deletions(-)

diff --git a/src/hxhim/ops/BDELETE.cpp b/src/hxhim/ops/BDELETE.cpp
index 95f1707..734cc27 100644
--- a/src/hxhim/ops/BDELETE.cpp
+++ b/src/hxhim/ops/BDELETE.cpp
@@ -25,19 +25,24 @@ int hxhim::BDelete(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bdel;
     bdel.start = ::Stats::now();
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::DeleteImpl(hx,
-                          hx->p->queues.deletes,
-                          ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                          ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]));
+        if (hxhim::DeleteImpl(hx,
+                              hx->p->queues.deletes,
+                              ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                              ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i])) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bdel.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_DELETE].emplace_back(bdel);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGET.cpp b/src/hxhim/ops/BGET.cpp
index 6e991e6..ff573c2 100644
--- a/src/hxhim/ops/BGET.cpp
+++ b/src/hxhim/ops/BGET.cpp
@@ -28,20 +28,25 @@ int hxhim::BGet(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_types[i]);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_types[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BGETOP.cpp b/src/hxhim/ops/BGETOP.cpp
index 50c3b9e..25f84d2 100644
--- a/src/hxhim/ops/BGETOP.cpp
+++ b/src/hxhim/ops/BGETOP.cpp
@@ -31,21 +31,26 @@ int hxhim::BGetOp(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_types[i],
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_types[i],
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BHISTOGRAM.cpp b/src/hxhim/ops/BHISTOGRAM.cpp
index fb576ba..e489e58 100644
--- a/src/hxhim/ops/BHISTOGRAM.cpp
+++ b/src/hxhim/ops/BHISTOGRAM.cpp
@@ -33,15 +33,20 @@ int hxhim::BHistogram(hxhim_t *hx,
         // }
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bhist;
     bhist.start = ::Stats::now();
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]);
+        if (hxhim::HistogramImpl(hx, hx->p->queues.histograms, rs_ids[i], names[i], name_lens[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     bhist.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_HISTOGRAM].emplace_back(bhist);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/BPUT.cpp b/src/hxhim/ops/BPUT.cpp
index ef3cac2..5ed133f 100644
--- a/src/hxhim/ops/BPUT.cpp
+++ b/src/hxhim/ops/BPUT.cpp
@@ -31,6 +31,9 @@ int hxhim::BPut(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
@@ -40,12 +43,14 @@ int hxhim::BPut(hxhim_t *hx,
 
     // append these spo triples into the list of unsent PUTs
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_types[i]),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_types[i]),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -55,7 +60,7 @@ int hxhim::BPut(hxhim_t *hx,
 
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 /**
diff --git a/src/hxhim/ops/single_type.cpp b/src/hxhim/ops/single_type.cpp
index 26cd113..7cb6cae 100644
--- a/src/hxhim/ops/single_type.cpp
+++ b/src/hxhim/ops/single_type.cpp
@@ -20,6 +20,9 @@ int hxhim::BPutSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bput;
     bput.start = ::Stats::now();
 
@@ -28,12 +31,14 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     }
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::PutImpl(hx,
-                       hx->p->queues.puts.queue,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       ReferenceBlob(objects[i], object_lens[i], object_type),
-                       permutations[i]);
+        if (hxhim::PutImpl(hx,
+                           hx->p->queues.puts.queue,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           ReferenceBlob(objects[i], object_lens[i], object_type),
+                           permutations[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     if (hx->p->async_puts.enabled) {
@@ -47,7 +52,7 @@ int hxhim::BPutSingleType(hxhim_t *hx,
     mlog(HXHIM_CLIENT_DBG, "Completed %zu PUTs of type %d", count, object_type);
     bput.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_PUT].emplace_back(bput);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBPutSingleType(hxhim_t *hx,
@@ -77,22 +82,27 @@ int hxhim::BGetSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bget;
     bget.start = ::Stats::now();
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetImpl(hx,
-                       hx->p->queues.gets,
-                       ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                       ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                       object_type);
+        if (hxhim::GetImpl(hx,
+                           hx->p->queues.gets,
+                           ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                           ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                           object_type) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bget.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GET].emplace_back(bget);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetSingleType(hxhim_t *hx,
@@ -122,23 +132,28 @@ int hxhim::BGetOpSingleType(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
+    // operations that cannot be queued do not prevent the others from being queued
+    int rc = HXHIM_SUCCESS;
+
     ::Stats::Chronostamp bgetop;
     bgetop.start = ::Stats::now();
 
     for(std::size_t i = 0; i < count; i++) {
-        hxhim::GetOpImpl(hx,
-                         hx->p->queues.getops,
-                         ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
-                         ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
-                         object_type,
-                         num_records[i], ops[i]);
+        if (hxhim::GetOpImpl(hx,
+                             hx->p->queues.getops,
+                             ReferenceBlob(subjects[i], subject_lens[i], subject_types[i]),
+                             ReferenceBlob(predicates[i], predicate_lens[i], predicate_types[i]),
+                             object_type,
+                             num_records[i], ops[i]) != HXHIM_SUCCESS) {
+            rc = HXHIM_ERROR;
+        }
     }
 
     mlog(HXHIM_CLIENT_DBG, "Completed %zu GETs of type %d", count, object_type);
 
     bgetop.end = ::Stats::now();
     hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
-    return HXHIM_SUCCESS;
+    return rc;
 }
 
 int hxhimBGetOpSingleType(hxhim_t *hx,
-- 
2.43.0


From 912d810d597c8ad9cb2165d1bb7baf56da5db76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:57 +0000
Subject: [PATCH 59/69] fix: missing elements of bulk operations were
 dereferenced

---
 src/hxhim/ops/impl.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/hxhim/ops/impl.cpp b/src/hxhim/ops/impl.cpp
index 85ec4c1..91f6ca9 100644
--- a/src/hxhim/ops/impl.cpp
+++ b/src/hxhim/ops/impl.cpp
@@ -16,6 +16,11 @@
  * @param hx      the HXHIM session
  * @param queue   the queue to push into
  */
+// single operations check their arguments, but the elements of bulk operations are not seen before they get here
+static bool missing(const Blob &blob) {
+    return !blob.data() || !blob.size();
+}
+
 template <typename Request_t,
           typename = enable_if_t <is_child_of <Message::Request::Request, Request_t>::value> >
 void new_request(hxhim_t *hx, hxhim::QueueTarget<Request_t> &queue) {
@@ -115,6 +120,10 @@ int hxhim::PutImpl(hxhim_t *hx,
                    const hxhim_put_permutation_t permutations) {
     mlog(HXHIM_CLIENT_INFO, "Foreground PUT Start (%p, %p, %p)", subject.data(), predicate.data(), object.data());
 
+    if (missing(subject) || missing(predicate) || missing(object)) {
+        return HXHIM_ERROR;
+    }
+
     // where each requested ordering is going
     struct Ordering {
         Blob *sub;
@@ -235,6 +244,10 @@ int hxhim::GetImpl(hxhim_t *hx,
                    enum hxhim_data_t object_type) {
     mlog(HXHIM_CLIENT_DBG, "GET Start");
 
+    if (missing(subject) || missing(predicate)) {
+        return HXHIM_ERROR;
+    }
+
     Message::Request::BGet *get = get_packet(hx, gets,
                                              subject, predicate,
                                              sizeof(subject.data()) + sizeof(predicate.data()) +
@@ -275,6 +288,11 @@ int hxhim::GetOpImpl(hxhim_t *hx,
                      std::size_t num_records, enum hxhim_getop_t op) {
     mlog(HXHIM_CLIENT_DBG, "GETOP Start");
 
+    // NULL predicates are allowed
+    if (missing(subject) || (predicate.size() && missing(predicate))) {
+        return HXHIM_ERROR;
+    }
+
     Message::Request::BGetOp *getop = get_packet(hx, getops,
                                                  subject, predicate,
                                                  sizeof(object_type) + sizeof(num_records) + sizeof(op));
@@ -308,6 +326,10 @@ int hxhim::DeleteImpl(hxhim_t *hx,
                       Blob predicate) {
     mlog(HXHIM_CLIENT_DBG, "DELETE Start");
 
+    if (missing(subject) || missing(predicate)) {
+        return HXHIM_ERROR;
+    }
+
     Message::Request::BDelete *del = get_packet(hx, dels,
                                                 subject, predicate,
                                                 sizeof(subject.data()) + sizeof(predicate.data()));
@@ -341,6 +363,10 @@ int hxhim::HistogramImpl(hxhim_t *hx,
                          const char *name, const std::size_t name_len) {
     mlog(HXHIM_CLIENT_DBG, "HISTOGRAM Start");
 
+    if (!name && name_len) {
+        return HXHIM_ERROR;
+    }
+
     ::Stats::Chronostamp hash;
     hash.start = ::Stats::now();
     hash.end = ::Stats::now();
-- 
2.43.0


From 4050fbaf47c6649076a24e216e1ebfb824a93bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 60/69] fix: count single GETOPs as single operations

---
 src/hxhim/ops/GETOP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hxhim/ops/GETOP.cpp b/src/hxhim/ops/GETOP.cpp
index 9a695ae..c4cb4e3 100644
--- a/src/hxhim/ops/GETOP.cpp
+++ b/src/hxhim/ops/GETOP.cpp
@@ -27,16 +27,16 @@ int hxhim::GetOp(hxhim_t *hx,
         return HXHIM_ERROR;
     }
 
-    ::Stats::Chronostamp bgetop;
-    bgetop.start = ::Stats::now();
+    ::Stats::Chronostamp getop;
+    getop.start = ::Stats::now();
     const int rc = hxhim::GetOpImpl(hx,
                                     hx->p->queues.getops,
                                     ReferenceBlob(subject, subject_len, subject_type),
                                     ReferenceBlob(predicate, predicate_len, predicate_type),
                                     object_type,
                                     num_records, op);
-    bgetop.end = ::Stats::now();
-    hx->p->stats.bulk_op[hxhim_op_t::HXHIM_GETOP].emplace_back(bgetop);
+    getop.end = ::Stats::now();
+    hx->p->stats.single_op[hxhim_op_t::HXHIM_GETOP].emplace_back(getop);
     return rc;
 }
 
-- 
2.43.0


From ec5623693c49f29b03367994454823f778e6b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:34 +0000
Subject: [PATCH 61/69] fix: print_stats left the precision of the stream
 changed

---
 src/hxhim/Stats.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hxhim/Stats.cpp b/src/hxhim/Stats.cpp
index 60a5c93..aaee32f 100644
--- a/src/hxhim/Stats.cpp
+++ b/src/hxhim/Stats.cpp
@@ -11,6 +11,7 @@ std::ostream &hxhim::Stats::Global::print(const int rank,
     std::lock_guard<std::mutex> lock(mutex);
 
     std::ios_base::fmtflags flags(stream.flags());
+    const std::streamsize precision = stream.precision();
 
     stream << std::fixed << std::setprecision(3);
     {
@@ -79,5 +80,6 @@ std::ostream &hxhim::Stats::Global::print(const int rank,
     }
 
     stream.flags(flags);
+    stream.precision(precision);
     return stream;
 }
-- 
2.43.0


From 222a16d5d919e3826ec6aad7b62993ddf226371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:31 +0000
Subject: [PATCH 62/69] fix: numbers with the wrong length were read as if they
 had the right one

---
 include/datastore/transform.tpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/datastore/transform.tpp b/include/datastore/transform.tpp
index 0f687ca..fae5949 100644
--- a/include/datastore/transform.tpp
+++ b/include/datastore/transform.tpp
@@ -21,13 +21,18 @@ static void *copy(const std::string &str) {
 }
 
 template <typename T, typename = enable_if_t <std::is_integral<T>::value> >
-int integers(void *src, const size_t,
+int integers(void *src, const size_t src_size,
              void **dst, size_t *dst_size,
              void *extra) {
     if (!src || !dst || !dst_size || !extra) {
         return DATASTORE_ERROR;
     }
 
+    // not a T
+    if (src_size != sizeof(T)) {
+        return DATASTORE_ERROR;
+    }
+
     NumericExtra *num_extra = (NumericExtra *) extra;
 
     const std::string encoded = elen::encode::integers(* (T *) src, num_extra->neg, num_extra->pos);
@@ -37,13 +42,18 @@ int integers(void *src, const size_t,
 }
 
 template <typename T, typename = enable_if_t <std::is_floating_point<T>::value> >
-int floating_point(void *src, const size_t,
+int floating_point(void *src, const size_t src_size,
                    void **dst, size_t *dst_size,
                    void *extra) {
     if (!src || !dst || !dst_size || !extra) {
         return DATASTORE_ERROR;
     }
 
+    // not a T
+    if (src_size != sizeof(T)) {
+        return DATASTORE_ERROR;
+    }
+
     NumericExtra *num_extra = (NumericExtra *) extra;
 
     const std::string encoded = elen::encode::floating_point(* (T *) src,
-- 
2.43.0


From 7a9f0186cf06101c1646e8f14cc455a7b4a297eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:23 +0000
Subject: [PATCH 63/69] fix: a GETOP whose predicate could not be encoded
 ignored the predicate

---
 src/datastore/datastore.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index 5105379..fca1b0c 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -548,8 +548,11 @@ void Datastore::Datastore::BGetOp_loop_init(Message::Request::BGetOp *req,
     }
 
     // encode predicate
-    // failure doesn't matter
-    encode(callbacks, req->predicates[i], &predicate, &predicate_len);
+    // failure doesn't matter when there is no predicate
+    if ((encode(callbacks, req->predicates[i], &predicate, &predicate_len) != DATASTORE_SUCCESS) &&
+        req->predicates[i].size()) {
+        res->statuses[i] = DATASTORE_ERROR;
+    }
 
     // combine encoded subject snd encoded predicates into a key
     if (res->statuses[i] == DATASTORE_UNSET) {
-- 
2.43.0


From e103320aeb0ffe16ee0b46dd8fa6c76785ead2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 64/69] fix: setting an option to a NULL name crashed

---
 src/hxhim/options.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index 89a6a7a..a155779 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -186,6 +186,10 @@ int hxhim_set_datastore_name(hxhim_t *hx, const char *prefix, const char *basena
         return HXHIM_ERROR;
     }
 
+    if (!prefix || !basename || !postfix) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->range_server.datastores.prefix = prefix;
     hx->p->range_server.datastores.basename = basename;
     hx->p->range_server.datastores.postfix = postfix;
@@ -266,6 +270,10 @@ int hxhim_set_hash_name(hxhim_t *hx, const char *name) {
         return HXHIM_ERROR;
     }
 
+    if (!name) {
+        return HXHIM_ERROR;
+    }
+
     const std::string hash_name = name;
     std::unordered_map<std::string, hxhim_hash_t>::const_iterator it = hxhim::config::HASHES.find(hash_name);
     if (it == hxhim::config::HASHES.end()) {
@@ -295,7 +303,7 @@ int hxhim_set_hash_function(hxhim_t *hx, const char *name, hxhim_hash_t func, vo
         return HXHIM_ERROR;
     }
 
-    if (!func) {
+    if (!name || !func) {
         return HXHIM_ERROR;
     }
 
@@ -560,6 +568,10 @@ int hxhim_set_histogram_bucket_gen_name(hxhim_t *hx, const char *method) {
         return HXHIM_ERROR;
     }
 
+    if (!method) {
+        return HXHIM_ERROR;
+    }
+
     decltype(hxhim::config::HISTOGRAM_BUCKET_GENERATORS)::const_iterator gen_it = hxhim::config::HISTOGRAM_BUCKET_GENERATORS.find(method);
     if (gen_it == hxhim::config::HISTOGRAM_BUCKET_GENERATORS.end()) {
         return HXHIM_ERROR;
@@ -626,7 +638,11 @@ int hxhim_set_histogram_bucket_gen_function(hxhim_t *hx, HistogramBucketGenerato
  * @return HXHIM_SUCCESS or HXHIM_ERROR
  */
 int hxhim_add_histogram_track_predicate(hxhim_t *hx, const char *name, const size_t name_len) {
-    return hxhim_add_histogram_track_predicate(hx, std::string(name, name_len));
+    if (!name && name_len) {
+        return HXHIM_ERROR;
+    }
+
+    return hxhim_add_histogram_track_predicate(hx, name_len?std::string(name, name_len):std::string());
 }
 
 /**
-- 
2.43.0


From 0d434fb26931e5c3ca32f266d186c108a8fe5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 65/69] fix: the sign symbols were compared as signed
 characters, but keys are not

---
 src/hxhim/config.cpp  | 3 ++-
 src/hxhim/options.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 84dee54..010cb24 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -282,7 +282,8 @@ static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
         }
     }
 
-    if (neg >= pos) {
+    // keys are sorted as unsigned bytes
+    if ((unsigned char) neg >= (unsigned char) pos) {
         return false;
     }
 
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a155779..a91e67d 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -320,7 +320,8 @@ int hxhim_set_transform_numeric_values(hxhim_t *hx, const char neg, const char p
     }
 
     // encoded numbers only sort properly when the negative symbol sorts before the positive one
-    if (neg >= pos) {
+    // keys are sorted as unsigned bytes
+    if ((unsigned char) neg >= (unsigned char) pos) {
         return HXHIM_ERROR;
     }
 
-- 
2.43.0


From 88af13ddf0c8b5c908632c5552ccdc40e7a73321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 66/69] fix: floating point precisions that cannot be decoded
 were accepted

---
 src/hxhim/config.cpp  | 2 +-
 src/hxhim/options.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/config.cpp b/src/hxhim/config.cpp
index 010cb24..aa8190e 100644
--- a/src/hxhim/config.cpp
+++ b/src/hxhim/config.cpp
@@ -287,7 +287,7 @@ static bool parse_elen(hxhim_t *hx, const Config::Config &config) {
         return false;
     }
 
-    if (flt_precision >= dbl_precision) {
+    if ((flt_precision < 1) || (flt_precision >= dbl_precision)) {
         return false;
     }
 
diff --git a/src/hxhim/options.cpp b/src/hxhim/options.cpp
index a91e67d..e913bea 100644
--- a/src/hxhim/options.cpp
+++ b/src/hxhim/options.cpp
@@ -325,6 +325,11 @@ int hxhim_set_transform_numeric_values(hxhim_t *hx, const char neg, const char p
         return HXHIM_ERROR;
     }
 
+    // a floating point value without any digits cannot be decoded
+    if (!float_precision || !double_precision) {
+        return HXHIM_ERROR;
+    }
+
     hx->p->range_server.datastores.transform.numeric_extra.neg = neg;
     hx->p->range_server.datastores.transform.numeric_extra.pos = pos;
     hx->p->range_server.datastores.transform.numeric_extra.float_precision = float_precision;
-- 
2.43.0


From c32d6a47392ae0eb5d7a1b51e3dae2d35beec920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 67/69] fix: histograms read numbers of the wrong length as if
 they had the right one

---
 src/datastore/datastore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/datastore/datastore.cpp b/src/datastore/datastore.cpp
index fca1b0c..9f8b245 100644
--- a/src/datastore/datastore.cpp
+++ b/src/datastore/datastore.cpp
@@ -157,10 +157,14 @@ Message::Response::BPut *Datastore::Datastore::operate(Message::Request::BPut *r
                                 // insert the object
                                 switch (req->objects[i].data_type()) {
                                     case HXHIM_DATA_FLOAT:
-                                        hist_it->second->add(* (float *) req->objects[i].data());
+                                        if (req->objects[i].size() == sizeof(float)) {
+                                            hist_it->second->add(* (float *) req->objects[i].data());
+                                        }
                                         break;
                                     case HXHIM_DATA_DOUBLE:
-                                        hist_it->second->add(* (double *) req->objects[i].data());
+                                        if (req->objects[i].size() == sizeof(double)) {
+                                            hist_it->second->add(* (double *) req->objects[i].data());
+                                        }
                                         break;
                                     default:
                                         break;
-- 
2.43.0


From 47f50918abc7f1734c4a95eb11dbbbc6805ea3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:54 +0000
Subject: [PATCH 68/69] fix: lex_comp compared the bytes of encoded values as
 signed characters

---
 src/utils/elen.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/elen.cpp b/src/utils/elen.cpp
index d0e726c..09fceb5 100644
--- a/src/utils/elen.cpp
+++ b/src/utils/elen.cpp
@@ -29,7 +29,8 @@ int elen::encode::default_precision<double>() {
  * @return whether or not lhs comes before rhs
  */
 bool lex_comp(const std::string &lhs, const std::string &rhs) {
-    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    // encoded values are sorted as unsigned bytes
+    return (lhs < rhs);
 }
 
 static char * c_str(const std::string & str) {
@@ -118,8 +119,8 @@ elen_decode_floating_point(float);
 elen_decode_floating_point(double);
 
 int lex_comp(const void * lhs, const void * rhs) {
-    const char * l = (const char *) lhs;
-    const char * r = (const char *) rhs;
+    const unsigned char * l = (const unsigned char *) lhs;
+    const unsigned char * r = (const unsigned char *) rhs;
 
     /* not checking for NULL inputs */
     while (*l && *r) {
-- 
2.43.0


From 12ebf03d441c012d5de132b99a97ebc56c223eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:24 +0000
Subject: [PATCH 69/69] fix: GetPrintBufferContents broke the stream when there
 was nothing to print

---
 src/hxhim/accessors.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hxhim/accessors.cpp b/src/hxhim/accessors.cpp
index 4561210..3a42d8a 100644
--- a/src/hxhim/accessors.cpp
+++ b/src/hxhim/accessors.cpp
@@ -351,7 +351,9 @@ int hxhim::GetPrintBufferContents(hxhim_t *hx, std::ostream &stream) {
         return HXHIM_ERROR;
     }
 
-    stream << hx->p->print_buffer.rdbuf();
+    // inserting an empty stream buffer would put the stream into a failed state
+    const std::string contents = hx->p->print_buffer.str();
+    stream.write(contents.data(), contents.size());
     hx->p->print_buffer.str(std::string());
     hx->p->print_buffer.clear();
     return HXHIM_SUCCESS;
-- 
2.43.0

