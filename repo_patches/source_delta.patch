From 43beda4b63dd90814b8976c3f8ba5f1206a8b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 001/102] fix: dropping trailing presence map bytes must not
 run over the start of the map

---
 src/mfast/coder/encoder/encoder_presence_map.h | 10 ++++++----
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 12 ++++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  5 ++++-
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..af71723 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -33,18 +33,19 @@ private:
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
+  std::size_t start_; // where this presence map starts in the stream
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), offset_(0), start_(0), maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  offset_ = start_ = stream->offset();
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -63,7 +64,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true, start_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +87,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            start_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..baa1299 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_offset);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_offset) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_offset);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..8b1e5fe 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,20 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t pmap_offset) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
+    // drop the trailing bytes without any bit set, but never the first byte of
+    // the presence map
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (pbase_[index] == '\x80' && index > pmap_offset) {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > pmap_offset && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..082e962 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -27,8 +27,11 @@ public:
   void skip(std::size_t n);
 
   virtual std::size_t length() const;
+  // pmap_offset: where the presence map being written starts; it differs from
+  // offset when the leading bytes of the map have been written already.
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t pmap_offset);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From 7bc090de595ae75a8d630adf399d7fcfc2d95dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 002/102] fix: the field operators must see the absent fields
 of a message

---
 src/mfast/coder/encoder/fast_encoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..50df056 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -209,10 +209,11 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   for (auto &&field : message)
   {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+    if (!field.present() &&
+        field.instruction()->field_operator() == operator_default)
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From dcb396cb0f7496823c41d69dadd4387f3b18e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 003/102] fix: the length of an absent sequence goes through
 the operator of the length field

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 10 ----------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 13 +------------
 src/mfast/ext_ref.h                            |  5 ++++-
 3 files changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 50df056..296de97 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -126,16 +126,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..6e9ba46 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -262,22 +262,11 @@ inline void fast_encoder_core::encode_field(const T &ext_ref, group_type_tag) {
 template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
-
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
-  std::size_t sz = length.get().value();
+  std::size_t sz = length.present() ? length.get().value() : 0;
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
   }
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..2213a65 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -158,7 +158,10 @@ public:
 
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(base_.size());
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
-- 
2.43.0


From 31c9e16409c9ffc37da12ab466961d79ebfac3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 004/102] fix: encoding a message of an unknown template must
 report D9

---
 src/mfast/coder/encoder/fast_encoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 296de97..c608962 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -173,7 +173,8 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction **entry = this->find(template_id);
+  template_instruction *instruction = entry ? *entry : nullptr;
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
-- 
2.43.0


From 75f954c560b6e9bfe52e67ce5809caf001f216b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 005/102] fix: integer deltas of 32-bit fields do not fit 32
 bits

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 5 ++++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..13a7f14 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -448,7 +448,10 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      // unsigned arithmetic: the difference may need more bits than the field has
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 6e9ba46..25e5c60 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -505,7 +505,10 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    // unsigned arithmetic: the difference may need more bits than the field has
+    int64_t delta =
+        static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                             static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
-- 
2.43.0


From 5b3b76e30c15aa5eac6f227e364e4ba20d27311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 006/102] fix: string deltas must not be computed beyond the
 end of the base value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 6 ++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 13a7f14..89420d0 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -475,11 +475,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 25e5c60..a3cd99f 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -534,11 +534,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From 858f05cb49c76a57d4b7af68b69872ccb7806d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 007/102] fix: absent and empty strings are different previous
 values

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 5 +++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 89420d0..f42c9a8 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -269,8 +269,9 @@ struct is_same {
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+           (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                    v.size() * sizeof(T)) == 0);
   }
 };
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index a3cd99f..54f2e45 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -36,8 +36,9 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+         (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                  v.size() * sizeof(T)) == 0);
 }
 
 struct fast_encoder_core;
-- 
2.43.0


From 0909380b2e86210f51b5b332f47e9343e59d5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 008/102] fix: an unset presence bit of a tail field means the
 initial value only while the previous value is undefined

---
 .../coder/encoder/encoder_field_operator.cpp  | 19 ++++++++++++-------
 .../coder/encoder_v2/fast_encoder_core.h      | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index f42c9a8..b4c5d38 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -608,15 +608,20 @@ private:
     //   }
     // }
     // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // what a decoder takes the field for when the bit is not set
+    bool implied;
+    if (!prev.is_defined())
+      implied = cref.is_initial_value();
+    else if (prev.is_empty())
+      implied = cref.absent();
+    else
+      implied = is_same()(cref, prev);
+
+    if (implied) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 54f2e45..f66722f 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -611,15 +611,20 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // what a decoder takes the field for when the bit is not set
+  bool implied;
+  if (!prev.is_defined())
+    implied = cref.is_initial_value();
+  else if (prev.is_empty())
+    implied = cref.absent();
+  else
+    implied = equivalent(cref, prev);
+
+  if (implied) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
-- 
2.43.0


From 8ff2cfed24a3054807bc2e117d7df1be00e42607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 009/102] fix: a mandatory field without initial value never
 holds its initial value; vectors compare presence and whole elements

---
 src/mfast/decimal_ref.h |  3 ++-
 src/mfast/vector_ref.h  | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..a0cbeab 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,7 +178,8 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
+  return this->absent() == this->instruction()->initial_value().is_empty() &&
+         *this == decimal_cref(&this->instruction()->initial_value(),
                                this->instruction());
 }
 
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..b95cf57 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,10 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    return this->absent() == this->instruction()->initial_value().is_empty() &&
+           (this->absent() ||
+            *this == vector_cref_base<T, InstructionType>(
+                         &this->instruction()->initial_value(), instruction()));
   }
 
   const_iterator begin() const { return data(); }
@@ -107,11 +109,11 @@ private:
 template <typename T, typename InstructionType>
 bool operator==(const vector_cref_base<T, InstructionType> &lhs,
                 const vector_cref_base<T, InstructionType> &rhs) {
-  if (lhs.size() != rhs.size())
+  if (lhs.absent() != rhs.absent() || lhs.size() != rhs.size())
     return false;
-  if (lhs.data() == rhs.data())
+  if (lhs.size() == 0 || lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From f08e4999e7f043b33889da8f05566807c567a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 010/102] fix: an absent string is encoded as NULL and an empty
 one is not, whatever memory they hold

---
 src/mfast/coder/encoder/fast_ostream.h             |  6 +++---
 src/mfast/coder/encoder/fast_ostream_inserter.h    | 12 +++++++++---
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h |  7 ++++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index baa1299..f413aa5 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -172,7 +172,7 @@ inline void
 fast_ostream::encode(const char *ascii, uint32_t len,
                      const ascii_field_instruction * /* instruction */,
                      Nullable nullable) {
-  assert(ascii || nullable);
+  assert(ascii || nullable || len == 0);
 
   if (nullable && ascii == nullptr) {
     rdbuf()->sputc('\x80');
@@ -209,7 +209,7 @@ fast_ostream::encode(const char *unicode, uint32_t len,
                      const unicode_field_instruction * /* instruction */,
                      Nullable nullable) {
   // non-nullable string cannot have a null value
-  assert(unicode || nullable);
+  assert(unicode || nullable || len == 0);
 
   encode(len, unicode == nullptr, nullable);
   if (unicode && len > 0) {
@@ -223,7 +223,7 @@ fast_ostream::encode(const unsigned char *bv, uint32_t len,
                      const byte_vector_field_instruction * /* instruction */,
                      Nullable nullable) {
   // non-nullable byteVector cannot have a null value
-  assert(bv || nullable);
+  assert(bv || nullable || len == 0);
 
   encode(len, bv == nullptr, nullable);
   if (bv && len > 0) {
diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..e605d1a 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -11,6 +11,12 @@
 #include "fast_ostream.h"
 
 namespace mfast {
+/// the content of a present byte vector, which may never have been allocated
+inline const unsigned char *stream_content(const byte_vector_cref &cref) {
+  static const unsigned char empty = 0;
+  return cref.data() ? cref.data() : &empty;
+}
+
 template <typename U>
 inline fast_ostream &operator<<(fast_ostream &strm, const int_cref<U> &cref) {
   strm.encode(cref.value(), cref.absent(), cref.instruction()->is_nullable());
@@ -24,21 +30,21 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : stream_content(cref), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..3b16566 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -4,6 +4,7 @@
 #include "../../decimal_ref.h"
 #include "../../ext_ref.h"
 #include "../encoder/fast_ostream.h"
+#include "../encoder/fast_ostream_inserter.h"
 
 namespace mfast {
 namespace coder {
@@ -19,7 +20,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -29,7 +30,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -39,7 +40,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : stream_content(cref), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
-- 
2.43.0


From 79f04384b7da810b128c3180e4406a466a775fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 011/102] fix: an absent increment field must not be taken for
 the incremented previous value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 4 +++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index b4c5d38..20a97a8 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -326,7 +326,9 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    return v.present() &&
+           v.value() == static_cast<typename T::value_type>(
+                            previous.get<const typename T::value_type>() + 1);
   }
 };
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index f66722f..c3b43cc 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -436,8 +436,11 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (ext_ref.present() &&
+             cref.value() ==
+                 static_cast<typename T::cref_type::value_type>(
+                     previous.get<const typename T::cref_type::value_type>() +
+                     1)) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 58551eb93e80667a67252fa44d1f486f2575478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 012/102] fix: a subtraction length from the front must not
 exceed the base value

---
 src/mfast/coder/common/codec_helper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..2098c29 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -118,6 +118,9 @@ public:
       // This makes it possible
       // to encode negative zero as -1,
       base_start_index = ~substraction_length;
+      if (base_len < base_start_index) {
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("D7"));
+      }
       base_len -= base_start_index;
       base_str += base_start_index;
       delta_start_index = 0;
-- 
2.43.0


From cdfcbf4b5a335f2d08b554edfbb55216a7815f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 013/102] fix: a message may fill the output buffer to the last
 byte

---
 src/mfast/coder/encoder/fast_ostreambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 082e962..efd2160 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -57,7 +57,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -65,7 +65,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (n > static_cast<std::size_t>(epptr_ - pptr_))
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From 1b5ac4b3ced4dfe43641c1e05d2b59a92f4d7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 014/102] fix: count both presence map bits of a decimal with
 individual operators

---
 src/mfast/coder/encoder/encoder_presence_map.h | 12 ++++++++++++
 src/mfast/instructions/decimal_instruction.cpp |  5 +++++
 src/mfast/instructions/decimal_instruction.h   |  8 ++++----
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index af71723..491b6cf 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -57,6 +57,18 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // All the bytes reserved are part of the map, even when it takes less bits
+  // than expected (the mantissa of an absent decimal has no bit).
+  while (nbytes_ + 1 < maxbytes_) {
+    if (++nbytes_ == sizeof(std::size_t)) {
+      stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                              start_);
+      offset_ += sizeof(std::size_t);
+      maxbytes_ -= sizeof(std::size_t);
+      reset();
+    }
+  }
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
diff --git a/src/mfast/instructions/decimal_instruction.cpp b/src/mfast/instructions/decimal_instruction.cpp
index 3cca7a7..7a48639 100644
--- a/src/mfast/instructions/decimal_instruction.cpp
+++ b/src/mfast/instructions/decimal_instruction.cpp
@@ -22,6 +22,11 @@ void decimal_field_instruction::copy_construct_value(const value_storage &src,
   dest.of_decimal.exponent_ = src.of_decimal.exponent_;
 }
 
+std::size_t decimal_field_instruction::pmap_size() const {
+  return has_pmap_bit_ +
+         (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
+}
+
 decimal_field_instruction *
 decimal_field_instruction::clone(arena_allocator &alloc) const {
   return new (alloc) decimal_field_instruction(*this);
diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..c1c66c1 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -63,6 +63,10 @@ public:
   virtual void construct_value(value_storage &storage,
                                allocator *alloc) const override;
 
+  /// With individual operators, the exponent and the mantissa may each occupy
+  /// a bit.
+  virtual std::size_t pmap_size() const override;
+
   virtual void accept(field_instruction_visitor &, void *) const override;
   virtual decimal_field_instruction *
   clone(arena_allocator &alloc) const override;
@@ -82,10 +86,6 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
-
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From 3200685d72bccd75269e2475b64320ab97114f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:13 +0000
Subject: [PATCH 015/102] fix: the initial value of an enum defined in place is
 the value of the element named

---
 src/mfast/xml_parser/field_builder.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..95f9d45 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -608,9 +608,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -644,10 +641,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined by now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -713,9 +711,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -745,10 +740,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined by now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
-- 
2.43.0


From 17ae281d57d1d46f83bed662a1881649cedbdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:13 +0000
Subject: [PATCH 016/102] fix: the initial value of a set may name any of its
 elements, and must name one

---
 src/mfast/xml_parser/field_builder.cpp | 39 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 95f9d45..5298a35 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -808,8 +808,6 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         name_attr = xml_elt->Attribute("name");
       if (name_attr != nullptr)
       {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0)
-          fop.initial_value_.set<uint64_t>(1 << names.size());
         names.push_back(string_dup(name_attr, alloc()));
       }
     }
@@ -818,27 +816,34 @@ void field_builder::visit(const set_field_instruction *inst, void *)
       (alloc().allocate(names.size() * sizeof(const char*)));
     std::copy(names.begin(), names.end(), set_element_names);
   }
-  else
-    if (init_value_str)
+
+  if (init_value_str)
+  {
+    boost::optional<std::uint64_t> init_value;
+    for (uint64_t i = 0; i < num_elements; ++i)
+      if (std::strcmp(set_element_names[i], init_value_str) == 0)
+      {
+        init_value = static_cast<uint64_t>(1) << i;
+        break;
+      }
+
+    if (!init_value)
     {
-      boost::optional<std::uint64_t> value_int;
       try
       {
-        value_int = std::stoul(init_value_str);
-      } catch (...) {}
-      if (value_int)
-        fop.initial_value_.set<uint64_t>(*value_int);
-      else
-      {
-        for (auto i = 0ul; i < num_elements; ++i)
-          if (std::strcmp(set_element_names[i], init_value_str) == 0)
-          {
-            fop.initial_value_.set<uint64_t>(1 << i);
-            break;
-          }
+        init_value = std::stoul(init_value_str);
+      } catch (...) {
+        BOOST_THROW_EXCEPTION(
+            fast_static_error("Unrecognized set initial value : ")
+            << value_info(init_value_str));
       }
     }
 
+    // reset the storage to defined value
+    fop.initial_value_ = value_storage(0);
+    fop.initial_value_.set<uint64_t>(*init_value);
+  }
+
   auto instruction = new (alloc()) set_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
-- 
2.43.0


From 6fe26221848ca8cc02d1d81bd353f57f44fb3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:53 +0000
Subject: [PATCH 017/102] fix: the initial value of a decimal is present and
 may have a fraction

---
 src/mfast/xml_parser/field_op.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..da8fe4b 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include <cstddef>
 #include <set>
+#include <sstream>
 #include <boost/assign.hpp>
 #include "field_op.h"
 #include "../exceptions.h"
@@ -70,8 +71,17 @@ field_op::field_op(const decimal_field_instruction *inst,
 
       if (init_value_str) {
         if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
-        else {
+        {
+          std::istringstream strm(init_value_str);
+          decimal_value_storage value;
+          if (!(strm >> value) || strm.peek() != EOF) {
+            BOOST_THROW_EXCEPTION(
+                fast_static_error("S3")
+                << reason_info(std::string("Invalid decimal initial value: ") +
+                               init_value_str));
+          }
+          initial_value_ = value.storage_;
+        } else {
           short exp = 128;
           try {
             exp = boost::lexical_cast<short>(init_value_str);
-- 
2.43.0


From 0b50849d37d72e7589704415fca0084aef371da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:53 +0000
Subject: [PATCH 018/102] fix: the sign of a decimal between -1 and 0 was lost
 when parsing

---
 src/mfast/value_storage.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..6256881 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -14,6 +14,8 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int64_t mantissa;
   int16_t exponent = 0;
+  // "-0.5" has a negative sign but no negative integral part
+  const bool negative = (strm >> std::ws).peek() == '-';
   if (!(strm >> std::skipws >> mantissa)) {
     return strm;
   }
@@ -23,10 +25,7 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int c = sbuf->sbumpc();
   if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
+    if (negative) {
       mantissa = -mantissa;
     }
 
-- 
2.43.0


From 560666e06887bb912c20510b1010f0cda3765e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 019/102] fix: vectors must keep, move and fill whole elements
 and never write to memory they do not own

---
 src/mfast/vector_ref.h | 51 ++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index b95cf57..75a5968 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -217,19 +217,16 @@ public:
 
   void resize(size_t n, char c = 0) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    const size_t old_size = this->size();
+    reserve(n);
+    if (n > old_size)
+      std::fill(begin() + old_size, begin() + n, static_cast<value_type>(c));
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -296,7 +293,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
@@ -376,7 +374,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
@@ -421,34 +419,33 @@ private:
 };
 
 typedef vector_type<byte_vector_cref> byte_vector_type;
-typedef int_vector_mref<int32_vector_cref> int32_vector_type;
-typedef int_vector_mref<uint32_vector_cref> uint32_vector_type;
-typedef int_vector_mref<int64_vector_cref> int64_vector_type;
-typedef int_vector_mref<uint64_vector_cref> uint64_vector_type;
+typedef vector_type<int32_vector_cref> int32_vector_type;
+typedef vector_type<uint32_vector_cref> uint32_vector_type;
+typedef vector_type<int64_vector_cref> int64_vector_type;
+typedef vector_type<uint64_vector_cref> uint64_vector_type;
 
 template <typename T>
 void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
+  // the elements already present have to fit the new buffer as well
+  n = (std::max)(n, static_cast<size_t>(this->size()));
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+        this->storage()->of_array.content_,
+        this->storage()->of_array.capacity_in_bytes_, reserve_size);
   } else {
     void *old_addr = this->storage()->of_array.content_;
     this->storage()->of_array.content_ = nullptr;
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
         this->storage()->of_array.content_, 0, reserve_size);
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
     if (this->storage()->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
+      std::memcpy(this->storage()->of_array.content_, old_addr,
+                  this->size() * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
@@ -465,23 +462,23 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  reserve(this->size() + n);
 
   iterator src = begin() + offset;
 
   if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+    std::memmove(src + n, src, (this->size() - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(this->size() + n));
   return src;
 }
 
 template <typename T>
 void vector_mref_base<T>::replace(size_t pos, size_t count,
                                   const value_type *addr, size_t count2) const {
+  // the content may be shared with others, never change it in place.
+  this->reserve(this->size());
   if (pos + count >= this->size()) {
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
@@ -492,7 +489,7 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       this->shift(data() + pos, diff);
     } else {
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-- 
2.43.0


From dce2a54bd9d0ea5ad1481803712275e4a8a63a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 020/102] fix: a string is not greater than an equal string

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From 88d1c0e60916a5d887e4aecdda832065f21888ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 021/102] fix: assigning the initial or previous value to a
 mantissa must leave the exponent alone

---
 src/mfast/int_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..410d40a 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  // Only the value and its presence are copied: the storage of a mantissa also
+  // holds the exponent.
+  void copy_from(const value_storage &v) const {
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+    this->storage()->present(!v.is_empty());
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 7449414b331e0aa8566218df541a7383c183d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 022/102] fix: a boolean without an initial value has no
 initial value

---
 src/mfast/boolean_ref.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/boolean_ref.cpp b/src/mfast/boolean_ref.cpp
index 7d27912..15cc85e 100644
--- a/src/mfast/boolean_ref.cpp
+++ b/src/mfast/boolean_ref.cpp
@@ -11,8 +11,8 @@ static const char *boolean_elements[] = {"false", "true"};
 
 const boolean::instruction_type *boolean::instruction() {
   static const boolean_cref::instruction_type the_instruction(
-      operator_none, presence_mandatory, 0, "boolean", "", nullptr, 0,
-      boolean_elements, nullptr, 2, nullptr, "mfast");
+      operator_none, presence_mandatory, 0, "boolean", "", nullptr,
+      int_value_storage<uint64_t>(), boolean_elements, nullptr, 2, nullptr, "mfast");
 
   return &the_instruction;
 }
-- 
2.43.0


From 04f1c1bbf6595cd94ddcaa3965524c907274120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 023/102] fix: a mantissa without an initial value has no
 initial value

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 5298a35..4e5effe 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -192,7 +192,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
-- 
2.43.0


From a91a3d0c3e571387373cce0d607c9d9dae36b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 024/102] fix: a string delta against the field's own previous
 value must survive the growth of its buffer

---
 src/mfast/coder/common/codec_helper.h | 13 +++++++++++--
 src/mfast/vector_ref.h                |  8 ++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index 2098c29..4d63b4e 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -127,8 +127,17 @@ public:
       base_start_index = delta_len;
     }
 
-    mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
+    // The base value may be what the field held before; reserving memory for
+    // the new value would move it.
+    const std::size_t base_offset =
+        base_str - static_cast<const typename STRING_MREF::value_type *>(
+                       base_value.of_array.content_);
+    const bool base_is_target =
+        base_value.of_array.content_ == mref.data() && mref.owns_content();
+    mref.resize_uninitialized(base_len + delta_len);
+    if (base_is_target)
+      base_str = mref.data() + base_offset;
+    if (base_str != mref.data() + base_start_index && base_len > 0) {
       std::memmove(mref.data() + base_start_index, base_str, base_len);
     }
     if (delta_len > 0) {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 75a5968..9526da6 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -292,6 +292,14 @@ protected:
   }
 
   friend class mfast::detail::codec_helper;
+  bool owns_content() const {
+    return this->storage()->of_array.capacity_in_bytes_ > 0;
+  }
+  // changes the size, leaving alone what the buffer holds
+  void resize_uninitialized(size_t n) const {
+    reserve(n);
+    this->storage()->array_length(static_cast<uint32_t>(n));
+  }
   void copy_from(const value_storage &v) const {
     const value_type *ptr =
         static_cast<const value_type *>(v.of_array.content_);
-- 
2.43.0


From 1c38c6f1ae3fc7e96b9a2d6a1337fee9dfe18b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 025/102] fix: the decoder must not read beyond the end of its
 input or trust lengths found there

---
 .../coder/decoder/decoder_presence_map.h      |  1 +
 src/mfast/coder/decoder/fast_decoder.cpp      | 19 ++++++++++++-------
 src/mfast/coder/decoder/fast_istream.h        |  6 ++++++
 src/mfast/coder/decoder/fast_istreambuf.h     | 12 ++++++++++--
 .../coder/decoder_v2/fast_decoder_core.h      | 17 ++++++++++++-----
 src/mfast/sequence_ref.cpp                    |  3 +++
 src/mfast/value_storage.h                     |  4 ++++
 src/mfast/vector_ref.h                        |  4 ++++
 8 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..248833c 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -27,6 +27,7 @@ public:
   }
 
   bool load(fast_istreambuf &buf) {
+    buf.get_entity_length(); // the whole map has to be within the buffer
     const char *addr = buf.gptr();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..4ab4624 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -3,6 +3,7 @@
 //
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
+#include <algorithm>
 #include <boost/container/map.hpp>
 #include "../fast_decoder.h"
 #include "../../field_visitor.h"
@@ -128,6 +129,8 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  // every element takes at least a byte
+  strm_.require(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,17 +183,19 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
 
   if (length_mref.present()) {
     debug_ << "  decoded sequence length " << length_mref.value() << "\n";
-    mref.resize(length_mref.value());
+    // Do not trust a length from the stream further than there are bytes left
+    // for the elements.
+    const std::size_t length = length_mref.value();
+    std::size_t i = 0;
+    do {
+      mref.resize((std::min)(length, i + strm_.in_avail() + 1));
+      for (; i < mref.size(); ++i)
+        this->visit(sequence_element_mref(mref[i]), static_cast<int>(i));
+    } while (i < length);
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
     mref.omit();
   }
-  if (length_mref.present() && length_mref.value() > 0) {
-    int i = 0;
-    for (auto &&elem : mref) {
-      this->visit(elem, i++);
-    }
-  }
 }
 
 inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..ffe76af 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -23,6 +23,10 @@ public:
 
   bool eof() const { return buf_->in_avail() == 0; }
   bool operator!() const { return buf_->in_avail() == 0; }
+  /// The number of bytes remaining to be decoded.
+  std::size_t in_avail() const { return buf_->in_avail(); }
+  /// Throws unless at least @a n bytes remain to be decoded.
+  void require(std::size_t n) const { buf_->require(n); }
   /**
    * Decode an integer and store the result in @a result.
    *
@@ -99,6 +103,7 @@ public:
               const unicode_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = buf_->gptr();
       buf_->gbump(len);
       return true;
@@ -119,6 +124,7 @@ public:
               const byte_vector_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
       buf_->gbump(len);
       return true;
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..a3864a0 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -19,7 +19,7 @@ class fast_istreambuf {
 public:
   fast_istreambuf(const char *buf, std::size_t sz)
       : gptr_(buf), egptr_(buf + sz) {}
-  size_t in_avail() const { return egptr_ - gptr_; }
+  std::size_t in_avail() const { return egptr_ - gptr_; }
   // get the length of the stop bit encoded entity
   std::size_t get_entity_length() {
     const std::size_t n = in_avail();
@@ -45,7 +45,15 @@ protected:
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    require(1);
+    return *gptr_;
+  }
+  // throws unless n more bytes are available
+  void require(std::size_t n) const {
+    if (in_avail() < n)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..eb31bd9 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -17,6 +17,7 @@
 #include "../common/codec_helper.h"
 #include "../decoder/fast_istream.h"
 #include "fast_istream_extractor.h"
+#include <algorithm>
 #include <vector>
 namespace mfast {
 namespace coder {
@@ -220,6 +221,8 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  // every element takes at least a byte
+  this->strm_.require(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -252,11 +255,15 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
 
   if (length.present()) {
     std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
-
-    for (std::size_t i = 0; i < len; ++i) {
-      this->visit(ext_ref[i]);
-    }
+    // Do not trust a length from the stream further than there are bytes left
+    // for the elements.
+    std::size_t i = 0;
+    do {
+      ext_ref.set().resize(
+          (std::min)(len, i + this->strm_.in_avail() + 1));
+      for (; i < ext_ref.size(); ++i)
+        this->visit(ext_ref[i]);
+    } while (i < len);
   } else {
     ext_ref.omit();
   }
diff --git a/src/mfast/sequence_ref.cpp b/src/mfast/sequence_ref.cpp
index 7551c3a..be79db0 100644
--- a/src/mfast/sequence_ref.cpp
+++ b/src/mfast/sequence_ref.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "mfast/sequence_ref.h"
 #include "mfast/allocator.h"
+#include <new>
 
 namespace mfast {
 namespace detail {
@@ -18,6 +19,8 @@ void sequence_mref_helper::reserve(
   std::size_t element_size = instruction->group_content_byte_count();
 
   std::size_t reserve_size = n * element_size;
+  if (reserve_size > value_storage::max_reserve_size)
+    throw std::bad_alloc();
 
   if (reserve_size > storage->of_array.capacity_in_bytes_) {
 
diff --git a/src/mfast/value_storage.h b/src/mfast/value_storage.h
index 8522336..eb48ce6 100644
--- a/src/mfast/value_storage.h
+++ b/src/mfast/value_storage.h
@@ -81,6 +81,10 @@ union MFAST_EXPORT value_storage {
     value_storage *content_;
   } of_templateref;
 
+  // The most memory to ask an allocator for in a reallocation. What it returns
+  // can be twice as much and the size of that has to fit capacity_in_bytes_.
+  enum { max_reserve_size = 0x3FFFFFC0 };
+
   // construct an undefined value
   value_storage() {
     of_uint64.content_ = 0;
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 9526da6..acb08ed 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -4,9 +4,11 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #pragma once
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <cstring>
+#include <new>
 #include <vector>
 #include "field_ref.h"
 #include "allocator.h"
@@ -440,6 +442,8 @@ void vector_mref_base<T>::reserve(
   // the elements already present have to fit the new buffer as well
   n = (std::max)(n, static_cast<size_t>(this->size()));
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
+  if (reserve_size > value_storage::max_reserve_size)
+    throw std::bad_alloc();
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-- 
2.43.0


From ce69aa4f7120a21aacc0ec3a0df1ed257d76f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 026/102] fix: the elements of a sequence with a sole
 templateRef used previous values outside of the coder

---
 src/mfast/coder/common/dictionary_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..dc9d472 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -151,6 +151,14 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
 
   this->build_group(src_inst, src_inst, dest);
 
+  if (dest->element_instruction_) {
+    // the elements are accessed through this one
+    group_field_instruction *element =
+        dest->element_instruction_->clone(alloc_);
+    element->set_subinstructions(dest->subinstructions());
+    dest->element_instruction_ = element;
+  }
+
   if (src_inst->length_instruction()) {
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
   } else {
-- 
2.43.0


From 4ed1bfcbf3a950a752abf4821af305cc7925262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 027/102] fix: fast_type_gen must name the element tables of
 the enums and sets of a template differently

---
 src/fast_type_gen/cpp_gen.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..5516d0b 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -606,10 +606,12 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
-    elements_variable_name << "elements";
+    // a template can have several enums defined in place
+    std::string stem = pIndex ? prefix_string() + name + "_" : std::string();
+    elements_variable_name << stem << "elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,7 +622,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      values_variable_name = stem + "values";
+      out_ << "static const uint64_t " << values_variable_name << "[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
@@ -629,7 +632,6 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
         out_ << "  " << inst->element_values()[i];
       }
       out_ << "};\n";
-      values_variable_name = "values";
     }
   }
 
@@ -696,9 +698,12 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
-    elements_variable_name << "elements";
+    // a template can have several sets defined in place
+    elements_variable_name
+        << (pIndex ? prefix_string() + name + "_" : std::string())
+        << "elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
-- 
2.43.0


From 5faf68d847a9aab847bff3376794b407efde3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 028/102] fix: fast_type_gen must qualify the type of a set
 defined in place

---
 src/fast_type_gen/inl_gen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..51fd9ee 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -1120,8 +1120,8 @@ void inl_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     }
   }
   std::string ret_type = cpp_type_of(inst, nullptr);
-  auto ret_cref = ret_type + "_cref";
-  auto ret_mref = ret_type + "_mref";
+  auto ret_cref = inst->ref_instruction() ? ret_type + "_cref" : cref_type_name;
+  auto ret_mref = inst->ref_instruction() ? ret_type + "_mref" : mref_type_name;
   gen_accessors(inst, name, ret_cref, ret_mref, pIndex);
 }
 
-- 
2.43.0


From f037bbbf61e9c68b2d3dad9eda00b4996785f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 029/102] fix: the generated encoder could not be compiled for
 sets with previous values

---
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index c3b43cc..8a0962b 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -8,6 +8,7 @@
 #include "../encoder/resizable_fast_ostreambuf.h"
 #include "../encoder/encoder_presence_map.h"
 #include "../../ext_ref.h"
+#include "../../set_ref.h"
 #include "fast_ostream_inserter.h"
 #include <tuple>
 
@@ -34,6 +35,11 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
          v.value() == prev.of_uint64.content_;
 }
 
+inline bool equivalent(const set_cref &v, const value_storage &prev) {
+  return v.absent() == prev.is_empty() &&
+         v.value() == prev.of_uint64.content_;
+}
+
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
   return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
-- 
2.43.0


From 51184795a0afca166ea8033992a96bf35e4f93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 030/102] fix: the generated decoder told mandatory fields
 without initial value by their operator

---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 2213a65..609bea8 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From 77cfa239543c1e324d287b668aaedc1471c2c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 031/102] fix: the groups of a message decoded through a
 dynamic templateRef were not constructed

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 2 +-
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 4ab4624..695fd12 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -242,8 +242,8 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
   }
+  mref.set_target_instruction(active_message_->instruction());
 
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index eb31bd9..9c2b408 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -637,8 +637,7 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     }
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  mref.set_target_instruction(this->active_message().instruction());
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
-- 
2.43.0


From 0ad342e8c1af8433372714cf7f8e910bca9ff903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:46 +0000
Subject: [PATCH 032/102] fix: previous values must not be read from messages
 which were replaced or may be modified

---
 src/mfast/coder/common/template_repo.h        | 22 ++++++++++++++++---
 src/mfast/coder/decoder/fast_decoder.cpp      |  7 +++++-
 .../coder/decoder_v2/fast_decoder_core.h      | 17 +++++++++++++-
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/common/template_repo.h b/src/mfast/coder/common/template_repo.h
index cc8c510..8a31667 100644
--- a/src/mfast/coder/common/template_repo.h
+++ b/src/mfast/coder/common/template_repo.h
@@ -7,6 +7,7 @@
 
 #include "dictionary_builder.h"
 #include <map>
+#include <string>
 
 namespace mfast {
 class template_repo_base {
@@ -15,7 +16,7 @@ public:
       : dictionary_alloc_(dictionary_alloc) {}
   virtual ~template_repo_base() {
     for (auto &elem : vector_entries_) {
-      if (elem->of_array.capacity_in_bytes_)
+      if (dictionary_alloc_ && elem->of_array.capacity_in_bytes_)
       {
         dictionary_alloc_->deallocate(elem->of_array.content_,
                                       elem->of_array.capacity_in_bytes_);
@@ -31,6 +32,21 @@ public:
     }
   }
 
+  /// Let the dictionary have its own copies of the strings and byte vectors it
+  /// shares with messages, before these messages are changed or destroyed.
+  void unshare_dictionary() {
+    for (auto &elem : vector_entries_) {
+      auto &array = elem->of_array;
+      if (!elem->is_defined() || array.len_ < 2 || array.capacity_in_bytes_)
+        continue;
+      std::string &copy = unshared_values_[elem];
+      if (array.content_ == copy.data())
+        continue;
+      copy.assign(static_cast<const char *>(array.content_), array.len_ - 1);
+      array.content_ = &copy[0];
+    }
+  }
+
   virtual template_instruction *get_template(uint32_t id) = 0;
 
 private:
@@ -41,8 +57,7 @@ private:
 public:
 #endif
   void add_vector_entry(value_storage *entry) {
-    if (dictionary_alloc_)
-      vector_entries_.push_back(entry);
+    vector_entries_.push_back(entry);
   }
 
 protected:
@@ -53,6 +68,7 @@ protected:
   value_entries_t vector_entries_; // for string and byteVector
   arena_allocator instruction_alloc_;
   mfast::allocator *dictionary_alloc_;
+  std::map<value_storage *, std::string> unshared_values_;
 };
 
 template <typename EntryValueConverter>
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 695fd12..71852c3 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -243,7 +243,12 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
                             << template_id_info(template_id));
     }
   }
-  mref.set_target_instruction(active_message_->instruction());
+
+  if (mref.target_instruction() != active_message_->instruction()) {
+    // the previous values may be those of the message to be replaced
+    repo_.unshare_dictionary();
+    mref.set_target_instruction(active_message_->instruction());
+  }
 
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 9c2b408..e5c9307 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -637,7 +637,11 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     }
   }
 
-  mref.set_target_instruction(this->active_message().instruction());
+  if (mref.target_instruction() != this->active_message().instruction()) {
+    // the previous values may be those of the message to be replaced
+    repo_.unshare_dictionary();
+    mref.set_target_instruction(this->active_message().instruction());
+  }
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
@@ -689,6 +693,17 @@ const message_mref &fast_decoder_core<NumTokens>::decode_stream(
   fast_istreambuf sb(first, last - first);
   this->set_token(token);
   this->force_reset_ = force_reset;
+
+  // When the messages may be modified, they must not share the dictionary
+  // values; this includes the message where decoding has failed.
+  struct unshare_dictionary_on_exit {
+    fast_decoder_core *core_;
+    ~unshare_dictionary_on_exit() {
+      if (NumTokens > 0)
+        core_->repo_.unshare_dictionary();
+    }
+  } on_exit = {this};
+
   const auto &result = this->decode_segment(sb);
   first = sb.gptr();
   return result;
-- 
2.43.0


From 64476711daf90ad26e837217c3dfdaed5fadc6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:58 +0000
Subject: [PATCH 033/102] fix: decoders must reset the dictionary for a nested
 message of a template with reset, as encoders do

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 3 +++
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 71852c3..d5b13ad 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -250,6 +250,9 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     mref.set_target_instruction(active_message_->instruction());
   }
 
+  if (active_message_->instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e5c9307..442b923 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -642,6 +642,9 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     repo_.unshare_dictionary();
     mref.set_target_instruction(this->active_message().instruction());
   }
+
+  if (this->active_message().instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
-- 
2.43.0


From 8fa9022683530310cfafdf32be513c9202344814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 034/102] fix: generated try_get accessor of a dynamic
 templateRef lacked its return type

---
 src/fast_type_gen/inl_gen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 51fd9ee..7ca3fea 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,8 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
-       << "() const\n"
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
        << "}\n\n"
-- 
2.43.0


From 35b594b3dc4d1ba4059d98aa79e7373b712c6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 035/102] fix: generated-code decoder crashed on an unknown
 template id of a nested message

---
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 442b923..9beebd7 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -633,7 +633,8 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
-          << referenced_by_info(this->active_message().name()));
+          << referenced_by_info(
+                 saved_active_info->messages_[this->get_token()].name()));
     }
   }
 
-- 
2.43.0


From 4cd2843a912e4b3a516f4bf467d5534d120db4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 036/102] fix: generated-code coders could not be compiled for
 a sequence of nothing but a dynamic templateRef

---
 src/mfast/ext_ref.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 609bea8..26ebda0 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -236,6 +236,23 @@ private:
   bool group_present_ = true;
 };
 
+// the element of a sequence which contains nothing but a dynamic templateRef
+template <typename Properties>
+class ext_cref<nested_message_cref, none_operator_tag, Properties>
+    : public ext_ref_properties<group_type_tag, Properties> {
+public:
+  typedef group_type_tag type_category;
+  typedef group_type_tag operator_category;
+  typedef nested_message_cref cref_type;
+
+  explicit ext_cref(const aggregate_cref &base) : base_(base) {}
+  cref_type get() const { return cref_type(base_[0]); }
+  bool present() const { return true; }
+
+private:
+  aggregate_cref base_;
+};
+
 ///////////////////////////////////////////////////////////////
 
 template <typename BaseMRef, typename OpType, typename Properties>
@@ -400,4 +417,24 @@ private:
   field_mref base_;
 };
 
+// the element of a sequence which contains nothing but a dynamic templateRef
+template <typename Properties>
+class ext_mref<nested_message_mref, none_operator_tag, Properties>
+    : public ext_ref_properties<group_type_tag, Properties> {
+public:
+  typedef group_type_tag type_category;
+  typedef group_type_tag operator_category;
+  typedef nested_message_cref cref_type;
+  typedef nested_message_mref mref_type;
+
+  explicit ext_mref(const aggregate_mref &base) : base_(base) {}
+  cref_type get() const { return cref_type(aggregate_cref(base_)[0]); }
+  mref_type set() const { return mref_type(base_[0]); }
+  bool present() const { return true; }
+  void omit() const {}
+
+private:
+  aggregate_mref base_;
+};
+
 } /* mfast */
-- 
2.43.0


From d6abde428352d926e23ade0fb03865d0e9f23ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 037/102] fix: comparing aggregates regards the presence and
 type of each field

---
 src/mfast/field_comparator.h | 43 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..e57ab15 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -18,27 +18,42 @@ public:
     return lhs == rhs;
   }
 
+  static bool compare(const field_cref &lhs, const field_cref &rhs) {
+    if (lhs.instruction()->field_type() != rhs.instruction()->field_type() ||
+        lhs.present() != rhs.present())
+      return false;
+
+    if (lhs.absent())
+      return true;
+
+    field_comparator comparator(rhs);
+    return apply_accessor(comparator, lhs);
+  }
+
   static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (!compare(lhs[i], rhs[i]))
           return false;
-
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
       }
       return true;
     }
     return false;
   }
 
-  bool visit(const aggregate_cref &lhs, int) const {
-    return compare(lhs, static_cast<aggregate_cref>(rhs_));
+  bool visit(const group_cref &lhs, int) const {
+    return compare(static_cast<aggregate_cref>(lhs),
+                   static_cast<aggregate_cref>(rhs_));
+  }
+
+  bool visit(const nested_message_cref &lhs, int) const {
+    nested_message_cref rhs(rhs_);
+    // references not bound to a template have no content
+    if (lhs.target_instruction() == nullptr ||
+        rhs.target_instruction() == nullptr)
+      return lhs.target_instruction() == rhs.target_instruction();
+    return compare(static_cast<aggregate_cref>(lhs),
+                   static_cast<aggregate_cref>(rhs));
   }
 
   bool visit(const sequence_cref &lhs, int) const {
@@ -60,11 +75,7 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
-    return false;
-
-  detail::field_comparator comparator(rhs);
-  return apply_accessor(comparator, lhs);
+  return detail::field_comparator::compare(lhs, rhs);
 }
 
 using namespace std::rel_ops;
-- 
2.43.0


From 3e785c105bc776d4e5f20055013afeb14a0c9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 038/102] fix: an absent string field is not equal to an empty
 one

---
 src/mfast/string_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index ec203dd..1c50f1a 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -32,7 +32,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator==(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) == 0;
+    return this->absent() == other.absent() && compare(other) == 0;
   }
 
   bool operator!=(const boost::string_ref &other) const {
@@ -40,7 +40,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator!=(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) != 0;
+    return !(*this == other);
   }
 
   bool operator>(const boost::string_ref &other) const {
-- 
2.43.0


From c8a0b4c5cc71315a70cf2dfd6d12dc970688f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 039/102] fix: comparing generated enum and set fields regards
 presence

---
 src/mfast/enum_ref.h | 5 ++++-
 src/mfast/set_ref.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mfast/enum_ref.h b/src/mfast/enum_ref.h
index aadbe4a..f4473b3 100644
--- a/src/mfast/enum_ref.h
+++ b/src/mfast/enum_ref.h
@@ -132,7 +132,10 @@ public:
       : enum_cref(storage, instruction) {}
 
   enum_cref_ex(const field_cref &other) : enum_cref(other) {}
-  bool operator==(const Derived &v) const { return this->value() == v.value(); }
+  bool operator==(const Derived &v) const {
+    return this->absent() == v.absent() &&
+           (this->absent() || this->value() == v.value());
+  }
   bool operator==(element_type v) const { return this->value() == v; }
   bool operator!=(const Derived &v) const { return !(*this == v); }
   bool operator!=(element_type v) const { return !(*this == v); }
diff --git a/src/mfast/set_ref.h b/src/mfast/set_ref.h
index 6d0adcd..f312c11 100644
--- a/src/mfast/set_ref.h
+++ b/src/mfast/set_ref.h
@@ -139,7 +139,10 @@ namespace detail {
       set_cref(storage, instruction) {}
 
     set_cref_ex(const field_cref &other) : set_cref(other) {}
-    bool operator==(const Derived &v) const { return this->value() == v.value(); }
+    bool operator==(const Derived &v) const {
+    return this->absent() == v.absent() &&
+           (this->absent() || this->value() == v.value());
+  }
     bool operator==(element_type v) const { return this->value() == v; }
     bool operator!=(const Derived &v) const { return !(*this == v); }
     bool operator!=(element_type v) const { return !(*this == v); }
-- 
2.43.0


From 96a19cbacbe66baff0501ab6681498f86193b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 040/102] fix: as() of sequence elements copies the fields of
 the element

---
 src/mfast/aggregate_ref.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..9809f6c 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,11 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
-  // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  // the second chunk for construct the new aggregate value. The instruction of
+  // an element may be the one of its sequence, only its subfields are copied.
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content, this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From 8dcfe946917d4c3237dab5f620891a3d269a405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 041/102] fix: assigning sequences compiles; crend() is the end

---
 src/mfast/sequence_ref.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..f51657a 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
@@ -355,10 +355,9 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
-      dest->as(*itr);
+    for (; first != last; ++first, ++dest)
+      (*dest).as(*first);
   }
 
   template <typename Range> void as(Range r) const {
@@ -453,9 +452,9 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
-                                            this->alloc_);
-  std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->copy_construct_value(
+      *field_cref_core_access::storage_of(src), tmp_storage, this->alloc_);
+  std::swap(tmp_storage, *this->storage());
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From ff5cbfed1793115e1a6fe8571826739ec75c7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 042/102] fix: decimal text is read exactly or rejected

---
 src/mfast/decimal_ref.h     |  9 +++++++--
 src/mfast/value_storage.cpp | 27 ++++++++++++++++-----------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index a0cbeab..1459780 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -377,14 +377,19 @@ private:
     typedef boost::iostreams::stream<boost::iostreams::array_source>
         array_stream;
     array_stream is(decimal_str.data(), decimal_str.size());
-    is >> *reinterpret_cast<decimal_value_storage *>(this->storage());
+    value_storage parsed;
+    is >> *reinterpret_cast<decimal_value_storage *>(&parsed);
 
-    if (!is) {
+    // nothing but white space may follow the number
+    if (!is || !(is.eof() || (is >> std::ws).peek() == EOF)) {
       std::string msg(decimal_str.data(), decimal_str.size());
       msg += " is not a decimal value";
       BOOST_THROW_EXCEPTION(std::runtime_error(msg));
     }
 
+    this->storage()->of_decimal.mantissa_ = parsed.of_decimal.mantissa_;
+    this->storage()->of_decimal.exponent_ = parsed.of_decimal.exponent_;
+    this->storage()->present(1);
     normalize();
   }
 
diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 6256881..6b5790a 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,12 +8,13 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int64_t mantissa;
-  int16_t exponent = 0;
+  int32_t exponent = 0;
   // "-0.5" has a negative sign but no negative integral part
   const bool negative = (strm >> std::ws).peek() == '-';
   if (!(strm >> std::skipws >> mantissa)) {
@@ -25,19 +26,18 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int c = sbuf->sbumpc();
   if (c == '.') {
-    if (negative) {
-      mantissa = -mantissa;
-    }
-
     while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
+      const int digit = c - '0';
+      // the digits have to fit the mantissa
+      if (negative ? mantissa < ((std::numeric_limits<int64_t>::min)() + digit) / 10
+                   : mantissa > ((std::numeric_limits<int64_t>::max)() - digit) / 10) {
+        strm.setstate(std::ios::failbit);
+        return strm;
+      }
       mantissa *= 10;
-      mantissa += c - '0';
+      mantissa += negative ? -digit : digit;
       exponent -= 1;
     }
-
-    if (negative) {
-      mantissa = -mantissa;
-    }
   }
 
   if (c == 'e' || c == 'E') {
@@ -49,8 +49,13 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
   } else if (c != EOF) {
     strm.putback(c);
   }
+  if (exponent < (std::numeric_limits<int16_t>::min)() ||
+      exponent > (std::numeric_limits<int16_t>::max)()) {
+    strm.setstate(std::ios::failbit);
+    return strm;
+  }
   storage.mantissa(mantissa);
-  storage.exponent(exponent);
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
-- 
2.43.0


From a8f6b6ac6693f0031bf30305c63da8c00c4839d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 043/102] fix: copying a string or vector no longer reads past
 content it refers to

---
 src/mfast/instructions/string_instructions.cpp     | 8 ++++++--
 src/mfast/instructions/vector_instruction_base.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..e134ed5 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,12 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+    // the source need not be terminated
+    if (len > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (len - 1) * element_size_);
+    static_cast<char *>(dest.of_array.content_)[(len - 1) * element_size_] =
+        '\0';
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..032f211 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,12 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+    // len_ is one more than the number of elements the source may read from
+    const std::size_t content_size = (src.of_array.len_ - 1) * element_size_;
+    if (content_size)
+      std::memcpy(dest.of_array.content_, src.of_array.content_, content_size);
+    std::memset(static_cast<char *>(dest.of_array.content_) + content_size, 0,
+                element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 8e550230b086ecc95a7a028a1277795355611cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 044/102] fix: clear() empties a mandatory sequence

---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..6ee7c47 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -22,6 +22,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From a29e71e949607aacbe9cd8a2703356c6e202f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 045/102] fix: the distance between sequence iterators can be
 negative

---
 src/mfast/sequence_ref.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index f51657a..75e5ad3 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -120,8 +120,10 @@ private:
   void increment() { advance(1); }
   void decrement() { advance(-1); }
   int distance_to(sequence_iterator const &other) const {
-    return (other.content_storage() - this->content_storage()) /
-           this->element_group_content_byte_count();
+    return static_cast<int>(
+        (other.content_storage() - this->content_storage()) /
+        static_cast<std::ptrdiff_t>(
+            this->element_group_content_byte_count()));
   }
 };
 
-- 
2.43.0


From 78b685f02753c516a0722dd10a5b39a726a457c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 046/102] fix: c_str() ends where the string ends for empty and
 referring strings

---
 src/mfast/string_ref.h | 2 +-
 src/mfast/vector_ref.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 1c50f1a..fa9ce86 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -88,7 +88,7 @@ public:
       const_cast<char &>(*this->end()) = '\0';
       return this->data();
     }
-    return this->data() ? this->data() : "";
+    return this->size() ? this->data() : "";
   }
 };
 
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index acb08ed..b94fd82 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -231,7 +231,7 @@ public:
   void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
-      this->storage()->of_array.len_ -= 1;
+      resize(this->size() - 1);
   }
 
   iterator insert(iterator position, value_type val) const {
-- 
2.43.0


From 2816bcddf074bbe9506f32e15eaca461c0916f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 047/102] fix: an arena stays usable when a request cannot be
 met and rejects sizes that overflow

---
 src/mfast/arena_allocator.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..fd745f5 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -33,6 +33,8 @@ arena_allocator::~arena_allocator() {
 }
 
 void *arena_allocator::allocate(std::size_t n) {
+  if (n > static_cast<std::size_t>(-1) / 4)
+    throw std::bad_alloc();
   // align n to the multiple of pointer
   n = align(n, sizeof(void *));
 
@@ -48,6 +50,16 @@ void *arena_allocator::allocate(std::size_t n) {
       tmp->next_ = current_list_head_;
       current_list_head_ = static_cast<memory_chunk *>(tmp);
     } else {
+      // allocate new memory chunk from the system
+      std::size_t new_chunk_size = align(
+          n + sizeof(memory_chunk) -
+              sizeof(uint64_t), // minimum size for the new block
+          default_chunk_size);  // make the size multiple of default_chunk_size
+
+      void *block = malloc(new_chunk_size);
+      if (block == nullptr)
+        throw std::bad_alloc();
+
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
         // free_list
@@ -58,15 +70,6 @@ void *arena_allocator::allocate(std::size_t n) {
         current_list_head_ =
             static_cast<memory_chunk *>(tmp_current_list_head_head);
       }
-      // allocate new memory chunk from the system
-      std::size_t new_chunk_size = align(
-          n + sizeof(memory_chunk) -
-              sizeof(uint64_t), // minimum size for the new block
-          default_chunk_size);  // make the size multiple of default_chunk_size
-
-      void *block = malloc(new_chunk_size);
-      if (block == nullptr)
-        throw std::bad_alloc();
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
     }
@@ -81,6 +84,8 @@ void *arena_allocator::allocate(std::size_t n) {
 
 std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
                                         std::size_t new_size) {
+  if (new_size > static_cast<std::size_t>(-1) / 8)
+    throw std::bad_alloc();
   // make the new_size at least 64 bytes
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
-- 
2.43.0


From d2bf401cd09e0439539157e5ee39c254da274f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 048/102] fix: reallocating arena memory to a smaller size
 wrote past the new block

---
 src/mfast/arena_allocator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index fd745f5..60a7250 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "arena_allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
 #include <cstdlib>
 #include <new>
@@ -90,7 +91,8 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  if (old_size != 0)
+    std::memcpy(pointer, old_pointer, std::min(old_size, new_size));
   return new_size;
 }
 
-- 
2.43.0


From 11df1e7fd3d773cbaca99031e3b6b84d283eb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 049/102] fix: an arena makes use of all its free chunks after
 a reset instead of growing forever

---
 src/mfast/arena_allocator.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 60a7250..1b88240 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -42,14 +42,23 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
+    // find a chunk in the free_list which is big enough
+    memory_chunk_base *prev = nullptr;
+    memory_chunk_base *found = free_list_head_;
+    while (found && static_cast<memory_chunk *>(found)->size() < n) {
+      prev = found;
+      found = found->next_;
+    }
+
+    if (found) {
+      // move it from the free_list to become the head of current_list
+      if (prev)
+        prev->next_ = found->next_;
+      else
+        free_list_head_ = static_cast<memory_chunk *>(found->next_);
 
-      tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+      found->next_ = current_list_head_;
+      current_list_head_ = static_cast<memory_chunk *>(found);
     } else {
       // allocate new memory chunk from the system
       std::size_t new_chunk_size = align(
@@ -103,6 +112,11 @@ bool arena_allocator::reset() {
     tmp = static_cast<memory_chunk *>(tmp->next_);
     tmp->start_ = reinterpret_cast<char *>(tmp->user_memory);
   }
+  // the chunks in the free_list may be partially used
+  for (memory_chunk_base *chunk = free_list_head_; chunk != nullptr;
+       chunk = chunk->next_)
+    chunk->start_ = reinterpret_cast<char *>(
+        static_cast<memory_chunk *>(chunk)->user_memory);
   // append the free_list_head_ to the tail of current_list
   tmp->next_ = free_list_head_;
   // make current_list_head_->next_ to become the new head of free_list
-- 
2.43.0


From 86c37cf2dd0d155e7f8f40cfff64c849b79bebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 050/102] fix: JSON writes two hexadecimal digits for every
 byte of a byte vector

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..6575ba8 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -101,13 +101,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From 52140f20d64a2316af91ef4dc7e1993b2237d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 051/102] fix: JSON keeps what follows a NUL character in a
 string

---
 src/mfast/json/json_encode.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 6575ba8..0f7c872 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +26,10 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+void write_quoted(std::ostream &os, const char *ptr, std::size_t n) {
   os.put('"');
-  const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  for (const char *end = ptr + n; ptr != end; ++ptr) {
+    const char c = *ptr;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -51,6 +51,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
     os.put(c);
   }
   os.put('"');
+}
+
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  write_quoted(os, str.str_, std::strlen(str.str_));
   return os;
 }
 
@@ -86,7 +90,8 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_;
+    write_quoted(strm_, ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 56661948300f4ba887deb7a0b3ed8c6f8d249454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 052/102] fix: JSON writes a value for absent elements and
 unbound template references

---
 src/mfast/json/json_encode.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 0f7c872..f830c1d 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -136,6 +136,8 @@ public:
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
         if (f0.present())
           this->visit(mfast::nested_message_cref(f0), 0);
+        else
+          strm_ << separator_ << "{}";
         return;
       }
     }
@@ -167,7 +169,11 @@ public:
   }
 
   void visit(const mfast::sequence_element_cref &ref, int) {
-    if (ref.element_unnamed()) {
+    if (ref.element_unnamed() && ref[0].absent() &&
+        ref[0].instruction()->field_type() !=
+            mfast::field_type_templateref) {
+      strm_ << separator_ << "null";
+    } else if (ref.element_unnamed()) {
       apply_accessor(*this, ref[0]);
       ;
     } else {
@@ -200,6 +206,8 @@ public:
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
         if (f0.present())
           this->visit(mfast::nested_message_cref(f0), 0);
+        else
+          strm_ << separator_ << "{}";
         return;
       }
     }
-- 
2.43.0


From ae6c877939f5d7f9e6ecb88ecf7dd01d13e0d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:23 +0000
Subject: [PATCH 053/102] fix: zero is written as a single digit whatever its
 exponent

---
 src/mfast/value_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 6b5790a..27efc60 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -90,7 +90,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From 62fb028d725467b6a33a54f3771e30b6e4698e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 054/102] fix: JSON input rejects negative numbers for unsigned
 fields

---
 src/mfast/json/json_decode.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..8545177 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -309,6 +309,9 @@ struct decode_visitor {
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
+    // the stream would read a negative number into an unsigned value
+    if (!std::is_signed<value_type>::value && (strm_ >> std::ws).peek() == '-')
+      strm_.setstate(std::ios::failbit);
     if (strm_ >> value, strm_.good())
       ref.as(value);
     else
@@ -408,7 +411,14 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i] >> std::skipws >> c;
+      // the stream would read a negative number into an unsigned value
+      if (!std::is_signed<IntType>::value &&
+          (strm_ >> std::ws).peek() == '-')
+        strm_.setstate(std::ios::failbit);
+
+      IntType value = 0;
+      strm_ >> value >> std::skipws >> c;
+      ref[i] = value;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From 5cc40e11cfcfbb81f6d185ca15b37c5c8d79172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 055/102] fix: JSON strings may hold the byte 0xFF, and an
 escaped NUL is rejected

---
 src/mfast/json/json_decode.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 8545177..2bad7b3 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -121,12 +121,13 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
   bool escaped = false;
 
   do {
-    c = buf->sbumpc();
+    const int next = buf->sbumpc();
+    c = static_cast<char>(next);
 
-    if (pref)
+    if (pref && next != EOF)
       pref->push_back(c);
 
-    if (c != EOF) {
+    if (next != EOF) {
       if (!escaped) {
         if (c == '\\') {
           escaped = true;
@@ -139,7 +140,7 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
         const char *escapables = "\b\t\n\f\r\"/\\";
         const char *orig = "btnfr\"/\\";
         const char *pch = strchr(orig, c);
-        if (pch != nullptr) {
+        if (pch != nullptr && c != '\0') {
           c = escapables[pch - orig];
           escaped = false;
         } else if (c == 'u') {
-- 
2.43.0


From 15640289186486a58a148c9b423e7443eb0cf45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 056/102] fix: JSON input skips unknown members whose number
 does not fit a double

---
 src/mfast/json/json_decode.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 2bad7b3..02a5d0a 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -274,10 +274,15 @@ bool skip_value(std::istream &strm) {
       return true;
   } else if (c1 == '-' || isdigit(c1)) {
     // skip number
-    strm.putback(c1);
-    double d;
-    strm >> d;
-    return strm.good();
+    bool digits = isdigit(c1) != 0;
+    int c = strm.peek();
+    while (c != EOF && (isdigit(c) || strchr("+-.eE", c) != nullptr)) {
+      digits = digits || isdigit(c);
+      strm.get();
+      c = strm.peek();
+    }
+    if (digits)
+      return strm.good();
   }
   strm.setstate(std::ios::failbit);
   BOOST_THROW_EXCEPTION(json_decode_error(strm, "Unknown value"));
-- 
2.43.0


From acd78e76c3dbc350c3cfac3826680bcc9f1a14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 057/102] fix: JSON members whose name has an embedded NUL are
 unknown; null overrides an earlier value

---
 src/mfast/json/json_decode.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 02a5d0a..9b7c011 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -487,7 +487,10 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect :", c));
       }
 
-      int index = ref.field_index_with_name(key.c_str());
+      // a name with an embedded NUL is none of ours
+      int index = std::strlen(key.c_str()) == key.size()
+                      ? ref.field_index_with_name(key.c_str())
+                      : -1;
       if (index != -1) {
         // we need to check if the value is null
         strm_ >> std::ws;
@@ -498,6 +501,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
             strm_.setstate(std::ios::failbit);
             BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect null", buf));
           }
+          ref[index].omit();
         } else
           apply_mutator(*this, ref[index]);
       } else {
-- 
2.43.0


From 70200d17db6047a3ab4c3400be66e389f4bddf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 058/102] fix: JSON input rejects truncated arrays and reads
 null elements

---
 src/mfast/json/json_decode.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 9b7c011..c905935 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -522,7 +522,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
   } else if (c == 'n') {
     // check if the result is null
     char buf[4];
-    strm_ >> std::noskipws >> std::setw(3) >> buf >> std::skipws;
+    strm_ >> std::noskipws >> std::setw(4) >> buf >> std::skipws;
     if (strncmp(buf, "ull", 3) == 0)
       return true;
   }
@@ -541,15 +541,26 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
   do {
     ref.resize(i + 1);
     sequence_element_mref element = ref[i++];
-    if (ref.element_unnamed())
-      apply_mutator(*this, element[0]);
-    else
+    if (ref.element_unnamed()) {
+      strm_ >> std::ws;
+      char buf[5];
+      if (strm_.peek() != 'n') {
+        apply_mutator(*this, element[0]);
+      } else {
+        strm_ >> std::noskipws >> std::setw(5) >> buf >> std::skipws;
+        if (strncmp(buf, "null", 4) != 0) {
+          strm_.setstate(std::ios::failbit);
+          BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect null", buf));
+        }
+        element[0].omit();
+      }
+    } else
       this->visit_impl(element);
 
     strm_ >> std::skipws >> c;
 
     if (!strm_.good())
-      return;
+      BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]"));
   } while (c == ',');
 
   if (c == ']')
-- 
2.43.0


From 9b780e1763a4f0eefb6cddb991774555f9ad64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:59 +0000
Subject: [PATCH 059/102] fix: the exponent of a number follows its letter
 immediately

---
 src/mfast/value_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 27efc60..d3d9f41 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -42,7 +42,8 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   if (c == 'e' || c == 'E') {
     int16_t exp;
-    if (!(strm >> exp)) {
+    if (!(strm >> std::noskipws >> exp >> std::skipws)) {
+      strm.setf(std::ios::skipws);
       return strm;
     }
     exponent += exp;
-- 
2.43.0


From 0ac06747734ad5b647f0c9184abce0ef2a6d8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:59 +0000
Subject: [PATCH 060/102] fix: JSON writes {} for an unnamed element holding an
 unbound template reference

---
 src/mfast/json/json_encode.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index f830c1d..744190f 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -169,15 +169,13 @@ public:
   }
 
   void visit(const mfast::sequence_element_cref &ref, int) {
-    if (ref.element_unnamed() && ref[0].absent() &&
-        ref[0].instruction()->field_type() !=
-            mfast::field_type_templateref) {
+    if (!ref.element_unnamed() || ref[0].instruction()->field_type() ==
+                                      mfast::field_type_templateref) {
+      this->visit(mfast::aggregate_cref(ref), 0);
+    } else if (ref[0].absent()) {
       strm_ << separator_ << "null";
-    } else if (ref.element_unnamed()) {
-      apply_accessor(*this, ref[0]);
-      ;
     } else {
-      this->visit(mfast::aggregate_cref(ref), 0);
+      apply_accessor(*this, ref[0]);
     }
     separator_[0] = ',';
   }
-- 
2.43.0


From dd9fd8b6620386d0457f9477339c3fb16fb77cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:59 +0000
Subject: [PATCH 061/102] fix: JSON input includes the standard headers it uses

---
 src/mfast/json/json_decode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index c905935..9654505 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -8,6 +8,8 @@
 #include "../group_ref.h"
 #include "../field_visitor.h"
 #include "../nested_message_ref.h"
+#include <cstring>
+#include <iomanip>
 #include <boost/regex/pending/unicode_iterator.hpp>
 namespace mfast {
 
-- 
2.43.0


From 5acd81e5c4c7c0917e89b21ab863c77315fdc65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 062/102] fix: generated sets may have more than 31 elements

---
 src/fast_type_gen/hpp_gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index a5360b8..7327e1c 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -692,7 +692,7 @@ void hpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
       if (i == 0)
         header_cref_ << " = 1";
       else
-        header_cref_ << " = 1 << " << i;
+        header_cref_ << (i < 31 ? " = 1 << " : " = 1ULL << ") << i;
       if (i + 1 < inst->num_elements())
         header_cref_ << ",\n";
     }
-- 
2.43.0


From 7a4d8de087ef4a84befe9ca1d69510fcbab47213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:33 +0000
Subject: [PATCH 063/102] fix: JSON output takes an unbound template reference
 for absent

---
 src/mfast/json/json_encode.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 744190f..17135c3 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -58,6 +58,13 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+// a template reference has a value once it is bound to a template
+inline bool has_value(const field_cref &f) {
+  if (f.instruction()->field_type() == mfast::field_type_templateref)
+    return mfast::nested_message_cref(f).target_instruction() != nullptr;
+  return f.present();
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -134,7 +141,7 @@ public:
     if (ref.num_fields() == 1) {
       field_cref f0 = ref[0];
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
-        if (f0.present())
+        if (has_value(f0))
           this->visit(mfast::nested_message_cref(f0), 0);
         else
           strm_ << separator_ << "{}";
@@ -146,7 +153,7 @@ public:
     separator_[0] = '\0';
 
     for (auto &&field : ref) {
-      if (field.present()) {
+      if (has_value(field)) {
         strm_ << separator_ << quoted_string(field.name()) << ":";
         separator_[0] = '\0';
         apply_accessor(*this, field);
@@ -202,7 +209,7 @@ public:
     if (ref.num_fields() == 1) {
       field_cref f0 = ref[0];
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
-        if (f0.present())
+        if (has_value(f0))
           this->visit(mfast::nested_message_cref(f0), 0);
         else
           strm_ << separator_ << "{}";
@@ -214,7 +221,7 @@ public:
     separator_[0] = '\0';
 
     for (auto &&field : ref) {
-      if (field.present() &&
+      if (has_value(field) &&
           0 == (field.instruction()->tag().to_uint64() & ignore_tag_mask_)) {
         strm_ << separator_ << quoted_string(field.name()) << ":";
         separator_[0] = '\0';
-- 
2.43.0


From 35742d5cd42aa6f76a6a1bfd1e8ba04b2ac5cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:33 +0000
Subject: [PATCH 064/102] fix: JSON arrays are read into integer vectors
 completely, empty ones too

---
 src/mfast/json/json_decode.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 9654505..ac23808 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -409,15 +409,14 @@ struct decode_visitor {
   }
 
   template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
-    ref.clear();
+    // an empty array is a present, empty vector
+    ref.resize(0);
     if (!parse_array_preamble(strm_))
       return;
 
-    std::size_t i = 0;
     char c = 0;
 
     do {
-      ref.resize(i + 1);
 
       // the stream would read a negative number into an unsigned value
       if (!std::is_signed<IntType>::value &&
@@ -426,7 +425,7 @@ struct decode_visitor {
 
       IntType value = 0;
       strm_ >> value >> std::skipws >> c;
-      ref[i] = value;
+      ref.push_back(value);
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From 0e8f8d7ba6f3cd36139d30da5c9252261fc67506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:15 +0000
Subject: [PATCH 065/102] fix: an empty JSON array is read as a present, empty
 sequence

---
 src/mfast/json/json_decode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index ac23808..d4429eb 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -532,7 +532,8 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 }
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
-  ref.clear();
+  // an empty array is a present, empty sequence
+  ref.resize(0);
   if (!parse_array_preamble(strm_))
     return;
 
-- 
2.43.0


From 0b0ec4cac60408a259a76fc531fffe0751081a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:51 +0000
Subject: [PATCH 066/102] fix: a NUL character in the JSON text of a byte
 vector is rejected

---
 src/mfast/json/json_decode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index d4429eb..43ecc4e 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -400,6 +400,11 @@ struct decode_visitor {
       // write it as a hex string
       std::string str;
       if (get_quoted_string(strm_, &str, nullptr)) {
+        if (std::strlen(str.c_str()) != str.size()) {
+          strm_.setstate(std::ios::failbit);
+          BOOST_THROW_EXCEPTION(
+              json_decode_error(strm_, "Expect hexadecimal digits"));
+        }
         ref.resize(str.size() / 2 + 1);
         ptrdiff_t len =
             byte_vector_field_instruction::hex2binary(str.c_str(), ref.data());
-- 
2.43.0


From 0f89f22170bb3f3c8a0a8e964de03af8328076b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:46 +0000
Subject: [PATCH 067/102] fix: an empty group or sequence element is loaded
 instead of dereferencing a null child

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4e5effe..b0a65d5 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -384,7 +384,7 @@ instructions_view_t field_builder::build_subfields() {
 
 const group_field_instruction *field_builder::get_sole_templateref() {
   const XMLElement *child = content_element_->FirstChildElement();
-  if (strcmp(child->Name(), "templateRef") == 0 &&
+  if (child && strcmp(child->Name(), "templateRef") == 0 &&
       child->NextSibling() == nullptr) {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
-- 
2.43.0


From fdb8eca47d36450ba5fa7607a5aae8f150c99d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:02 +0000
Subject: [PATCH 068/102] fix: an operator, decimal part or length given inside
 the type of a <field> is not ignored

---
 src/mfast/xml_parser/field_builder.cpp | 43 +++++++++++++-------------
 src/mfast/xml_parser/field_builder.h   |  5 +++
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index b0a65d5..4b82b39 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -93,6 +93,16 @@ const char *field_builder::resolve_field_type(const XMLElement &element) {
   return field_type_name_;
 }
 
+const XMLElement *field_builder::find_child(const char *child_name) const {
+  const XMLElement *child = element_.FirstChildElement(child_name);
+  return child ? child : content_element_->FirstChildElement(child_name);
+}
+
+const XMLElement *field_builder::field_op_parent() const {
+  return field_op::find_field_op_element(element_) ? &element_
+                                                   : content_element_;
+}
+
 const field_instruction *field_builder::find_prototype(const char *type_name) {
   if (type_name == nullptr) {
     BOOST_THROW_EXCEPTION(fast_static_error("S1")
@@ -154,7 +164,7 @@ void field_builder::build() {
 
 template <typename IntType>
 void field_builder::build_integer(const int_field_instruction<IntType> *inst) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   field_instruction *instruction = new (alloc()) int_field_instruction<IntType>(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -183,8 +193,8 @@ void field_builder::visit(const uint64_field_instruction *inst, void *) {
 void field_builder::visit(const decimal_field_instruction *inst, void *) {
   const mantissa_field_instruction *base_mantissa_instruction =
       inst->mantissa_instruction();
-  const XMLElement *mantissa_element = element_.FirstChildElement("mantissa");
-  const XMLElement *exponent_element = element_.FirstChildElement("exponent");
+  const XMLElement *mantissa_element = find_child("mantissa");
+  const XMLElement *exponent_element = find_child("exponent");
   field_instruction *instruction;
   if (base_mantissa_instruction || mantissa_element || exponent_element) {
 
@@ -216,7 +226,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
         decimal_value_storage(exponent_op.initial_value_), parse_tag(inst));
   } else {
 
-    field_op decimal_op(inst, &element_, alloc());
+    field_op decimal_op(inst, field_op_parent(), alloc());
 
     instruction = new (alloc()) decimal_field_instruction(
         decimal_op.op_, get_presence(inst), get_id(inst), get_name(alloc()),
@@ -228,7 +238,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const ascii_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
   field_instruction *instruction = new (alloc()) ascii_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -237,10 +247,10 @@ void field_builder::visit(const ascii_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const unicode_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = find_child("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
@@ -258,10 +268,10 @@ void field_builder::visit(const unicode_field_instruction *inst, void *) {
 }
 
 void field_builder::visit(const byte_vector_field_instruction *inst, void *) {
-  field_op fop(inst, &element_, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   const XMLAttribute *length_attributes = nullptr;
-  const XMLElement *length_element = element_.FirstChildElement("length");
+  const XMLElement *length_element = find_child("length");
 
   if (length_element) {
     length_attributes = length_element->FirstAttribute();
@@ -577,10 +587,7 @@ typedef boost::error_info<tag_value, std::string> value_info;
 #if defined(XETRA_FAST_SPECIFICATION)
 void field_builder::visit(const enum_field_instruction *inst, void *) {
 
-  const XMLElement *element = &this->element_;
-  if (!field_op::find_field_op_element(*element))
-    element = content_element_;
-  field_op fop(inst, element, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   const char **enum_element_names = inst->elements();
   uint64_t num_elements = inst->num_elements();
@@ -684,10 +691,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 #else
 void field_builder::visit(const enum_field_instruction *inst, void *) {
 
-  const XMLElement *element = &this->element_;
-  if (!field_op::find_field_op_element(*element))
-    element = content_element_;
-  field_op fop(inst, element, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   const char **enum_element_names = inst->elements();
   uint64_t num_elements = inst->num_elements();
@@ -784,10 +788,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
 void field_builder::visit(const set_field_instruction *inst, void *)
 {
-  const auto* element = &this->element_;
-  if (!field_op::find_field_op_element(*element))
-    element = content_element_;
-  field_op fop(inst, element, alloc());
+  field_op fop(inst, field_op_parent(), alloc());
 
   const auto** set_element_names = inst->elements();
   auto num_elements = inst->num_elements();
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index d14e444..5664f9f 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -33,6 +33,11 @@ public:
 
   const char *resolve_field_type(const XMLElement &element);
 
+  // The element which has the named child, either the field itself or the type
+  // given in a <field> element.
+  const XMLElement *find_child(const char *child_name) const;
+  const XMLElement *field_op_parent() const;
+
   const field_instruction *find_prototype(const char *type_name);
 
   const char *field_type_name() const { return field_type_name_; }
-- 
2.43.0


From 2657ccf26e35a3d03ba782acb87ddba13ac725d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 069/102] fix: the typeRef of a group or sequence inside a
 <field> element is not ignored

---
 src/mfast/xml_parser/field_builder.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4b82b39..563f32f 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -425,7 +425,8 @@ void field_builder::visit(const group_field_instruction *inst, void *) {
   auto instruction = new (alloc()) group_field_instruction(
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_),
+      get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   if (inst->subinstructions().size() == 0) {
@@ -495,7 +496,8 @@ void field_builder::visit(const sequence_field_instruction *inst, void *) {
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
       element_instruction, ref_inst, get_length_instruction(inst),
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_),
+      get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_instruction(instruction);
@@ -517,7 +519,8 @@ void field_builder::visit(const template_instruction *inst, void *) {
       id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_),
+      get_typeRef_ns(*content_element_), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_template(this->resolved_ns(), instruction);
-- 
2.43.0


From f7b615ca793d60fa5e0d4f1086d4f934ec837ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 070/102] fix: a field with a ns attribute is loaded instead of
 reported as having an invalid type

---
 src/mfast/xml_parser/field_builder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 563f32f..c45ce6a 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -129,6 +129,13 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
 
   if (instruction == nullptr) {
     instruction = this->find_type(ns_, type_name);
+    // The ns attribute qualifies the name of the field; only that of a <type>
+    // element qualifies the name of the type.
+    if (instruction == nullptr && ns_ &&
+        (std::strcmp(content_element_->Name(), "type") != 0 ||
+         content_element_->FindAttribute("ns") == nullptr)) {
+      instruction = this->find_type(nullptr, type_name);
+    }
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From 892b3f2e4cbc125498b8f2e8df6cdb3e55fed238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 071/102] fix: templates are named and referenced in the
 templateNs namespace, not in that of the fields

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index c45ce6a..18ee0cf 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -85,7 +85,7 @@ const char *field_builder::resolve_field_type(const XMLElement &element) {
     }
   }
 
-  resolved_ns_ = ns_;
+  resolved_ns_ = templateNs_;
   if (resolved_ns_ == nullptr && parent_) {
     resolved_ns_ = parent_->resolved_ns();
   }
-- 
2.43.0


From 324e639ff2f5caa0c87f284a8db295952cda6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 072/102] fix: a templateRef to an unknown template is reported
 as such in an unnamed group too

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 18ee0cf..a828841 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -24,7 +24,7 @@ public:
   template_not_found_error(const char *template_name, const char *referenced_by)
       : fast_dynamic_error("D8") {
     *this << template_name_info(template_name)
-          << referenced_by_info(referenced_by);
+          << referenced_by_info(referenced_by ? referenced_by : "");
   }
 };
 
-- 
2.43.0


From 79b264d5ee48eafcaea1a7e4c2b21eed7cdaddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:41 +0000
Subject: [PATCH 073/102] fix: a field of a defined group or sequence type has
 the typeRef of that type

---
 src/mfast/xml_parser/field_builder.cpp    |  8 ++++----
 src/mfast/xml_parser/field_builder_base.h | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index a828841..efdb886 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -432,8 +432,8 @@ void field_builder::visit(const group_field_instruction *inst, void *) {
   auto instruction = new (alloc()) group_field_instruction(
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
-      get_typeRef_name(*content_element_),
-      get_typeRef_ns(*content_element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_, inst->typeref_name()),
+      get_typeRef_ns(*content_element_, inst->typeref_ns()), inst->cpp_ns(),
       parse_tag(inst));
 
   if (inst->subinstructions().size() == 0) {
@@ -503,8 +503,8 @@ void field_builder::visit(const sequence_field_instruction *inst, void *) {
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
       element_instruction, ref_inst, get_length_instruction(inst),
-      get_typeRef_name(*content_element_),
-      get_typeRef_ns(*content_element_), inst->cpp_ns(),
+      get_typeRef_name(*content_element_, inst->typeref_name()),
+      get_typeRef_ns(*content_element_, inst->typeref_ns()), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_instruction(instruction);
diff --git a/src/mfast/xml_parser/field_builder_base.h b/src/mfast/xml_parser/field_builder_base.h
index 5201386..e5f1a35 100644
--- a/src/mfast/xml_parser/field_builder_base.h
+++ b/src/mfast/xml_parser/field_builder_base.h
@@ -23,20 +23,22 @@ public:
       : registry_(registry), local_types_(types), resolved_ns_(nullptr) {}
 
   const char *resolved_ns() const { return resolved_ns_; }
-  const char *get_typeRef_name(const XMLElement &element) {
+  const char *get_typeRef_name(const XMLElement &element,
+                               const char *inherited = "") {
     const XMLElement *typeRefElem = element.FirstChildElement("typeRef");
     if (typeRefElem) {
       return string_dup(get_optional_attr(*typeRefElem, "name", ""), alloc());
     }
-    return "";
+    return inherited;
   }
 
-  const char *get_typeRef_ns(const XMLElement &element) {
+  const char *get_typeRef_ns(const XMLElement &element,
+                             const char *inherited = "") {
     const XMLElement *typeRefElem = element.FirstChildElement("typeRef");
     if (typeRefElem) {
       return string_dup(get_optional_attr(*typeRefElem, "ns", ""), alloc());
     }
-    return "";
+    return inherited;
   }
 
   arena_allocator &alloc() const { return registry_->alloc_; }
-- 
2.43.0


From d040634c287c7897e76f5c40ce44bd36f6eb7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 074/102] fix: negative ids and initial values of unsigned
 fields are rejected instead of wrapping around

---
 src/mfast/xml_parser/fast_xml_attributes.h |  3 ++-
 src/mfast/xml_parser/field_builder.cpp     |  8 ++++----
 src/mfast/xml_parser/field_builder.h       |  2 +-
 src/mfast/xml_parser/field_op.h            |  8 ++++----
 src/mfast/xml_parser/xml_util.h            | 14 ++++++++++++++
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/mfast/xml_parser/fast_xml_attributes.h b/src/mfast/xml_parser/fast_xml_attributes.h
index 0d10407..2f1fdec 100644
--- a/src/mfast/xml_parser/fast_xml_attributes.h
+++ b/src/mfast/xml_parser/fast_xml_attributes.h
@@ -7,6 +7,7 @@
 
 #include "tinyxml2.h"
 #include "../instructions/field_instruction.h"
+#include "xml_util.h"
 #include <cstring>
 #include <boost/lexical_cast.hpp>
 
@@ -78,7 +79,7 @@ struct fast_xml_attributes {
   }
 
   uint32_t get_id(const field_instruction *inst) const {
-    return id_ ? boost::lexical_cast<uint32_t>(id_) : inst->id();
+    return id_ ? parse_integer<uint32_t>(id_) : inst->id();
   }
 
   const char *get_name(arena_allocator &alloc) const {
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index efdb886..9b165b1 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -523,7 +523,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
   }
 
   auto instruction = new (alloc()) template_instruction(
-      id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
+      id_ ? parse_integer<uint32_t>(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
       get_typeRef_name(*content_element_),
@@ -629,7 +629,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_integer<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -729,7 +729,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_integer<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -869,7 +869,7 @@ instruction_tag field_builder::parse_tag(const field_instruction *inst) {
   uint64_t value = inst->tag().to_uint64();
   if (tag_) {
     try {
-      value |= boost::lexical_cast<uint64_t>(tag_);
+      value |= parse_integer<uint64_t>(tag_);
     } catch (...) {
       const enum_field_instruction *inst =
           dynamic_cast<const enum_field_instruction *>(
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index 5664f9f..ecd318f 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -51,7 +51,7 @@ protected:
   template <typename Instruction>
   uint32_t get_length_id(const Instruction *inst,
                          const fast_xml_attributes &length_attrs) const {
-    return length_attrs.id_ ? static_cast<uint32_t>(std::stoi(length_attrs.id_))
+    return length_attrs.id_ ? parse_integer<uint32_t>(length_attrs.id_)
                             : inst->length_id();
   }
 
diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index e258f15..45fba8b 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -66,7 +66,7 @@ private:
                       const int32_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<int32_t>(init_value_str));
+      initial_value_.set(parse_integer<int32_t>(init_value_str));
     }
   }
 
@@ -74,7 +74,7 @@ private:
                       const uint32_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint32_t>(init_value_str));
+      initial_value_.set(parse_integer<uint32_t>(init_value_str));
     }
   }
 
@@ -82,7 +82,7 @@ private:
                       const int64_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
+      initial_value_.set(parse_integer<int64_t>(init_value_str));
     }
   }
 
@@ -90,7 +90,7 @@ private:
                       const uint64_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint64_t>(init_value_str));
+      initial_value_.set(parse_integer<uint64_t>(init_value_str));
     }
   }
 
diff --git a/src/mfast/xml_parser/xml_util.h b/src/mfast/xml_parser/xml_util.h
index 16dfe49..8bbb076 100644
--- a/src/mfast/xml_parser/xml_util.h
+++ b/src/mfast/xml_parser/xml_util.h
@@ -7,6 +7,10 @@
 
 #include "tinyxml2.h"
 #include "../arena_allocator.h"
+#include <cstring>
+#include <type_traits>
+#include <boost/lexical_cast.hpp>
+#include <boost/throw_exception.hpp>
 
 namespace mfast {
 namespace xml_parser {
@@ -18,6 +22,16 @@ inline const char *get_optional_attr(const XMLElement &element,
   return attr ? attr->Value() : default_value;
 }
 
+/// Convert the text of an attribute to an integer
+///
+/// Unlike boost::lexical_cast, this doesn't let negative values wrap around to
+/// unsigned ones.
+template <typename IntType> inline IntType parse_integer(const char *str) {
+  if (!std::is_signed<IntType>::value && std::strchr(str, '-'))
+    BOOST_THROW_EXCEPTION(boost::bad_lexical_cast());
+  return boost::lexical_cast<IntType>(str);
+}
+
 inline const char *string_dup(const char *str, arena_allocator &alloc) {
   if (str == nullptr || str[0] == '\x0')
     return "";
-- 
2.43.0


From 9b39d4ecd30af37cf2efdfa9661adef7ee56ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 075/102] fix: fields with an operator of another type or
 without the initial value they need are rejected (S2, S4, S5)

---
 src/mfast/xml_parser/field_builder.cpp | 66 ++++++++++++++++++++++++++
 src/mfast/xml_parser/field_builder.h   |  7 +++
 2 files changed, 73 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 9b165b1..d70cc3d 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -57,7 +57,73 @@ std::size_t field_builder::num_instructions() const {
   return instructions_.size();
 }
 
+void field_builder::check_operator(const field_instruction *inst,
+                                   operator_enum_t op, bool optional,
+                                   const value_storage &initial_value,
+                                   bool is_integer, bool is_string) const {
+  const char *error = nullptr;
+  const char *reason = nullptr;
+  if ((op == operator_increment && !is_integer) ||
+      (op == operator_tail && !is_string)) {
+    error = "S2";
+    reason = "operator is not applicable to the type of the field : ";
+  } else if (op == operator_constant && initial_value.is_empty()) {
+    error = "S4";
+    reason = "constant without initial value : ";
+  } else if (op == operator_default && !optional && initial_value.is_empty()) {
+    error = "S5";
+    reason = "mandatory default without initial value : ";
+  }
+  if (error) {
+    BOOST_THROW_EXCEPTION(
+        fast_static_error(error)
+        << reason_info(std::string(reason) + (inst->name() ? inst->name() : "")));
+  }
+}
+
+void field_builder::check_operator(const field_instruction *inst) const {
+  switch (inst->field_type()) {
+  case field_type_int32:
+  case field_type_uint32:
+  case field_type_int64:
+  case field_type_uint64:
+  case field_type_enum:
+  case field_type_set: {
+    auto i = static_cast<const integer_field_instruction_base *>(inst);
+    check_operator(inst, i->field_operator(), i->optional(), i->initial_value(),
+                   true, false);
+    break;
+  }
+  case field_type_ascii_string:
+  case field_type_unicode_string:
+  case field_type_byte_vector: {
+    auto i = static_cast<const ascii_field_instruction *>(inst);
+    check_operator(inst, i->field_operator(), i->optional(), i->initial_value(),
+                   false, true);
+    break;
+  }
+  case field_type_decimal:
+  case field_type_exponent: {
+    auto i = static_cast<const decimal_field_instruction *>(inst);
+    auto m = i->mantissa_instruction();
+    check_operator(inst, i->field_operator(), i->optional(), i->initial_value(),
+                   m != nullptr, false);
+    if (m)
+      check_operator(inst, m->field_operator(), false, m->initial_value(), true,
+                     false);
+    break;
+  }
+  case field_type_sequence:
+    check_operator(static_cast<const sequence_field_instruction *>(inst)
+                       ->length_instruction());
+    break;
+  default:
+    break;
+  }
+}
+
 void field_builder::add_instruction(const field_instruction *inst) {
+  check_operator(inst);
   instructions_.push_back(inst);
 }
 
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index ecd318f..e7b7629 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -101,6 +101,13 @@ protected:
   virtual void visit(const enum_field_instruction *, void *) override;
   virtual void visit(const set_field_instruction *, void *) override;
 
+  /// Reject fields which have an operator not applicable to their types or
+  /// which lack the initial value their operators need.
+  void check_operator(const field_instruction *inst) const;
+  void check_operator(const field_instruction *inst, operator_enum_t op,
+                      bool optional, const value_storage &initial_value,
+                      bool is_integer, bool is_string) const;
+
   instructions_view_t build_subfields();
   const group_field_instruction *get_sole_templateref();
   const uint32_field_instruction *
-- 
2.43.0


From c80a87bedb983acc97e896422c862b3b4654c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:20 +0000
Subject: [PATCH 076/102] fix: a numeric initial value of a boolean is looked
 up instead of dereferencing null element values

---
 src/mfast/xml_parser/field_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index d70cc3d..32a3c8f 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -619,7 +619,8 @@ bool parse_enum_value(const char **enum_element_names,
     // FAST 1.2 does not cleary specify what a default enum value refers to,
     // search for a match in either name or value/deduce_value
     if (std::strcmp(enum_element_names[i], value_name) == 0 ||
-       (value_int.has_value() && enum_element_values[i] == *value_int)) {
+       (value_int.has_value() &&
+        (enum_element_values ? enum_element_values[i] : i) == *value_int)) {
           if (enum_element_values)
             result = enum_element_values[i];
           else
-- 
2.43.0


From c124c6aa1ff2a4c4fb3f0ebeeb1575e6f9606bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:20 +0000
Subject: [PATCH 077/102] fix: a document whose root is a template is loaded
 and one with any other root is rejected

---
 src/mfast/xml_parser/templates_builder.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 88341c6..fb6adaf 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "templates_builder.h"
 #include "field_builder.h"
+#include "field_op.h"
 #include "../boolean_ref.h"
 #include "view_info_builder.h"
 #include "../exceptions.h"
@@ -128,7 +129,19 @@ bool templates_builder::VisitEnter(const XMLElement &element,
     definition_->dictionary_ =
         string_dup(get_optional_attr(element, "dictionary", ""), alloc());
     return true;
-  } else if (strcmp(element_name, "define") == 0) {
+  }
+
+  if (resolved_ns_ == nullptr) {
+    // this is the root of the document
+    if (std::strcmp(element_name, "template") != 0) {
+      BOOST_THROW_EXCEPTION(fast_static_error("S1")
+                            << reason_info("not a template document"));
+    }
+    definition_->ns_ = definition_->template_ns_ = definition_->dictionary_ =
+        resolved_ns_ = "";
+  }
+
+  if (strcmp(element_name, "define") == 0) {
     const char *name = get_optional_attr(element, "name", nullptr);
     const XMLElement *elem = element.FirstChildElement();
     if (name && elem) {
@@ -153,7 +166,7 @@ bool templates_builder::VisitEnter(const XMLElement &element,
 }
 
 bool templates_builder::VisitExit(const XMLElement &element) {
-  if (std::strcmp(element.Name(), "templates") == 0) {
+  if (element.Parent() == element.GetDocument()) {
     typedef const template_instruction *const_template_instruction_ptr_t;
 
     definition_->instructions_ = new (alloc())
-- 
2.43.0


From b5f1f00f23ea9caad90841e8baadd4ea41940e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:20 +0000
Subject: [PATCH 078/102] fix: the namespace of a typeRef defaults to the
 current one

---
 src/mfast/coder/common/dictionary_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index dc9d472..634d3aa 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -70,7 +70,7 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
-- 
2.43.0


From 3e2219a5bec55120fd59ba376a3c2bca77c52997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:20 +0000
Subject: [PATCH 079/102] fix: an operator without a ns attribute does not drop
 the namespace of its field from the dictionary key

---
 src/mfast/coder/common/dictionary_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 634d3aa..b61ce55 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -186,7 +186,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
-- 
2.43.0


From e13db69c4910bff359c91e3fd1d759ff5890fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:32 +0000
Subject: [PATCH 080/102] fix: dictionary keys are qualified by the ns of the
 document and template dictionaries by the templateNs

---
 src/mfast/coder/common/dictionary_builder.cpp | 4 ++--
 src/mfast/coder/common/dictionary_builder.h   | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index b61ce55..8e4a92b 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -103,9 +103,9 @@ dictionary_builder::clone_instruction(const template_instruction *src_inst) {
 
   auto dest = src_inst->clone(alloc_);
 
-  const char *ns = src_inst->ns();
+  const char *ns = src_inst->template_ns();
   if (is_empty_string(ns)) {
-    ns = current_ns_;
+    ns = template_ns_;
   }
   current_template_ = qualified_name(ns, src_inst->name());
 
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..78770b5 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -59,7 +59,8 @@ public:
 
   template <typename Operation>
   void build(const Operation &op, const templates_description *def) {
-    current_ns_ = def->template_ns();
+    current_ns_ = def->ns();
+    template_ns_ = def->template_ns();
     current_dictionary_ =
         (def->dictionary()[0] == 0) ? "global" : def->dictionary();
     for (auto &elem : *def) {
@@ -77,7 +78,8 @@ public:
 private:
   template <typename Operation, typename Description>
   int build(const Operation &op, const Description *desc) {
-    this->current_ns_ = desc->template_ns();
+    this->current_ns_ = desc->ns();
+    this->template_ns_ = desc->template_ns();
     this->current_dictionary_ =
         (desc->dictionary()[0] == 0) ? "global" : desc->dictionary();
 
@@ -147,6 +149,7 @@ private:
   std::string current_template_;
   std::string current_type_;
   const char *current_ns_;
+  const char *template_ns_;
   const char *current_dictionary_;
 
   template_repo_base &repo_base_;
-- 
2.43.0


From 36f5331c21d6d06894235f1491263051e662f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 081/102] fix: the dictionary, type and namespace of a sequence
 apply to its length

---
 src/mfast/coder/common/dictionary_builder.cpp | 14 +++++++++-----
 src/mfast/coder/common/dictionary_builder.h   |  4 +++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 8e4a92b..86bcb5e 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -55,7 +55,9 @@ dictionary_builder::dictionary_builder(template_repo_base &repo_base)
 
 void dictionary_builder::build_group(const field_instruction *fi,
                                      const group_field_instruction *src,
-                                     group_field_instruction *dest) {
+                                     group_field_instruction *dest,
+                                     const uint32_field_instruction *length,
+                                     void *dest_length) {
   const char *inherited_ns = current_ns_;
   const char *inherited_dictionary = current_dictionary_;
   std::string inherited_type = current_type_;
@@ -87,6 +89,9 @@ void dictionary_builder::build_group(const field_instruction *fi,
   dest->set_subinstructions(
       instructions_view_t(subinstructions, instructions_count));
 
+  if (length)
+    visit(length, dest_length);
+
   current_type_ = inherited_type;
   current_ns_ = inherited_ns;
   current_dictionary_ = inherited_dictionary;
@@ -149,7 +154,8 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
       *static_cast<sequence_field_instruction **>(dest_inst);
   dest = src_inst->clone(alloc_);
 
-  this->build_group(src_inst, src_inst, dest);
+  this->build_group(src_inst, src_inst, dest, src_inst->length_instruction(),
+                    &dest->sequence_length_instruction_);
 
   if (dest->element_instruction_) {
     // the elements are accessed through this one
@@ -159,9 +165,7 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
     dest->element_instruction_ = element;
   }
 
-  if (src_inst->length_instruction()) {
-    visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
-  } else {
+  if (src_inst->length_instruction() == nullptr) {
     dest->sequence_length_instruction_ = new (alloc_)
         uint32_field_instruction(operator_none, presence_mandatory, 0, "", "",
                                  nullptr, int_value_storage<uint32_t>());
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index 78770b5..1b6acf7 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -128,7 +128,9 @@ private:
 
   void build_group(const field_instruction *fi,
                    const group_field_instruction *src,
-                   group_field_instruction *dest);
+                   group_field_instruction *dest,
+                   const uint32_field_instruction *length = nullptr,
+                   void *dest_length = nullptr);
 
   value_storage *get_dictionary_storage(const char *key, const char *ns,
                                         const op_context_t *op_context,
-- 
2.43.0


From cacc56c85f1c0670383fc5853ba790bc94d7b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:39 +0000
Subject: [PATCH 082/102] fix: the tag of a dynamic templateRef is not its
 position

---
 src/mfast/xml_parser/field_builder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 32a3c8f..6d9a35c 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -391,7 +391,7 @@ void field_builder::visit(const uint64_vector_field_instruction *inst, void *) {
   parent_->add_instruction(instruction);
 }
 
-void field_builder::visit(const templateref_instruction *, void *) {
+void field_builder::visit(const templateref_instruction *inst, void *) {
   templateref_instruction *instruction;
 
   if (name_) {
@@ -444,8 +444,7 @@ void field_builder::visit(const templateref_instruction *, void *) {
     }
   } else {
 
-    instruction = new (alloc()) templateref_instruction(
-        static_cast<uint16_t>(parent_->num_instructions()));
+    instruction = new (alloc()) templateref_instruction(parse_tag(inst));
 
     parent_->add_instruction(instruction);
   }
-- 
2.43.0


From eeb7d7473b916723a6a63d1d8ae949a5b2cfc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:31 +0000
Subject: [PATCH 083/102] fix: an initial value of an enum or set has to be an
 unsigned number as a whole

---
 src/mfast/xml_parser/field_builder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 6d9a35c..32480cc 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -612,7 +612,7 @@ bool parse_enum_value(const char **enum_element_names,
                       uint64_t &result) {
   boost::optional<std::uint64_t> value_int;
   try {
-    value_int = std::stoul(value_name);
+    value_int = parse_integer<uint64_t>(value_name);
   } catch (...) {}
   for (uint64_t i = 0; i < num_elements; ++i) {
     // FAST 1.2 does not cleary specify what a default enum value refers to,
@@ -908,7 +908,7 @@ void field_builder::visit(const set_field_instruction *inst, void *)
     {
       try
       {
-        init_value = std::stoul(init_value_str);
+        init_value = parse_integer<uint64_t>(init_value_str);
       } catch (...) {
         BOOST_THROW_EXCEPTION(
             fast_static_error("Unrecognized set initial value : ")
-- 
2.43.0


From 8f1e56d07e6fe6a05ce4236a29494d5a117858d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 084/102] fix: generated code escapes texts from the template
 document

---
 src/fast_type_gen/cpp_gen.cpp | 110 +++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 42 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 5516d0b..879d1af 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -5,6 +5,30 @@
 // See the file license.txt for licensing information.
 #include "cpp_gen.h"
 #include <boost/io/ios_state.hpp>
+#include <cctype>
+#include <cstring>
+
+// A C++ string literal with the characters.
+static std::string quoted(const char *str, std::size_t len) {
+  static const char digits[] = "01234567";
+  std::string result = "\"";
+  for (std::size_t i = 0; i < len; ++i) {
+    unsigned char c = static_cast<unsigned char>(str[i]);
+    if (std::isalnum(c) || c == ' ' || (std::ispunct(c) && c != '"' && c != '\\' && c != '?')) {
+      result += str[i];
+    } else {
+      result += '\\';
+      result += digits[c >> 6];
+      result += digits[(c >> 3) & 7];
+      result += digits[c & 7];
+    }
+  }
+  return result + '"';
+}
+
+static std::string quoted(const char *str) {
+  return str ? quoted(str, std::strlen(str)) : "\"\"";
+}
 
 std::string cpp_gen::prefix_string() const {
   std::stringstream strm;
@@ -50,9 +74,9 @@ std::string cpp_gen::gen_op_context(const char *name,
 
   out_ << "const static "
        << "op_context_t " << prefix_string() << name << "_opContext ={\n"
-       << "  \"" << context->key_ << "\", \n"
-       << "  \"" << context->ns_ << "\", \n"
-       << "  \"" << context->dictionary_ << "\"};\n\n";
+       << "  " << quoted(context->key_) << ", \n"
+       << "  " << quoted(context->ns_) << ", \n"
+       << "  " << quoted(context->dictionary_) << "};\n\n";
 
   std::stringstream result;
   result << "&" << prefix_string() << name << "_opContext";
@@ -70,8 +94,8 @@ void cpp_gen::gen_field(const mfast::field_instruction *inst,
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n";
 
   add_to_instruction_list(name);
@@ -169,8 +193,10 @@ void cpp_gen::gen_string(const mfast::ascii_field_instruction *inst,
          << "string_value_storage()";
   } else {
     out_ << "  "
-         << "string_value_storage(\"" << inst->initial_value().get<char *>()
-         << "\"," << inst->initial_value().array_length() << ")";
+         << "string_value_storage("
+         << quoted(inst->initial_value().get<const char *>(),
+                   inst->initial_value().array_length())
+         << "," << inst->initial_value().array_length() << ")";
   }
 }
 
@@ -186,8 +212,8 @@ void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
   if (inst->length_name()) {
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\"); // length ns\n\n";
+         << "  " << quoted(inst->length_name()) << ", // length name\n"
+         << "  " << quoted(inst->length_ns()) << "); // length ns\n\n";
   } else {
     out_ << ", // initial_value\n"
          << "  " << inst->tag() << "); // tag\n\n";
@@ -221,8 +247,8 @@ void cpp_gen::visit(const mfast::byte_vector_field_instruction *inst,
   if (inst->length_name()) {
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
-         << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\", // length ns\n"
+         << "  " << quoted(inst->length_name()) << ", // length name\n"
+         << "  " << quoted(inst->length_ns()) << ", // length ns\n"
          << "  " << inst->tag() << "); // tag\n\n";
   } else {
     out_ << ", // initial_value\n"
@@ -240,8 +266,8 @@ void cpp_gen::gen_int_vector(const char *cpp_type,
        << prefix_string() << name << "_instruction(\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
   add_to_instruction_list(name);
@@ -358,12 +384,12 @@ void cpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
-       << subinstruction_arg << "  \"" << inst->typeref_name()
-       << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
+       << "  " << quoted(inst->dictionary()) << ", // dictionary\n"
+       << subinstruction_arg << "  " << quoted(inst->typeref_name())
+       << ", // typeRef name \n"
+       << "  " << quoted(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag\n\n";
 
@@ -404,8 +430,8 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
          << "  " << get_operator_name(inst->length_instruction()) << ",\n"
          << "  " << get_presence(inst->length_instruction()) << ",\n"
          << "  " << inst->length_instruction()->id() << ", // id\n"
-         << "  \"" << inst->length_instruction()->name() << "\", // name\n"
-         << "  \"" << inst->length_instruction()->ns() << "\", // ns\n"
+         << "  " << quoted(inst->length_instruction()->name()) << ", // name\n"
+         << "  " << quoted(inst->length_instruction()->ns()) << ", // ns\n"
          << "  " << context << ",  // opContext\n"
          << "  int_value_storage<uint32_t>(";
     if (!inst->length_instruction()->initial_value().is_empty())
@@ -466,13 +492,13 @@ void cpp_gen::visit(const mfast::sequence_field_instruction *inst,
 
   out_ << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
-       << "  \"" << inst->dictionary() << "\", // dictionary\n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
+       << "  " << quoted(inst->dictionary()) << ", // dictionary\n"
        << subinstruction_arg.str() << "  " << lengthInstruction
        << ", // length\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << quoted(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << quoted(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); //tag \n\n";
 
@@ -506,14 +532,14 @@ void cpp_gen::visit(const mfast::template_instruction *inst, void *) {
 
   out_ << "  const static " << name << "::instruction_type the_instruction(\n"
        << "    " << inst->id() << ", // id\n"
-       << "    \"" << inst->name() << "\", // name\n"
-       << "    \"" << inst->ns() << "\", // ns\n"
-       << "    \"" << inst->template_ns() << "\", // templateNs\n"
-       << "    \"" << inst->dictionary() << "\", // dictionary\n"
+       << "    " << quoted(inst->name()) << ", // name\n"
+       << "    " << quoted(inst->ns()) << ", // ns\n"
+       << "    " << quoted(inst->template_ns()) << ", // templateNs\n"
+       << "    " << quoted(inst->dictionary()) << ", // dictionary\n"
        << "    " << name << "__subinstructions,\n"
        << "    " << inst->has_reset_attribute() << ", // reset\n"
-       << "  \"" << inst->typeref_name() << "\", // typeRef name \n"
-       << "  \"" << inst->typeref_ns() << "\", // typeRef ns \n"
+       << "  " << quoted(inst->typeref_name()) << ", // typeRef name \n"
+       << "  " << quoted(inst->typeref_ns()) << ", // typeRef ns \n"
        << "  \"\", // cpp_ns\n"
        << "  " << inst->tag() << "); // tag \n\n"
        << "  ptr_instruction = &the_instruction;\n"
@@ -558,9 +584,9 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
          << "_templates_instructions[] ={\n" << instructions << "};\n\n"
          << "templates_description::templates_description()\n"
          << "  : mfast::templates_description(\n"
-         << "    \"" << desc.ns() << "\", // ns\n"
-         << "    \"" << desc.template_ns() << "\", // templateNs\n"
-         << "    \"" << desc.dictionary() << "\", // dictionary\n"
+         << "    " << quoted(desc.ns()) << ", // ns\n"
+         << "    " << quoted(desc.template_ns()) << ", // templateNs\n"
+         << "    " << quoted(desc.dictionary()) << ", // dictionary\n"
          << "    " << filebase_ << "_templates_instructions)\n"
          << "{\n"
          << "}\n\n"
@@ -617,7 +643,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
       if (i != 0) {
         out_ << ",\n";
       }
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << quoted(inst->elements()[i]);
     }
     out_ << "};\n";
 
@@ -644,8 +670,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
@@ -708,7 +734,7 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     {
       if (i != 0)
         out_ << ",\n";
-      out_ << "  \"" << inst->elements()[i] << "\"";
+      out_ << "  " << quoted(inst->elements()[i]);
     }
     out_ << "};\n";
   }
@@ -721,8 +747,8 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
        << "  " << get_operator_name(inst) << ",\n"
        << "  " << get_presence(inst) << ",\n"
        << "  " << inst->id() << ", // id\n"
-       << "  \"" << inst->name() << "\", // name\n"
-       << "  \"" << inst->ns() << "\", // ns\n"
+       << "  " << quoted(inst->name()) << ", // name\n"
+       << "  " << quoted(inst->ns()) << ", // ns\n"
        << "  " << context << ",  // opContext\n"
        << "  int_value_storage<uint64_t>(";
 
@@ -784,7 +810,7 @@ void cpp_gen::generate(const mfast::aggregate_view_info &info) {
   }
 
   out_ << "const mfast::aggregate_view_info " << my_name << "::info_(\n"
-       << "  \"" << info.name_ << "\",\n"
+       << "  " << quoted(info.name_) << ",\n"
        << "  " << ns_prefix << cpp_name(info.instruction_->name())
        << "::instruction(),\n"
        << "  mfast::array_view<const  mfast::field_view_info>(__" << my_name
-- 
2.43.0


From eada38b2078a7b8c9ad88dff7f5e3070d00da151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 085/102] fix: generated code names operator contexts by C++
 names

---
 src/fast_type_gen/cpp_gen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 879d1af..dcb8029 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -73,13 +73,13 @@ std::string cpp_gen::gen_op_context(const char *name,
     return "nullptr";
 
   out_ << "const static "
-       << "op_context_t " << prefix_string() << name << "_opContext ={\n"
+       << "op_context_t " << prefix_string() << cpp_name(name) << "_opContext ={\n"
        << "  " << quoted(context->key_) << ", \n"
        << "  " << quoted(context->ns_) << ", \n"
        << "  " << quoted(context->dictionary_) << "};\n\n";
 
   std::stringstream result;
-  result << "&" << prefix_string() << name << "_opContext";
+  result << "&" << prefix_string() << cpp_name(name) << "_opContext";
   return result.str();
 }
 
-- 
2.43.0


From 8502ddf08f7de63d2b9ccea649c0ea4123e2cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 086/102] fix: code can be generated for a definition which is
 another name of an enum or set type

---
 src/fast_type_gen/cpp_gen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index dcb8029..fb71d3e 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -602,6 +602,10 @@ void cpp_gen::generate(mfast::dynamic_templates_description &desc) {
 }
 
 void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
+  // there is no class of its own for another name of a type
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
@@ -694,6 +698,10 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
 
 void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
 {
+  // there is no class of its own for another name of a type
+  if (pIndex == nullptr && inst->ref_instruction())
+    return;
+
   std::string name(cpp_name(inst));
   std::string qualified_name = name;
   std::string instruction_variable_name;
-- 
2.43.0


From c7506977e963ff8b55aa649dcc3ef15cb12acbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:32 +0000
Subject: [PATCH 087/102] fix: generated code keeps the tag of a unicode string
 field

---
 src/fast_type_gen/cpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index fb71d3e..5455b14 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -213,7 +213,8 @@ void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
          << "  " << quoted(inst->length_name()) << ", // length name\n"
-         << "  " << quoted(inst->length_ns()) << "); // length ns\n\n";
+         << "  " << quoted(inst->length_ns()) << ", // length ns\n"
+         << "  " << inst->tag() << "); // tag\n\n";
   } else {
     out_ << ", // initial_value\n"
          << "  " << inst->tag() << "); // tag\n\n";
-- 
2.43.0


From 765e20ab4899be020993697bd642eaef5335d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:16 +0000
Subject: [PATCH 088/102] fix: generated code uses the C++ name of a referenced
 definition

---
 src/fast_type_gen/codegen_base.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index 481031c..e84c055 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -129,6 +129,11 @@ public:
   type_name_finder(const char *caller_cpp_ns, std::set<std::string> *dependency)
       : caller_cpp_ns_(caller_cpp_ns), dependency_(dependency) {}
 
+  static std::string type_name(const field_instruction *inst) {
+    // an unnamed sequence is the element of another sequence
+    return inst->name()[0] ? codegen_base::cpp_name(inst) : std::string();
+  }
+
   virtual void visit(const int32_field_instruction *, void *) override {
     name_ = "mfast::int32";
   }
@@ -167,9 +172,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -209,9 +214,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -223,9 +228,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = type_name(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + type_name(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
-- 
2.43.0


From 0fe63fe245feed843de6ff221c4085265434f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:16 +0000
Subject: [PATCH 089/102] fix: generated code keeps the tag of a templateRef
 which is alone in its group

---
 src/fast_type_gen/cpp_gen.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 5455b14..5678a3c 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -312,8 +312,7 @@ void cpp_gen::output_subinstructions() {
 
 bool cpp_gen::need_generate_subinstructions(
     const mfast::group_field_instruction *inst) {
-  return inst->ref_instruction() == nullptr &&
-         !this->contains_only_templateref(inst);
+  return inst->ref_instruction() == nullptr;
 }
 
 std::string
@@ -331,15 +330,9 @@ cpp_gen::get_subinstructions(const mfast::group_field_instruction *inst) {
   } else {
     prefixes_.pop_back();
 
-    if (this->contains_only_templateref(inst))
-      subinstruction_arg
-          << "  "
-          << "mfast::templateref_instruction::default_instruction(),\n";
-    else {
-      std::string qualified_name = cpp_type_of(inst);
+    std::string qualified_name = cpp_type_of(inst);
 
-      subinstruction_arg << "  " << qualified_name << "::instruction(),\n";
-    }
+    subinstruction_arg << "  " << qualified_name << "::instruction(),\n";
   }
   return subinstruction_arg.str();
 }
@@ -374,7 +367,8 @@ void cpp_gen::visit(const mfast::group_field_instruction *inst, void *pIndex) {
   if (pIndex == nullptr) {
     out_ << "const static " << name << "::instruction_type\n"
          << "  the_instruction(\n";
-  } else if (to_gen_subinstructions) {
+  } else if (to_gen_subinstructions &&
+             !contains_only_templateref(inst)) {
     out_ << "const static " << cref_scope() << name
          << "_cref::instruction_type\n" << prefix_string() << name
          << "_instruction(\n";
-- 
2.43.0


From 198db3ee862c6d0abee2d149610be6662b61dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:12 +0000
Subject: [PATCH 090/102] fix: code can be generated for a definition which is
 another name of a group

---
 src/fast_type_gen/codegen_base.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index e84c055..a9a4dd4 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -20,9 +20,11 @@ codegen_base::codegen_base(const char *filebase, const char *fileext)
 }
 
 inline bool
-codegen_base::dont_generate(const mfast::field_instruction * /*inst*/) const {
-  // return std::strncmp("mfast:", inst->name(), 6) == 0;
-  return false;
+codegen_base::dont_generate(const mfast::field_instruction *inst) const {
+  // there is no class of its own for another name of a group
+  return inst->field_type() == mfast::field_type_group &&
+         static_cast<const mfast::group_field_instruction *>(inst)
+                 ->ref_instruction() != nullptr;
 }
 
 void codegen_base::generate_comment(){
-- 
2.43.0


From 5b3003710c8da09fa59b8ec596e76fc27ccb196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:45 +0000
Subject: [PATCH 091/102] fix: code can be generated for a set field of a
 template of another document

---
 src/fast_type_gen/hpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index 7327e1c..996c621 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -744,7 +744,8 @@ void hpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
     header_mref_ << indent << "};\n\n";
   }
   if (pIndex) {
-    std::string ret_type = cpp_type_of(inst, &dependency_);
+    std::string ret_type =
+        inst->ref_instruction() ? cpp_type_of(inst, &dependency_) : name;
     header_cref_ << indent << ret_type << "_cref get_" << name << "() const;\n";
     header_cref_ << indent << ret_type << "_cref try_get_" << name << "() const;\n";
     if (inst->field_operator() != mfast::operator_constant)
-- 
2.43.0


From 53f8d3577d5a2918267070148926cfc6f062cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:40 +0000
Subject: [PATCH 092/102] fix: code can be generated for an enum field of a
 type of another document

---
 src/fast_type_gen/hpp_gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index 996c621..e5a40d3 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -583,7 +583,7 @@ void hpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
   if (inst->ref_instruction()) {
     std::string actual_type_name = cpp_type_of(inst, &dependency_);
     std::string enum_namespace;
-    if (actual_type_name.find("mfast") == std::string::npos)
+    if (actual_type_name.find("::") == std::string::npos)
     {
       for (auto &&ns : outer_ns_)
         enum_namespace += ns + "::";
-- 
2.43.0


From 7b95de321e0e1c2f30a8c793e6bbe66fb59ad81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 093/102] fix: a view can refer to a field and to a group or
 sequence which contains it

---
 src/mfast/xml_parser/view_info_builder.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..0cece34 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -233,10 +233,14 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
                                    static_cast<unsigned>(field_indeces.size()));
     result.prop += 1;
     if (fields.size()) {
-      result.prop += std::mismatch(nest_indices, nest_indices + i,
-                                   fields.back().nest_indices)
-                         .first -
-                     nest_indices;
+      // the last index is always to be followed again, the previous reference
+      // may lead to this one or to something inside of it
+      result.prop += std::min<std::ptrdiff_t>(
+          std::mismatch(nest_indices, nest_indices + i,
+                        fields.back().nest_indices)
+                  .first -
+              nest_indices,
+          i - 1);
     }
     fields.push_back(result);
   }
-- 
2.43.0


From c1742c7ba111f9d7bed7a50c166bc8ac2c4e08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 094/102] fix: a view reference to an element which a sequence
 does not have is absent

---
 src/mfast/view_iterator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..fc8b3f1 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -49,6 +49,8 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
           }
         } else {
+          // there is no such element
+          itr->leaf_.refers_to(field_cref());
           finished = true;
         }
       } else {
-- 
2.43.0


From 984812999d21286e08f023724ebfa93f0e5889be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 095/102] fix: a view iterator leaves the groups which are not
 common to the references it skips

---
 src/mfast/view_iterator.cpp | 11 +++++++++--
 src/mfast/view_iterator.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index fc8b3f1..5d743c8 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -12,9 +12,13 @@
 #include "sequence_ref.h"
 
 namespace mfast {
-bool view_iterator_helper::access_field(view_iterator *itr) {
+void view_iterator_helper::leave_groups(view_iterator *itr) {
   if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
     itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+}
+
+bool view_iterator_helper::access_field(view_iterator *itr) {
+  leave_groups(itr);
 
   while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
     // if the field is nesting inside a sequence, a null
@@ -69,8 +73,11 @@ void view_iterator_helper::increment(view_iterator *itr) {
   while (!access_field(itr) && itr->view_info_->cont())
     ++itr->view_info_;
 
-  while (itr->view_info_->cont())
+  while (itr->view_info_->cont()) {
     ++itr->view_info_;
+    // the prefix of the next reference is relative to this one
+    leave_groups(itr);
+  }
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..4b2e741 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -39,6 +39,7 @@ class view_iterator;
 
 class MFAST_EXPORT view_iterator_helper {
 public:
+  static void leave_groups(view_iterator *itr);
   static bool access_field(view_iterator *itr);
   static void increment(view_iterator *itr);
 };
-- 
2.43.0


From 102c3f23291bbfcddc30eca1d05db394d0e3ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 096/102] fix: the first field of a view can have several
 references, and a view can have none

---
 src/mfast/view_iterator.cpp | 4 ++++
 src/mfast/view_iterator.h   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index 5d743c8..86d452c 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -67,6 +67,10 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
 
 void view_iterator_helper::increment(view_iterator *itr) {
   ++itr->view_info_;
+  find_present(itr);
+}
+
+void view_iterator_helper::find_present(view_iterator *itr) {
   if (itr->view_info_->prop == 0)
     return;
 
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index 4b2e741..9741633 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -42,6 +42,7 @@ public:
   static void leave_groups(view_iterator *itr);
   static bool access_field(view_iterator *itr);
   static void increment(view_iterator *itr);
+  static void find_present(view_iterator *itr);
 };
 
 class view_iterator
@@ -55,7 +56,7 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    view_iterator_helper::find_present(this);
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
@@ -65,7 +66,6 @@ private:
   friend class view_iterator_helper;
 
   field_cref dereference() const { return leaf_; }
-  bool access_field() { return view_iterator_helper::access_field(this); }
   void increment() { return view_iterator_helper::increment(this); }
   bool equal(const view_iterator &other) const {
     return this->view_info_ == other.view_info_;
-- 
2.43.0


From 33e81e0e175ca51c43a31ee134f90498ef804eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 097/102] fix: a view rejects negative sequence indices

---
 src/mfast/xml_parser/view_info_builder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index 0cece34..da95d90 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -181,8 +181,12 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
         new_pos = ref_name.find_first_of(']', pos);
         if (new_pos != std::string::npos) {
           try {
-            sequence_indeces.push_back(boost::lexical_cast<unsigned>(
-                ref_name.substr(pos, new_pos - pos)));
+            // unlike unsigned, int does not wrap around
+            int index =
+                boost::lexical_cast<int>(ref_name.substr(pos, new_pos - pos));
+            if (index < 0)
+              throw boost::bad_lexical_cast();
+            sequence_indeces.push_back(index);
             pos = new_pos;
           } catch (boost::bad_lexical_cast &) {
             BOOST_THROW_EXCEPTION(
-- 
2.43.0


From c60b3945b080a7d7606eb62ac9e1439b1bfcbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 098/102] fix: the first field of a view can be without
 references

---
 src/mfast/xml_parser/view_info_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index da95d90..b39249a 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -280,7 +280,8 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
         grandchild = grandchild->NextSiblingElement();
       }
 
-      fields.back().prop &= ~field_view_info::CONTINUE_BIT;
+      if (fields.size())
+        fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
   }
-- 
2.43.0


From 495c77c8bf0eadfec44da4fbc122b7d1f17aae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 099/102] fix: view indices are allocated with room for the
 terminator

---
 src/mfast/xml_parser/view_info_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index b39249a..7561cf3 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -212,7 +212,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
     // replace every instance -2 with the indeces in []
     typedef field_view_info::nest_index_t nest_index_t;
     nest_index_t *nest_indices = static_cast<nest_index_t *>(
-        alloc_.allocate(sizeof(nest_index_t) * field_indeces.size() + 1));
+        alloc_.allocate(sizeof(nest_index_t) * (field_indeces.size() + 1)));
 
     unsigned i = 0, j = 0;
     for (i = 0; i < field_indeces.size(); ++i) {
-- 
2.43.0


From c8649bf58acd2642e8bee102d89e71d4b6c6a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:44 +0000
Subject: [PATCH 100/102] fix: a view reference which ends with a sequence
 element stays inside of the element

---
 src/mfast/view_iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index 86d452c..b5be107 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -51,6 +51,7 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
           index = itr->view_info_->nest_indices[++nest_level];
           if (index == -1) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
+            finished = true;
           }
         } else {
           // there is no such element
-- 
2.43.0


From dd47ddafce4af8ff833fe18816da791e4d6b7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:14 +0000
Subject: [PATCH 101/102] fix: JSON decode of a tagged byte vector replaces the
 old value instead of appending to it

---
 src/mfast/json/json_decode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 43ecc4e..e4341e4 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -389,6 +389,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 0b7ca1ffcc4bf899aa529163fff1e69d40d49a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:14 +0000
Subject: [PATCH 102/102] fix: JSON encode separates tagged byte vectors in a
 sequence

---
 src/mfast/json/json_encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 17135c3..aa99a78 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -107,6 +107,7 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
-- 
2.43.0

