From 3fe531d7b4b4697fa4bc5abced5586a8088dcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 001/216] Add BL_VERIF_HOOKS guarded CPU features override
 (verification only)

---
 blend2d/core/runtime.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/blend2d/core/runtime.cpp b/blend2d/core/runtime.cpp
index 5cc4e77..5f20210 100644
--- a/blend2d/core/runtime.cpp
+++ b/blend2d/core/runtime.cpp
@@ -11,6 +11,10 @@
 #include <limits.h>
 #include <stdio.h>
 
+#if defined(BL_VERIF_HOOKS)
+  #include <stdlib.h>
+#endif
+
 #if !defined(_WIN32)
   #include <pthread.h>
   #include <unistd.h>
@@ -255,6 +259,17 @@ static BL_INLINE void bl_runtime_init_optimization_info(BLRuntimeContext* rt) no
 #endif
 }
 
+#if defined(BL_VERIF_HOOKS)
+// Verification hook (never compiled into regular builds) - CPU features are not detected when building without JIT,
+// this makes it possible to select the optimized code paths to be used, which are otherwise selected by detection.
+static void bl_runtime_verif_override_cpu_features(BLRuntimeContext* rt) noexcept {
+  const char* value = getenv("BL_VERIF_CPU_FEATURES");
+  if (value) {
+    rt->system_info.cpu_features = uint32_t(strtoul(value, nullptr, 0));
+  }
+}
+#endif
+
 // BLRuntime - API - Initialization & Shutdown
 // ===========================================
 
@@ -267,6 +282,10 @@ BL_API_IMPL BLResult bl_runtime_init() noexcept {
   // on system or CPU features (futex, thread-pool, SIMD optimized operations, etc...).
   bl_runtime_init_system_info(rt);
 
+#if defined(BL_VERIF_HOOKS)
+  bl_runtime_verif_override_cpu_features(rt);
+#endif
+
   // Initialize optimization information.
   bl_runtime_init_optimization_info(rt);
 
-- 
2.43.0


From 5ae376fb8a907b2520d46b95c5e7f281efb5c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 002/216] fix: BLArray assign_data allocates storage for the
 new size instead of the old one

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..4a91ba6 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
-- 
2.43.0


From 08328b880a2ce90bdbb88049a5cdc6504c87a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 003/216] fix: BLArray replace_data moves the tail to its new
 position and respects the capacity

---
 blend2d/core/array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 4a91ba6..9e2afbb 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1187,7 +1187,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t tail_size = u.size - end;
   size_t size_after = u.size - range_size + n;
 
-  if (is_instance_mutable(self)) {
+  if (is_instance_mutable(self) && size_after <= u.capacity) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1198,14 +1198,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From cf6bb05929183b4531003639ec0edabc226ead67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 004/216] fix: BLArray modify_op rejects sizes that exceed the
 maximum capacity

---
 blend2d/core/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 9e2afbb..5d6b968 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -757,6 +757,9 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     return replace_instance(self, &newO);
   }
   else {
+    if (BL_UNLIKELY(size_after > maximum_capacity_table[array_type]))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
     BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after, item_size), op);
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
-- 
2.43.0


From e5b046124725c3e0da21e51269c5d9638ce669c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 005/216] fix: BLString assignment of a small content to an
 immutable string uses the temporary object

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 618ff9a43b3e673998e3d7bf6f955edb24880865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 006/216] fix: BLString reserve rejects sizes that exceed the
 maximum string size

---
 blend2d/core/string.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..b79a405 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -390,6 +390,9 @@ BL_API_IMPL BLResult bl_string_reserve(BLStringCore* self, size_t n) noexcept {
   if ((n | immutable_mask) <= u.capacity)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(n > get_maximum_size()))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLStringCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size_from_capacity(bl_max(u.size, n)), u.size));
 
-- 
2.43.0


From 477feb2a3859ae5aea359824bf3cd851dbd26ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 007/216] fix: BLArray assign_data initializes object items
 past the previous size

---
 blend2d/core/array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5d6b968..df391b8 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -906,6 +906,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
 
     assign_content_objects(u.data, src, replace_size * item_size);
     release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
+    init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
 
     return BL_SUCCESS;
   }
-- 
2.43.0


From 753b8280a55915a1b39e1e628ecdb0ad1db600fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 008/216] fix: BLArray resize releases the truncated items

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index df391b8..67020c3 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -577,7 +577,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From 2d2e325fe854fd1cbea56ae58467c3caf59b684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 009/216] fix: BLBitArray keeps its content when a shared
 instance is made mutable

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..fcc0fd2 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -96,12 +96,15 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     BLBitArrayCore newO;
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count_from_bit_count(size));
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
     BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count_from_bit_count(size));
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 60739626f360b173041a3e9c7e0f03ac79e02a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 010/216] fix: BLBitArray combining of unaligned words doesn't
 lose bits and doesn't read past the input

---
 blend2d/core/bitarray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index fcc0fd2..322eb79 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -200,6 +200,10 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
   }
 
+  // There is nothing to combine, `word_data` cannot be accessed.
+  if (bit_count == 0u)
+    return BL_SUCCESS;
+
   uint32_t w = word_data[0];
   uint32_t bit_shift_inv = BitArrayOps::kNumBits - bit_shift;
 
@@ -231,7 +235,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From c8d33f80b89ee077e8210ea05fbfb837d66d7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 011/216] fix: BLBitArray assign_words sets the size and only
 uses SSO storage when the words fit

---
 blend2d/core/bitarray.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 322eb79..d5db54d 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -16,6 +16,9 @@ namespace bl::BitArrayInternal {
 static constexpr size_t kSSOWordCapacity = uint32_t(BLBitArray::kSSOWordCount);
 static constexpr size_t kSSOBitCapacity = kSSOWordCapacity * uint32_t(BitArrayOps::kNumBits);
 
+// Maximum number of whole words so the number of bits is representable by uint32_t.
+static constexpr size_t kMaxWordCount = size_t(UINT32_MAX) / uint32_t(BitArrayOps::kNumBits);
+
 static BL_INLINE_CONSTEXPR size_t bit_index_of(size_t word_index) noexcept { return word_index * BitArrayOps::kNumBits; }
 static BL_INLINE_CONSTEXPR size_t word_index_of(size_t bit_index) noexcept { return bit_index / BitArrayOps::kNumBits; }
 
@@ -333,7 +336,13 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words && word_count <= kMaxWordCount) {
+      self_impl->size = word_count * uint32_t(bl::BitArrayOps::kNumBits);
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
       init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
@@ -342,8 +351,11 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     }
   }
 
+  if (BL_UNLIKELY(word_count > kMaxWordCount))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size_t(word_count) * bl::BitArrayOps::kNumBits));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From 4016e5f81bd5671b876ade8526f381f00fa7c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 012/216] fix: BLBitArray range queries don't access a word
 past the range and don't use out of range shifts

---
 blend2d/core/bitarray.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index d5db54d..b8612fe 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -432,7 +432,7 @@ BL_API_IMPL uint32_t bl_bit_array_get_cardinality_in_range(const BLBitArrayCore*
 
   if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start_bit);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     counter.add_item(d.data[start_word] & mask);
   }
   else {
@@ -470,11 +470,11 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t last_word = word_index_of(end - 1u);
 
-  if (start_word == end_word) {
+  if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     return (d.data[start_word] & mask) != 0u;
   }
 
@@ -482,12 +482,12 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
   if (d.data[start_word] & start_mask)
     return true;
 
-  for (size_t i = start_word + 1; i < end_word; i++)
+  for (size_t i = start_word + 1; i < last_word; i++)
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
-  return (d.data[end_word] & end_mask) != 0u;
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask((uint32_t(end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
+  return (d.data[last_word] & end_mask) != 0u;
 }
 
 // bl::BitArray - API - Testing
-- 
2.43.0


From a798b4fc54adc19e6cb10bfcfa1f227f229fc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 013/216] fix: BLBitArray resize zeroes bits of a newly
 allocated array

---
 blend2d/core/bitarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index b8612fe..f67c0db 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -698,6 +698,8 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   if (last_word_bit_count)
     dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);
 
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
+
   return replace_instance(self, &newO);
 }
 
-- 
2.43.0


From fb8db06789f3d8585375ce1e9702e6c0ff017deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 014/216] fix: BLBitArray::reserve() doesn't change the size

---
 blend2d/core/bitarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From f90554cabbc660cea011ca0a9cb72a1eb88fc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 015/216] fix: BLBitArray reserve of a shared instance
 allocates storage for its content

---
 blend2d/core/bitarray.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index f67c0db..9d7efe0 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -727,7 +727,9 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  // An immutable BitArray can be larger than `n_bits`.
+  size_t capacity = bl_max<size_t>(n_bits, d.size);
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(capacity));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From 02d127f353965b6a60e43eadb17f168da7060ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 016/216] fix: BLBitSet get_range returns false when the set is
 empty

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..2fd98e2 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1798,7 +1798,7 @@ BL_API_IMPL bool bl_bit_set_get_range(const BLBitSetCore* self, uint32_t* start_
       Range range = get_sso_range(self);
       *start_out = range.start;
       *end_out = range.end;
-      return true;
+      return range.start < range.end;
     }
     else {
       SSODenseInfo info = get_sso_dense_info(self);
-- 
2.43.0


From 13a00f5687d443a19c8edffc2df11964951c8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 017/216] fix: BLBitSet add_words combines SSO words at their
 own position and doesn't overflow the SSO storage

---
 blend2d/core/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2fd98e2..aa825ad 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2865,12 +2865,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (distance + sso_word_count <= kSSOWordCount && word_count <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
-- 
2.43.0


From 24d9d81097cbed61d0552db9f289077a3b965d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 018/216] fix: BLBitSet assign_words doesn't create a trailing
 segment past the assigned words

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index aa825ad..40122f4 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1440,7 +1440,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
-- 
2.43.0


From 6a0d821d5fdeb1d003f52fbae0ec8d11922e4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 019/216] fix: BLBitSet chop keeps the chopped content of an
 immutable BitSet and handles SSO data outside of the range

---
 blend2d/core/bitset.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 40122f4..2d137be 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2325,6 +2325,10 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      // The range to chop doesn't intersect with SSO data, in that case `tmp` is not initialized.
+      if (info.word_count() == 0)
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
@@ -2373,6 +2377,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* tmp_impl = get_impl(&tmp);
+    BLBitSetSegment* tmp_data = tmp_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(tmp_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+
+    tmp_impl->segment_count = final_count;
     return replace_instance(self, &tmp);
   }
 }
-- 
2.43.0


From 92795099b6476389bea8334dd14b7b87ece24115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 020/216] fix: BLBitSet clear_range doesn't duplicate segments
 when splitting a range segment

---
 blend2d/core/bitset.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2d137be..3a88579 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3400,11 +3400,11 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
     if (range_start_word < segment_start_word) {
       range_start_word = segment_start_word;
       range_start_bit = bit_index_of(range_start_word);
-
-      if (range_start_word > range_last_word)
-        break;
     }
 
+    if (range_start_word > range_last_word)
+      break;
+
     // If the range to clear completely overlaps this segment, remove it.
     if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
       continue;
@@ -3458,6 +3458,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
         bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
         inserter.advance();
 
+        segment_start_word += kSegmentWordCount;
         range_start_word = segment_start_word;
         range_start_bit = bit_index_of(range_start_word);
 
@@ -3467,7 +3468,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       }
 
       // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
+      segment_start_word = bl_max(segment_start_word, word_index_of(align_bit_down_to_segment(range_end_bit)));
       if (segment_start_word >= segment_end_word)
         continue;
 
-- 
2.43.0


From 416896118d009703db7712042401b248b500ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 021/216] fix: BLBitSet add_words advances past a range segment
 that was fully processed

---
 blend2d/core/bitset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 3a88579..8b2a356 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3070,6 +3070,10 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
         if (next) {
           if (next->all_ones() && word_index >= next->start_word()) {
             next->_set_range_start_word(initial_word_index);
+
+            // Don't visit the segment again if the processed words reached its end.
+            if (word_index == next->end_word())
+              segment_index++;
             continue;
           }
 
-- 
2.43.0


From 8b1250875af164a4daa606d48cf3c1469e9c1af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 022/216] fix: BLBitSet assign_deep doesn't cast SSO data to an
 Impl pointer and handles self assignment

---
 blend2d/core/bitset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 8b2a356..51fe013 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1244,10 +1244,10 @@ BL_API_IMPL BLResult bl_bit_set_assign_deep(BLBitSetCore* self, const BLBitSetCo
   if (!segment_count)
     return bl_bit_set_clear(self);
 
-  BLBitSetImpl* self_impl = get_impl(self);
-  if (!self->_d.sso() && is_impl_mutable(self_impl)) {
+  if (!self->_d.sso() && is_impl_mutable(get_impl(self))) {
+    BLBitSetImpl* self_impl = get_impl(self);
     if (self_impl->segment_capacity >= segment_count) {
-      memcpy(self_impl->segment_data(), other_impl->segment_data(), segment_count * sizeof(BLBitSetSegment));
+      memmove(self_impl->segment_data(), other_impl->segment_data(), segment_count * sizeof(BLBitSetSegment));
       self_impl->segment_count = segment_count;
       reset_cached_cardinality(self);
       return BL_SUCCESS;
-- 
2.43.0


From f7efbc528aa71b5dedb445205feb4423001a184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 023/216] fix: BLBitSet add_range doesn't overflow SSO storage
 and doesn't duplicate segments

---
 blend2d/core/bitset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 51fe013..30783ca 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2642,7 +2642,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if (range_last_word - range_start_word < kSSOWordCount && iStartWord + n - range_start_word <= kSSOWordCount) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
@@ -2802,8 +2802,8 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      // The last Dense segment is subsumed by `next`, so replace it.
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From a1173ce3bcef6764e2988f6279191728e642cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 024/216] fix: BLBitSet SSO data that spans two segments are
 expanded to two segments

---
 blend2d/core/bitset.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 30783ca..4791c37 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -905,6 +905,7 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
-- 
2.43.0


From de2087325e951eb5b1a78713859b0e2e84f7a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 025/216] fix: BLBitSet shrink doesn't interpret range segments
 as dense data

---
 blend2d/core/bitset.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 4791c37..0a2179f 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2171,6 +2171,8 @@ static bool test_segments_for_range(const BLBitSetSegment* segment_data, uint32_
       local.reset(pa.start, pa.end);
     }
 
+    segment_data++;
+
     if (i == 0) {
       range = local;
       continue;
@@ -2226,7 +2228,8 @@ static BLResult optimize_internal(BLBitSetCore* self, bool shrink) noexcept {
 
     // Try SSO dense representation.
     if (optimized_segment_count <= 2) {
-      if (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word()) {
+      bool is_dense = !optimized_segment_data[0].all_ones() && (optimized_segment_count == 1 || !optimized_segment_data[1].all_ones());
+      if (is_dense && (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word())) {
         uint32_t optimized_word_data[kSegmentWordCount * 2];
         bl::MemOps::copy_forward_inline_t(optimized_word_data, optimized_segment_data[0].data(), kSegmentWordCount);
         if (optimized_segment_count > 1)
-- 
2.43.0


From 09625c1f5e0ba0f23de4ab0080a5a407ad53ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 026/216] fix: BLBitSet range segment stays a range segment
 when its start is changed

---
 blend2d/core/bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.h b/blend2d/core/bitset.h
index e381243..219e7fb 100644
--- a/blend2d/core/bitset.h
+++ b/blend2d/core/bitset.h
@@ -61,7 +61,7 @@ struct BLBitSetSegment {
   BL_INLINE_NODEBUG uint32_t _dense_start_word() const noexcept { return _start_word; }
   BL_INLINE_NODEBUG uint32_t _dense_end_word() const noexcept { return _start_word + BL_BIT_SET_SEGMENT_WORD_COUNT; }
 
-  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index; }
+  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index | BL_BIT_SET_RANGE_MASK; }
   BL_INLINE_NODEBUG void _set_range_end_word(uint32_t index) noexcept { _data[0] = index; }
 
   BL_INLINE_NODEBUG uint32_t start_word() const noexcept { return _start_word & ~BL_BIT_SET_RANGE_MASK; }
-- 
2.43.0


From 5e09028c8a99a30f9c2abecd518daad06696786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 027/216] fix: BLBitSet clearing of bits at the end of the
 addressable range doesn't overflow SSO data

---
 blend2d/core/bitset.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 0a2179f..0a2c072 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3170,12 +3170,13 @@ BL_API_IMPL BLResult bl_bit_set_clear_bit(BLBitSetCore* self, uint32_t bit_index
 
       // We know that the bit_index is somewhere inside the SSO range, but not at the start/end. If the range can
       // be represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t first_word = word_index_of(rSSO.start);
+      // We don't want the SSO data to overflow the addressable words.
+      uint32_t first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t last_word = word_index_of(rSSO.end - 1u);
 
       if (last_word - first_word < kSSOWordCount) {
         init_sso_dense(self, first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear_bit(self->_d.u32_data, bit_index - bit_index_of(first_word));
         return BL_SUCCESS;
       }
@@ -3329,12 +3330,13 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
 
       // We know that the range is somewhere inside the SSO range, but not at the start/end. If the range can be
       // represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t dense_first_word = word_index_of(rSSO.start);
+      // We don't want the SSO data to overflow the addressable words.
+      uint32_t dense_first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t dense_last_word = word_index_of(rSSO.end - 1u);
 
-      if (dense_first_word - dense_last_word < kSSOWordCount) {
+      if (dense_last_word - dense_first_word < kSSOWordCount) {
         init_sso_dense(self, dense_first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(dense_first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear(self->_d.u32_data, intersection.start - bit_index_of(dense_first_word), intersection.size());
         return BL_SUCCESS;
       }
-- 
2.43.0


From cf8a22925d1f6ef2e2d791574f7d4a4ef66b3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 028/216] fix: BLGradient keeps the last stop of an unsorted
 stop array

[P07]
---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From ca46d4168a9e16b3a557d6ab8265431fd428eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 029/216] fix: BLGradient keeps the remaining stops when stops
 are removed from a shared instance

[P07]
---
 blend2d/core/gradient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..05995eb 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,7 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From a6e2342fd26ac96e3cf2ecff58a47b48ceb887cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 030/216] fix: BLGradient replace_stop with an invalid offset
 doesn't remove the stop

[P07]
---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 05995eb..8091ef1 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -920,7 +920,7 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   using namespace bl::GradientInternal;
   BL_ASSERT(self->_d.is_gradient());
 
-  if (BL_UNLIKELY(index >= get_size(self)))
+  if (BL_UNLIKELY(index >= get_size(self) || !(offset >= 0.0 && offset <= 1.0)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   BL_PROPAGATE(make_mutable(self, false));
-- 
2.43.0


From 8352f080fd92cbeb61f7a55ff2cf08d66e7ecd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 031/216] fix: BLGradient keeps all values when a shared
 instance is made mutable

[P07]
---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 8091ef1..57ddbda 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From f77dca4dcbdc5acced2d2ce0f8921de6d18f37fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 032/216] fix: BLGradient equality compares the gradient values

[P07]
---
 blend2d/core/gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 57ddbda..082e9b2 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1016,6 +1016,10 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
 
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
+
+  for (size_t i = 0; i <= BL_GRADIENT_VALUE_MAX_VALUE; i++)
+    eq &= unsigned(bl_equals(a_impl->values[i], b_impl->values[i]));
+
   return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
 }
 
-- 
2.43.0


From b009347867cfebe9ebeb0c680bcb45c711a877ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 033/216] fix: BLPattern assign_deep copies the extend mode and
 the transform type of the source

[P07]
---
 blend2d/core/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pattern.cpp b/blend2d/core/pattern.cpp
index 71289b2..090863f 100644
--- a/blend2d/core/pattern.cpp
+++ b/blend2d/core/pattern.cpp
@@ -45,7 +45,7 @@ static BL_NOINLINE BLResult make_mutable_copy_of(BLPatternCore* self, const BLPa
   BLPatternPrivateImpl* other_impl = get_impl(other);
 
   BLPatternCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(self), &other_impl->transform, get_transform_type(self)));
+  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(other), &other_impl->transform, get_transform_type(other)));
 
   return replace_instance(self, &newO);
 }
-- 
2.43.0


From 4355ff10ebcb88a05fb874428b28fd549bca846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 034/216] fix: BLFontFeatureSettings keeps values of the
 remaining features when a feature is removed

[P08]
---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..c639ee7 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
-- 
2.43.0


From 9d30dafa0c97a52b4b177f847b900fe1455593d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 035/216] fix: BLFontFeatureSettings has_value looks up fat
 features by their feature id

[P08]
---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index c639ee7..1e5d297 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
-- 
2.43.0


From 6425f82ec67978f277680f1cf4fe7369f824cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 036/216] fix: BLFontFeatureSettings stores values that don't
 fit the SSO storage dynamically

[P08]
---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 1e5d297..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From cdd09cd79896fcd818b20d337f92cefaf8d05cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 037/216] fix: BLFontFeatureSettings rejects invalid values of
 boolean features regardless of the storage

[P08]
---
 blend2d/core/fontfeaturesettings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..d8e783e 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -557,6 +557,9 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
     if (BL_UNLIKELY(!bl::FontTagData::is_valid_tag(feature_tag)))
       return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+    if (feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id() && value > 1u)
+      return bl_make_error(BL_ERROR_INVALID_VALUE);
+
     can_modify = is_impl_mutable(get_impl(self));
   }
 
-- 
2.43.0


From bb80a95a840aacd93e6687bda898d4ca9b41445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 038/216] fix: BLVar to_bool of a string writes the output

[P09]
---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From 902ac5e19934ed1f101012cbfff983b9357ef86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 039/216] fix: BLVar equality of two doubles compares their
 values

[P09]
---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c21d5f1..3724809 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -680,7 +680,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return bl_var_equals_double(a, b_d.f64_data[0]);
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From f8ea35eed66a751402bf9ca2c76e5688ef73520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 040/216] fix: BLVar doesn't let a negative alpha of BLRgba
 forge an object signature

[P09]
---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From 94a2fe01dd03c69c13e91857358deda305eb71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 041/216] fix: BLVar conversions between 64-bit integers and
 doubles don't overflow at the upper limit

[P09]
---
 blend2d/core/var.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 3724809..76ca5bf 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= 9223372036854775808.0) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= 18446744073709551616.0) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -517,7 +517,7 @@ BL_API_IMPL BLResult bl_var_to_double(const BLUnknown* self, double* out) noexce
       double v = double(d.i64_data[0]);
 
       *out = v;
-      if (int64_t(v) != d.i64_data[0])
+      if (v >= 9223372036854775808.0 || int64_t(v) != d.i64_data[0])
         return bl_make_error(BL_ERROR_OVERFLOW);
 
       return BL_SUCCESS;
@@ -527,7 +527,7 @@ BL_API_IMPL BLResult bl_var_to_double(const BLUnknown* self, double* out) noexce
       double v = double(d.u64_data[0]);
 
       *out = v;
-      if (uint64_t(v) != d.u64_data[0])
+      if (v >= 18446744073709551616.0 || uint64_t(v) != d.u64_data[0])
         return bl_make_error(BL_ERROR_OVERFLOW);
 
       return BL_SUCCESS;
@@ -756,7 +756,7 @@ BL_API_IMPL bool bl_var_equals_int64(const BLUnknown* self, int64_t value) noexc
       return d.i64_data[0] == value && value >= 0;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return d.f64_data[0] == double(value) && int64_t(double(value)) == value;
+      return d.f64_data[0] == double(value) && double(value) < 9223372036854775808.0 && int64_t(double(value)) == value;
 
     default:
       return false;
@@ -779,7 +779,7 @@ BL_API_IMPL bool bl_var_equals_uint64(const BLUnknown* self, uint64_t value) noe
       return d.u64_data[0] == value && d.i64_data[0] >= 0;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return d.f64_data[0] == double(value) && uint64_t(double(value)) == value;
+      return d.f64_data[0] == double(value) && double(value) < 18446744073709551616.0 && uint64_t(double(value)) == value;
 
     default:
       return false;
@@ -797,10 +797,10 @@ BL_API_IMPL bool bl_var_equals_double(const BLUnknown* self, double value) noexc
       return double(d.u64_data[0]) == value;
 
     case BL_OBJECT_TYPE_INT64:
-      return double(d.i64_data[0]) == value && int64_t(double(d.i64_data[0])) == d.i64_data[0];
+      return double(d.i64_data[0]) == value && value < 9223372036854775808.0 && int64_t(value) == d.i64_data[0];
 
     case BL_OBJECT_TYPE_UINT64:
-      return double(d.u64_data[0]) == value && uint64_t(double(d.u64_data[0])) == d.u64_data[0];
+      return double(d.u64_data[0]) == value && value < 18446744073709551616.0 && uint64_t(value) == d.u64_data[0];
 
     case BL_OBJECT_TYPE_DOUBLE:
       return d.f64_data[0] == value || (bl::Math::is_nan(d.f64_data[0]) && bl::Math::is_nan(value));
-- 
2.43.0


From 98127cba9df39710be18f4f0f3e473d34c9f1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 042/216] fix: BLObjectInfo type predicates compare the whole
 type field, not only its set bits

[P09]
---
 blend2d/core/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/object.h b/blend2d/core/object.h
index e5e0be5..cc1bd78 100644
--- a/blend2d/core/object.h
+++ b/blend2d/core/object.h
@@ -504,7 +504,7 @@ struct BLObjectInfo {
 
   //! Tests whether BLObjectInfo describes a valid BLObject of the given `type`.
   BL_INLINE_CONSTEXPR bool check_object_signature_and_raw_type(BLObjectType type) const noexcept {
-    return has_object_signature_and_flags(uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
+    return has_object_signature_and_flags(BL_OBJECT_INFO_TYPE_MASK, uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
   }
 
   //! \}
-- 
2.43.0


From ff997f450c0b59837ca3230997dc7c4fd3dd555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 043/216] fix: vertical A8 image scaling reads and writes past
 rows that end before the first aligned byte

[P34]
---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..d559cb1 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -640,7 +640,7 @@ static void BL_CDECL bl_image_scale_vert_bytes(const ImageScaleContext::Data* d,
 
       if (((intptr_t)dp & 0x7) == 0)
         goto BoundLarge;
-      i = 8u - uint32_t((uintptr_t)dp & 0x7u);
+      i = bl_min<uint32_t>(x, 8u - uint32_t((uintptr_t)dp & 0x7u));
 
 BoundSmall:
       x -= i;
@@ -718,7 +718,7 @@ BoundLarge:
 
       if (((size_t)dp & 0x3) == 0)
         goto UnboundLarge;
-      i = 4u - uint32_t((uintptr_t)dp & 0x3u);
+      i = bl_min<uint32_t>(x, 4u - uint32_t((uintptr_t)dp & 0x3u));
 
 UnboundSmall:
       x -= i;
-- 
2.43.0


From 3a8eb1637238e34e034ffa84881e869a7265ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 044/216] fix: gradient equality does not depend on whether the
 implementation is the built-in default one

[P07]
---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 082e9b2..572efa8 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1008,7 +1008,7 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   const BLGradientPrivateImpl* a_impl = get_impl(a);
   const BLGradientPrivateImpl* b_impl = get_impl(b);
 
-  if (a->_d.info != b->_d.info)
+  if (a->_d.fields() != b->_d.fields())
     return false;
 
   if (a_impl == b_impl)
-- 
2.43.0


From 8ee8d41ea06d6502c1e54bfa9b337d1124413e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 045/216] fix: a cleared path reports stale or uninitialized
 bounds and flags

[P06]
---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..19b2ef6 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -352,7 +352,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From b3d8973bf2d74fa50a97888fdd8aa977fe0f16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 046/216] fix: reserving less than the current size of a shared
 gradient writes out of bounds

[P07]
---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 572efa8..ecf9f8d 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -565,7 +565,7 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
 
   BLGradientCore newO;
 
-  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(n), BLObjectImplSize(kInitialImplSize));
+  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
   BL_PROPAGATE(alloc_impl(&newO, impl_size, self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));
 
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 29c3e633c179532f1965118de5f0f91baa3dfa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 047/216] fix: fitting a path that has no initial vertex reads
 memory before its vertices

[P06]
---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 19b2ef6..965b5cc 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2153,7 +2153,7 @@ BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, cons
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   PathInfoUpdater updater;
-  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, true));
+  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, start != 0));
 
   // TODO: Honor `fit_flags`.
   bl_unused(fit_flags);
-- 
2.43.0


From 1fbc8fa5bca8f0b971fe2f3dfa9cb5c4fe8db711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 048/216] fix: a failed stroke leaves uninitialized vertices in
 the output path

[P28]
---
 blend2d/core/path.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 965b5cc..befea44 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1998,16 +1998,24 @@ BL_API_IMPL BLResult bl_path_add_stroked_path(BLPathCore* self, const BLPathCore
   BLPath b_path;
   BLPath c_path;
 
+  size_t initial_size = get_size(self);
+  BLResult result;
+
   if (self == other) {
     // Border case, we don't want anything to happen to the `other` path during
     // processing. And since stroking may need to reallocate the output path it
     // would be unsafe.
     BLPath tmp(other->dcast());
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
   }
   else {
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
   }
+
+  // Don't keep anything if stroking failed - the last figure could be incomplete and its end uninitialized.
+  if (result != BL_SUCCESS && get_size(self) > initial_size)
+    set_size(self, initial_size);
+  return result;
 }
 
 BL_API_IMPL BLResult BL_CDECL bl_path_stroke_to_sink(
-- 
2.43.0


From 64fb6ca5a2ae69117ee831e032f400a58d801075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 049/216] fix: the stroke sink receives wrong figure ranges
 after a skipped figure

[P28]
---
 blend2d/core/pathstroke.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 6bb5bf0..195955b 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -226,14 +226,13 @@ public:
   }
 
   BL_INLINE_IF_NOT_DEBUG BLResult stroke(BLPathStrokeSinkFunc sink, void* user_data) noexcept {
-    size_t figure_start_idx = 0;
+    const uint8_t* path_start_cmd = _iter.cmd;
     size_t estimated_size = _iter.remaining_forward() * 2u;
 
     BL_PROPAGATE(a_path()->reserve(a_path()->size() + estimated_size));
 
     while (!_iter.at_end()) {
       // Start of the figure.
-      const uint8_t* figure_start_cmd = _iter.cmd;
       if (BL_UNLIKELY(_iter.cmd[0] != BL_PATH_CMD_MOVE)) {
         if (_iter.cmd[0] != BL_PATH_CMD_CLOSE)
           return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
@@ -242,8 +241,7 @@ public:
         continue;
       }
 
-      figure_start_idx += (size_t)(_iter.cmd - figure_start_cmd);
-      figure_start_cmd = _iter.cmd;
+      size_t figure_start_idx = (size_t)(_iter.cmd - path_start_cmd);
 
       side_data(Side::kA).figure_offset = side_data(Side::kA).path->size();
       BL_PROPAGATE(a_out().begin(a_path(), BL_MODIFY_OP_APPEND_GROW, _iter.remaining_forward()));
@@ -516,10 +514,8 @@ SmoothPolyTo:
       b_out().done(b_path());
 
       // Call the path to the provided sink with resulting paths.
-      size_t figure_end_idx = figure_start_idx + (size_t)(_iter.cmd - figure_start_cmd);
+      size_t figure_end_idx = (size_t)(_iter.cmd - path_start_cmd);
       BL_PROPAGATE(sink(a_path(), b_path(), c_path(), figure_start_idx, figure_end_idx,  user_data));
-
-      figure_start_idx = figure_end_idx;
     }
 
     return BL_SUCCESS;
-- 
2.43.0


From 8daaaaff6c9a70936e53a8da08a2db366bb45532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 050/216] fix: signed overflow when a value outside of the
 int64 range is floored

[P37]
---
 blend2d/support/math_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/support/math_p.h b/blend2d/support/math_p.h
index 393cc90..71d8898 100644
--- a/blend2d/support/math_p.h
+++ b/blend2d/support/math_p.h
@@ -410,8 +410,8 @@ static BL_INLINE int64_t nearby_to_int64(double x) noexcept {
 static BL_INLINE_NODEBUG int64_t trunc_to_int64(float x) noexcept { return int64_t(x); }
 static BL_INLINE_NODEBUG int64_t trunc_to_int64(double x) noexcept { return int64_t(x); }
 
-static BL_INLINE_NODEBUG int64_t floor_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(float(y) > x); }
-static BL_INLINE_NODEBUG int64_t floor_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(double(y) > x); }
+static BL_INLINE_NODEBUG int64_t floor_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) - uint64_t(float(y) > x)); }
+static BL_INLINE_NODEBUG int64_t floor_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) - uint64_t(double(y) > x)); }
 
 static BL_INLINE_NODEBUG int64_t ceil_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(float(y) < x); }
 static BL_INLINE_NODEBUG int64_t ceil_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(double(y) < x); }
-- 
2.43.0


From eaf2568f3a5cb406d6b8fca81765e37823c0b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 051/216] fix: rounding to integers overflows for out of range
 values and 64-bit ceil rounds to the wrong side

[P37]
---
 blend2d/support/math_p.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/support/math_p.h b/blend2d/support/math_p.h
index 71d8898..ab88281 100644
--- a/blend2d/support/math_p.h
+++ b/blend2d/support/math_p.h
@@ -359,11 +359,11 @@ static BL_INLINE int floor_to_int(double x) noexcept { return _mm_cvttsd_si32(bl
 static BL_INLINE int ceil_to_int(float x) noexcept { return _mm_cvttss_si32(bl_roundf_sse4_1<_MM_FROUND_TO_POS_INF>(x)); }
 static BL_INLINE int ceil_to_int(double x) noexcept { return _mm_cvttsd_si32(bl_roundd_sse4_1<_MM_FROUND_TO_POS_INF>(x)); }
 #else
-static BL_INLINE int floor_to_int(float x) noexcept { int y = nearby_to_int(x); return y - (float(y) > x); }
-static BL_INLINE int floor_to_int(double x) noexcept { int y = nearby_to_int(x); return y - (double(y) > x); }
+static BL_INLINE int floor_to_int(float x) noexcept { int y = nearby_to_int(x); return int(unsigned(y) - unsigned(float(y) > x)); }
+static BL_INLINE int floor_to_int(double x) noexcept { int y = nearby_to_int(x); return int(unsigned(y) - unsigned(double(y) > x)); }
 
-static BL_INLINE int ceil_to_int(float x) noexcept { int y = nearby_to_int(x); return y + (float(y) < x); }
-static BL_INLINE int ceil_to_int(double x) noexcept { int y = nearby_to_int(x); return y + (double(y) < x); }
+static BL_INLINE int ceil_to_int(float x) noexcept { int y = nearby_to_int(x); return int(unsigned(y) + unsigned(float(y) < x)); }
+static BL_INLINE int ceil_to_int(double x) noexcept { int y = nearby_to_int(x); return int(unsigned(y) + unsigned(double(y) < x)); }
 #endif
 
 static BL_INLINE int round_to_int(float x) noexcept { int y = nearby_to_int(x); return y + (float(y) - x == -0.5f); }
@@ -413,8 +413,8 @@ static BL_INLINE_NODEBUG int64_t trunc_to_int64(double x) noexcept { return int6
 static BL_INLINE_NODEBUG int64_t floor_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) - uint64_t(float(y) > x)); }
 static BL_INLINE_NODEBUG int64_t floor_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) - uint64_t(double(y) > x)); }
 
-static BL_INLINE_NODEBUG int64_t ceil_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(float(y) < x); }
-static BL_INLINE_NODEBUG int64_t ceil_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return y - int64_t(double(y) < x); }
+static BL_INLINE_NODEBUG int64_t ceil_to_int64(float x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) + uint64_t(float(y) < x)); }
+static BL_INLINE_NODEBUG int64_t ceil_to_int64(double x) noexcept { int64_t y = trunc_to_int64(x); return int64_t(uint64_t(y) + uint64_t(double(y) < x)); }
 
 static BL_INLINE_NODEBUG int64_t round_to_int64(float x) noexcept { int64_t y = nearby_to_int64(x); return y + int64_t(float(y) - x == -0.5f); }
 static BL_INLINE_NODEBUG int64_t round_to_int64(double x) noexcept { int64_t y = nearby_to_int64(x); return y + int64_t(double(y) - x == -0.5);  }
-- 
2.43.0


From cad38c56f6e28b8dfcf235652b9aabdc7899e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 052/216] fix: BLPath::add_geometry() reads past the end of
 polygons and box arrays added counter-clockwise

[P05]
---
 blend2d/core/path.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index befea44..0e517cc 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1621,7 +1621,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1640,7 +1640,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1662,7 +1662,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1684,7 +1684,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1711,7 +1711,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1743,7 +1743,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
-- 
2.43.0


From 0934dea8f2e7f2904da7864e3dc5ae5ff21bae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 053/216] fix: BLPath::get_control_box() merges the weight of a
 conic instead of its control point

[P06]
---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 0e517cc..43e3f58 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -654,7 +654,7 @@ public:
             Geometry::get_conic_extrema_points(vtx_data - 4, extrema);
             Geometry::bound(bounding_box, extrema[0]);
             Geometry::bound(bounding_box, extrema[1]);
-            Geometry::bound(control_box, vtx_data[-2]);
+            Geometry::bound(control_box, vtx_data[-3]);
           }
           break;
         }
-- 
2.43.0


From cae8eed6e029c890f67d9e5edb02966a685bc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 054/216] fix: BLPath::get_closest_vertex() uses the control
 box when path info is not available

[P06]
---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 43e3f58..50eed1c 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2407,7 +2407,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) != BL_SUCCESS) {
+    if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
       const BLBox& b_box = self_impl->control_box;
-- 
2.43.0


From 42b313debd33cd939af0097235d9ba8de72c2200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 055/216] fix: BLPath::hit_test() uses the wrong end of a curve
 when the point is level with it

[P06]
---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 50eed1c..3099068 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2578,11 +2578,11 @@ OnLine:
               if (bl::Math::quad_roots(ti, qc.a.y, qc.b.y, qc.c.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = (qc.a.x * ti[0] + qc.b.x) * ti[0] + qc.c.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = p[0].x;
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[2].y)) {
+                ix = spline_ptr[0].x;
               }
               else {
-                ix = p[2].x;
+                ix = spline_ptr[2].x;
               }
 
               if (pt.x >= ix)
@@ -2647,7 +2647,7 @@ OnLine:
               if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[3].y)) {
                 ix = spline_ptr[0].x;
               }
               else {
-- 
2.43.0


From f35b2d7b60453bdf29bdb6f283566decdda47dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 056/216] fix: reversing a path swaps the control point and
 weight of conics

[P05]
---
 blend2d/core/path.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 3099068..3bbbdbc 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -845,6 +845,14 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (cmd == BL_PATH_CMD_CLOSE)
           break;
 
+        // The weight always follows the control point of a conic, also when reversed.
+        if (cmd == BL_PATH_CMD_WEIGHT && src.remaining_backward() >= 2 && src.cmd[-1] == BL_PATH_CMD_CONIC) {
+          dst.add_vertex(BL_PATH_CMD_CONIC, src.vtx[-1]);
+          dst.add_vertex(BL_PATH_CMD_WEIGHT, src.vtx[0]);
+          src -= 2;
+          continue;
+        }
+
         dst.add_vertex(src.cmd[0], src.vtx[0]);
         src--;
       }
-- 
2.43.0


From 10f7bb0c4ce99cc4bcab8ebbfb7cebad20a76dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 057/216] fix: transforming a path transforms weights of conics
 as if they were points

[P05]
---
 blend2d/core/path.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 3bbbdbc..0deed93 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -759,6 +759,25 @@ static BL_INLINE BLResult append_box_internal(BLPathCore* self, double x0, doubl
   return BL_SUCCESS;
 }
 
+// Maps `n` vertices, which can be mapped in place. Weights of conics are not points and thus are not transformed.
+static BLResult map_vertices(const BLMatrix2D* transform, uint32_t transform_type, const uint8_t* cmd_data, BLPoint* vtx_dst, const BLPoint* vtx_src, size_t n) noexcept {
+  size_t i = 0;
+  for (;;) {
+    size_t start = i;
+    while (i < n && cmd_data[i] != BL_PATH_CMD_WEIGHT)
+      i++;
+
+    if (i != start)
+      BL_PROPAGATE(TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_dst + start, vtx_src + start, i - start));
+
+    if (i == n)
+      return BL_SUCCESS;
+
+    vtx_dst[i] = vtx_src[i];
+    i++;
+  }
+}
+
 // If the function succeeds then the number of vertices written to destination
 // equals `n`. If the function fails you should not rely on the output data.
 //
@@ -886,7 +905,7 @@ static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPath
   other_impl = get_impl(other);
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 } // {PathInternal}
@@ -1791,7 +1810,7 @@ AddBoxD:
 
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLPoint* vtx_data = self_impl->vertex_data + initial_size;
-  return bl_matrix2d_map_pointd_array(m, vtx_data, vtx_data, self_impl->size - initial_size);
+  return map_vertices(m, m->type(), self_impl->command_data + initial_size, vtx_data, vtx_data, self_impl->size - initial_size);
 }
 
 BL_API_IMPL BLResult bl_path_add_path(BLPathCore* self, const BLPathCore* other, const BLRange* range) noexcept {
@@ -1850,7 +1869,7 @@ BL_API_IMPL BLResult bl_path_add_transformed_path(BLPathCore* self, const BLPath
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? transform->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, cmd_data, vtx_data, other_impl->vertex_data + start, n);
 }
 
 BL_API_IMPL BLResult bl_path_add_reversed_path(BLPathCore* self, const BLPathCore* other, const BLRange* range, BLPathReverseMode reverse_mode) noexcept {
@@ -2121,7 +2140,7 @@ static BLResult transform_with_type(BLPathCore* self, const BLRange* range, cons
   self_impl = get_impl(self);
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, vtx_data, n);
+  return map_vertices(transform, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 } // {PathInternal}
@@ -2152,7 +2171,7 @@ BL_API_IMPL BLResult bl_path_transform(BLPathCore* self, const BLRange* range, c
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? m->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](m, vtx_data, vtx_data, n);
+  return map_vertices(m, transform_type, self_impl->command_data + start, vtx_data, vtx_data, n);
 }
 
 BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, const BLRect* rect, uint32_t fit_flags) noexcept {
-- 
2.43.0


From ba55b8332cdc72bc6bd1daf7810dcdc33801029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 058/216] fix: BLMatrix2D rotation around a point translates by
 the point instead of keeping it in place

[P38]
---
 blend2d/core/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/matrix.cpp b/blend2d/core/matrix.cpp
index fee6424..2f8f802 100644
--- a/blend2d/core/matrix.cpp
+++ b/blend2d/core/matrix.cpp
@@ -123,7 +123,7 @@ BL_API_IMPL BLResult bl_matrix2d_set_rotation(BLMatrix2D* self, double angle, do
   double as = bl::Math::sin(angle);
   double ac = bl::Math::cos(angle);
 
-  self->reset(ac, as, -as, ac, x, y);
+  self->reset(ac, as, -as, ac, x - ac * x + as * y, y - as * x - ac * y);
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From 25f524babbe3695bc316423792aa7f8260068c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 059/216] fix: BLPath::add_geometry() reverses uninitialized
 vertices when a path is added to itself

[P05]
---
 blend2d/core/path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 0deed93..c5d6515 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1789,8 +1789,10 @@ AddBoxD:
       // Only for appending path in reverse order, otherwise we use a better approach.
       BL_ASSERT(dir != BL_GEOMETRY_DIRECTION_CW);
 
+      // Maybe `self` and `other` are the same, so only use the size that `other` had before it was grown.
       const BLPathPrivateImpl* other_impl = get_impl(static_cast<const BLPath*>(geometry_data));
-      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->view), BL_PATH_REVERSE_MODE_COMPLETE);
+      bl::PathIterator src(other_impl->command_data, other_impl->vertex_data, n);
+      BLResult result = copy_content_reversed(appender, src, BL_PATH_REVERSE_MODE_COMPLETE);
 
       if (result != BL_SUCCESS) {
         set_size(self, initial_size);
-- 
2.43.0


From c0b8ed5787277e046e3d4688a6591ae11b8c736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 060/216] fix: BLPath::get_closest_vertex() considers weights
 of conics

[P06]
---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index c5d6515..2b71b93 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2447,7 +2447,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
   }
 
   for (size_t i = 0; i < size; i++) {
-    if (cmd_data[i] != BL_PATH_CMD_CLOSE) {
+    if (cmd_data[i] < BL_PATH_CMD_CLOSE) {
       double d = bl::Math::square(vtx_data[i].x - pt.x) +
                  bl::Math::square(vtx_data[i].y - pt.y);
 
-- 
2.43.0


From 487b557015355bf268a40926b03fe7a3fb4cb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 061/216] fix: BLPath::hit_test() fails for cubics with an
 almost zero cubic term

[P06]
---
 blend2d/core/path.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 2b71b93..8f679a0 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2672,6 +2672,11 @@ OnLine:
 
               bl::Geometry::CubicCoefficients cc = bl::Geometry::coefficients_of(bl::Geometry::cubic_ref(spline_ptr));
 
+              // A curve that has almost no cubic term must be solved as quadratic - Cardano's formula would divide the other
+              // coefficients by a value that only consists of rounding errors.
+              if (bl_abs(cc.a.y) <= 1e-6 * bl_max(bl_abs(cc.b.y), bl_abs(cc.c.y)))
+                cc.a.y = 0.0;
+
               // { At^3 + Bt^2 + Ct + D } -> { ((At + B)t + C)t + D }
               if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
-- 
2.43.0


From 49ce2eb0c76c197914ab8baf772131e305ff6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 062/216] fix: Deflate decoder reads out of the offset table
 when an incomplete offset code is used

[P12]
---
 blend2d/compression/deflatedecoderfastimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 25e8e0b..66c1145 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -142,7 +142,7 @@ DecoderFastResult decode_impl(
       uint32_t offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
       if (BL_UNLIKELY(!DecoderUtils::is_off_or_len(entry))) {
-        entry = tables.offset_decode_table[offset];
+        entry = tables.offset_decode_table[offset & 0x7FFFu];
         offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
         if (BL_UNLIKELY(DecoderUtils::is_end_of_block(entry))) {
-- 
2.43.0


From b9c081b04fce47e2907027a03d04dedf76820414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 063/216] fix: Deflate decoder asks for more output when the
 input chunk ends in front of the end of block

[P12]
---
 blend2d/compression/deflatedecoder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index 26407a7..eecac74 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -1183,14 +1183,15 @@ BuildHuffmanTables:
           uint32_t length = DecoderUtils::payload_field(entry);
 
           if (DecoderUtils::is_literal(entry)) {
-            if (BL_UNLIKELY(dst_ptr == dst_end)) {
-              goto NotEnoughOutputBytes;
-            }
-
+            // Input must be checked first - without enough bits the entry is not known to be a literal.
             if (BL_UNLIKELY(bits.length() < base_len)) {
               goto NotEnoughInputBytes;
             }
 
+            if (BL_UNLIKELY(dst_ptr == dst_end)) {
+              goto NotEnoughOutputBytes;
+            }
+
             BL_DECODER_UPDATE_STATISTICS(statistics.tail.quick_literal_entries++);
             bits.consumed(base_len);
 
-- 
2.43.0


From ef57aaa2b287fedc9d9dd00a76afdaa57bf03862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 064/216] fix: Deflate decoder never returns when it is given
 data past the end of the stream

[P12]
---
 blend2d/compression/deflatedecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index eecac74..064a7fe 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -616,8 +616,8 @@ BLResult Decoder::decode(BLArray<uint8_t>& dst, BLDataView input) noexcept {
 
     switch (state) {
       case DecoderState::kDone: {
-        // TODO:
-        break;
+        // Data past the end of the stream is ignored.
+        return BL_SUCCESS;
       }
 
       // Zlib Header
-- 
2.43.0


From 54464b1cea272596e93413f9e29d8c4a30447e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 065/216] fix: Deflate decoder accepts zlib streams with an
 invalid window size

[P12]
---
 blend2d/compression/deflatedecoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index 064a7fe..86494b1 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -640,6 +640,10 @@ BLResult Decoder::decode(BLArray<uint8_t>& dst, BLDataView input) noexcept {
         if (BL_UNLIKELY((cmf & 0xFu) != 8u))
           goto ErrorInvalidData;
 
+        // The window size (base-2 logarithm minus 8) cannot exceed 32kB.
+        if (BL_UNLIKELY((cmf >> 4) > 7u))
+          goto ErrorInvalidData;
+
         // Preset dictionary is not supported.
         if (BL_UNLIKELY(fdict))
           goto ErrorInvalidData;
-- 
2.43.0


From b83d4fa65a0eee3b9f21520ea24cd63e888614d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 066/216] fix: Deflate encoder truncates the output array when
 the output is appended to it

[P13]
---
 blend2d/compression/deflateencoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/compression/deflateencoder.cpp b/blend2d/compression/deflateencoder.cpp
index 8ff5d32..dbee3af 100644
--- a/blend2d/compression/deflateencoder.cpp
+++ b/blend2d/compression/deflateencoder.cpp
@@ -2182,8 +2182,9 @@ BLResult Encoder::compress(BLArray<uint8_t>& dst, BLModifyOp modify_op, BLDataVi
 
   BL_PROPAGATE(dst.modify_op(modify_op, min_output_size, &output_buffer));
 
+  size_t output_offset = dst.size() - min_output_size;
   size_t output_size = compress_to(output_buffer, min_output_size, input.data, input.size);
-  return dst.truncate(output_size);
+  return dst.truncate(output_offset + output_size);
 }
 
 } // {bl::Compression::Deflate}
-- 
2.43.0


From 8b84742c8c0744ede9f75e129f511596ce778303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 067/216] fix: Deflate decoder keeps bits of already consumed
 bytes in its bit-buffer

[P12]
---
 blend2d/compression/deflatedecoderutils_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/compression/deflatedecoderutils_p.h b/blend2d/compression/deflatedecoderutils_p.h
index 1d8197f..6b79d47 100644
--- a/blend2d/compression/deflatedecoderutils_p.h
+++ b/blend2d/compression/deflatedecoderutils_p.h
@@ -183,6 +183,9 @@ struct DecoderBits {
   BL_INLINE_NODEBUG void fix_length_after_fast_loop() noexcept {
     if constexpr (sizeof(BLBitWord) >= 8) {
       bit_length &= (IntOps::bit_size_of<BLBitWord>() - 1u);
+      // Fast loops refill more bits than they account for - these must be cleared as the bytes they come from could be
+      // consumed without using the bit-buffer (uncompressed blocks).
+      bit_word &= (BLBitWord(1) << bit_length) - 1u;
     }
   }
 };
-- 
2.43.0


From 5703766a7006dd02fe9212ceb64213a407f191f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 068/216] fix: Deflate decoder runs out of bits after a literal
 followed by a match with the longest codes

[P12]
---
 blend2d/compression/deflatedecoderfastimpl_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 66c1145..f0be234 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -99,6 +99,9 @@ DecoderFastResult decode_impl(
           MemOps::storeu_le(dst_ptr, uint16_t(payload));
           dst_ptr += lit_count;
           payload = DecoderUtils::raw_payload(entry);
+
+          // A literal followed by the longest match would not leave enough bits to look up the next entry.
+          src_ptr += bits.refill_bit_word(MemOps::loadu_le<BLBitWord>(src_ptr));
         }
       }
 
-- 
2.43.0


From db8378e485e83022a492148f59d57660716ff10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 069/216] fix: PNG decoder neither constructs nor destroys its
 previous frame buffer

[P18]
---
 blend2d/codec/pngcodec_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/codec/pngcodec_p.h b/blend2d/codec/pngcodec_p.h
index b702121..6af7fe2 100644
--- a/blend2d/codec/pngcodec_p.h
+++ b/blend2d/codec/pngcodec_p.h
@@ -139,10 +139,12 @@ struct BLPngDecoderImpl : public BLImageDecoderImpl {
     BLImageDecoderImpl::ctor(virt_, codec_);
     bl_call_ctor(png_pixel_data);
     bl_call_ctor(pixel_converter);
+    bl_call_ctor(previous_pixel_buffer);
   }
 
   //! Explicit destructor that destructs this Impl.
   BL_INLINE void dtor() noexcept {
+    bl_call_dtor(previous_pixel_buffer);
     bl_call_dtor(pixel_converter);
     bl_call_dtor(png_pixel_data);
     BLImageDecoderImpl::dtor();
-- 
2.43.0


From 10c70a8930bf3a6d8d15bbc300ac18607642a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 070/216] fix: PNG decoder reads the header past the end it has
 set to itself

[P18]
---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..5dc335b 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -929,7 +929,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From ae90a1d084da633912ce815e1425c0a95a158b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 071/216] fix: PNG decoder overflows when it calculates the
 size of pixel data of a large image

[P18]
---
 blend2d/codec/pngcodec.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5dc335b..2203a85 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -155,23 +155,24 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
-    uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
-    uint32_t size = used ? bpl * sh : uint32_t(0);
+    // NOTE: Width and height are only limited to 31 bits here, so neither of these can overflow 64 bits.
+    uint64_t bpl = ((uint64_t(sw) * sample_depth + 7u) / 8u) * sample_count + 1u;
+    uint64_t size = used ? bpl * sh : uint64_t(0);
+
+    if (BL_UNLIKELY(bpl > 0x7FFFFFFFu || size > 0x7FFFFFFFu)) {
+      return 0;
+    }
 
     dst->used = used;
     dst->width = sw;
     dst->height = sh;
-    dst->bpl = bpl;
+    dst->bpl = uint32_t(bpl);
 
     dst->offset = offset;
-    dst->size = size;
+    dst->size = uint32_t(size);
 
-    // Here we should be safe...
     bl::OverflowFlag of{};
-    offset = IntOps::add_overflow(offset, size, &of);
+    offset = IntOps::add_overflow(offset, uint32_t(size), &of);
 
     if (BL_UNLIKELY(of)) {
       return 0;
-- 
2.43.0


From 2f11a6816a28eee9a96e88d21a2c4a381ea3200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 072/216] fix: PNG decoder uses an uninitialized palette when
 an indexed image has no PLTE chunk

[P15]
---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 2203a85..f32986e 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1214,6 +1214,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     }
   }
 
+  // The palette is required by indexed images.
+  if (BL_UNLIKELY(decoder_impl->color_type == kColorType3_PAL && !decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE))) {
+    return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+  }
+
   // Create a pixel converter capable of converting PNG pixel data to BLImage pixel data.
   BLFormatInfo png_fmt {};
   png_fmt.depth = decoder_impl->sample_depth;
-- 
2.43.0


From 5b42c0833ee2050dfbfeca2834525155f1a42fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 073/216] fix: PNG decoder deinterlaces the last pixels of
 2-bit and 4-bit rows incorrectly

[P15]
---
 blend2d/codec/pngcodec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index f32986e..a0e54c2 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -461,7 +461,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -507,10 +507,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
@@ -617,7 +617,7 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          if (x >= 6) b = uint32_t(*d5++);
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From adccf1ff2a400613780a38b59e8220e6ec6f119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 074/216] fix: APNG decoder restores a previous frame that
 doesn't exist when the first frame asks for it

[P18]
---
 blend2d/codec/pngcodec.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index a0e54c2..5e6b611 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -911,6 +911,12 @@ static BLResult decoderReadFCTL(BLPngDecoderImpl* decoder_impl, size_t chunk_off
   decoder_impl->frame_ctrl.delay_num = uint16_t(delay_num);
   decoder_impl->frame_ctrl.delay_den = uint16_t(delay_den);
   decoder_impl->frame_ctrl.dispose_op = uint8_t(dispose_op);
+
+  // There is nothing the first frame could be restored to - it's specified to be treated as background in such case.
+  if (decoder_impl->frame_index == 0u && dispose_op == kAPNGDisposeOpPrevious) {
+    decoder_impl->frame_ctrl.dispose_op = uint8_t(kAPNGDisposeOpBackground);
+  }
+
   decoder_impl->frame_ctrl.blend_op = uint8_t(blend_op);
   decoder_impl->add_flag(DecoderStatusFlags::kRead_fcTL);
 
-- 
2.43.0


From ebdf94efaab78cca92a38018c2fe08bd1d8eba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 075/216] fix: PNG decoder ignores the color key of RGB images

[P15]
---
 blend2d/codec/pngcodec.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5e6b611..393d63d 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1170,6 +1170,9 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
         decoder_impl->color_key.reset(r, g, b, 0u);
         decoder_impl->add_flag(DecoderStatusFlags::kHasColorKey);
 
+        // Pixels that match the color key are transparent so the output needs an alpha channel.
+        decoder_impl->output_format = uint8_t(BL_FORMAT_PRGB32);
+
         chunk_reader.advance(kPngChunkBaseSize + 6u);
       }
       else {
@@ -1308,6 +1311,21 @@ static void zero_pixels(uint8_t* dst_data, intptr_t dst_stride, size_t w, uint32
   }
 }
 
+// Makes all pixels that match the given opaque color transparent.
+static void apply_color_key(uint8_t* dst_data, intptr_t dst_stride, uint32_t w, uint32_t h, uint32_t key) noexcept {
+  for (uint32_t y = 0; y < h; y++) {
+    uint32_t* dst_line = reinterpret_cast<uint32_t*>(dst_data);
+
+    for (uint32_t x = 0; x < w; x++) {
+      if (dst_line[x] == key) {
+        dst_line[x] = 0u;
+      }
+    }
+
+    dst_data += dst_stride;
+  }
+}
+
 static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage* image_out, const uint8_t* input, size_t size) noexcept {
   // Number of bytes to overallocate so the DEFLATE decoder doesn't have to run the slow loop at the end.
   constexpr uint32_t kOutputSizeScratch = 1024u;
@@ -1613,6 +1631,14 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     decoder_impl->pixel_converter.convert_rect(dst_pixels, dst_stride, png_pixel_ptr + 1, intptr_t(steps[0].bpl), w, h);
   }
 
+  // Handle the color key of RGB images (it's part of the palette if the image is grayscale).
+  if (decoder_impl->color_type == kColorType2_RGB && decoder_impl->has_color_key()) {
+    BLRgba64 key = decoder_impl->color_key;
+    if (key.r() <= 0xFFu && key.g() <= 0xFFu && key.b() <= 0xFFu) {
+      apply_color_key(dst_pixels, dst_stride, w, h, BLRgba32(key.r(), key.g(), key.b(), 0xFFu).value);
+    }
+  }
+
   decoder_impl->frame_index++;
   if (decoder_impl->isAPNG() && decoder_impl->frame_index >= decoder_impl->image_info.frame_count) {
     // Restart the animation to create a loop.
-- 
2.43.0


From 11337ebd8fbacf6a6cfa9bc6ae46008c6e20cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 076/216] fix: APNG decoder takes the rest of a frame for the
 next one when its data end in front of its last chunk

[P15]
---
 blend2d/codec/pngcodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 393d63d..c2bd852 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1480,6 +1480,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     }
   }
 
+  // Skip remaining chunks of the frame - the end of the stream (checksum) may have been split between multiple chunks.
+  while (chunk_reader.has_chunk() && chunk_reader.read_chunk_tag() == frame_tag) {
+    uint32_t chunk_size = chunk_reader.read_chunk_size();
+    if (!chunk_reader.has_chunk_with_size(chunk_size)) {
+      break;
+    }
+    chunk_reader.advance(size_t(kPngChunkBaseSize) + chunk_size);
+  }
+
   decoder_impl->clear_flag(DecoderStatusFlags::kRead_fcTL);
   decoder_impl->buffer_index = PtrOps::byte_offset(input, chunk_reader.ptr);
 
-- 
2.43.0


From 20913f44f4470126f0ed6ecdf85121a1b407b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 077/216] fix: BMP decoder rejects images that have a V5 header

[P16]
---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..4b37ae2 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From 6d90f417c8bf9b9ed00a1f4c0a42b481400cb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 078/216] fix: BMP decoder applies masks that are not used by
 the compression and accepts compressions it cannot decode

[P16]
---
 blend2d/codec/bmpcodec.cpp | 25 ++++++++++++++++++-------
 blend2d/codec/bmpcodec_p.h |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..acd5ddf 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -494,14 +494,18 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
     }
   }
 
-  bool has_bit_fields = depth > 8 && header_size >= kHeaderSizeWIN_V2;
-  if (header_size == kHeaderSizeWIN_V1) {
+  bool has_bit_fields = false;
+  if (compression == kCompressionBitFields || compression == kCompressionAlphaBitFields) {
     // Use BITFIELDS if specified.
-    if (compression == kCompressionBitFields || compression == kCompressionAlphaBitFields) {
+    if (depth != 16 && depth != 32) {
+      return bl_make_error(BL_ERROR_IMAGE_UNKNOWN_FILE_FORMAT);
+    }
+
+    has_bit_fields = true;
+
+    // Masks are stored after the header if the header doesn't contain them.
+    if (header_size == kHeaderSizeWIN_V1) {
       uint32_t channels = 3 + (compression == kCompressionAlphaBitFields);
-      if (depth != 16 && depth != 32) {
-        return bl_make_error(BL_ERROR_IMAGE_UNKNOWN_FILE_FORMAT);
-      }
 
       if (PtrOps::bytes_until(data, end) < channels * 4) {
         return bl_make_error(BL_ERROR_DATA_TRUNCATED);
@@ -511,10 +515,17 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
         decoder_impl->info.win.masks[i] = MemOps::readU32uLE(data + i * 4);
       }
 
-      has_bit_fields = true;
       data += channels * 4;
     }
   }
+  else if (compression != kCompressionRGB && !rle_used) {
+    return bl_make_error(BL_ERROR_IMAGE_UNKNOWN_FILE_FORMAT);
+  }
+  else if (depth == 32 && header_size >= kHeaderSizeWIN_V3) {
+    // Masks are not used when the compression is RGB, however, this is how BMP files with alpha were written in the past.
+    const uint32_t* masks = decoder_impl->info.win.masks;
+    has_bit_fields = masks[0] == 0x00FF0000u && masks[1] == 0x0000FF00u && masks[2] == 0x000000FFu && masks[3] == 0xFF000000u;
+  }
 
   if (has_bit_fields) {
     // BitFields provided by info header must be continuous and non-overlapping.
diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 4b37ae2..71e63ba 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -37,7 +37,7 @@ static constexpr uint32_t kCompressionPNG = 5;
 static constexpr uint32_t kCompressionAlphaBitFields = 6;
 static constexpr uint32_t kCompressionCMYK = 11;
 static constexpr uint32_t kCompressionCMYK_RLE8 = 12;
-static constexpr uint32_t kCompressionCMYK_RLE4 = 1;
+static constexpr uint32_t kCompressionCMYK_RLE4 = 13;
 static constexpr uint32_t kCompressionValueCount = 13;
 
 static constexpr uint32_t kColorSpaceCalibratedRGB = 0;
-- 
2.43.0


From a45a922cb21157b650d7e2f44dbac3a783deb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 079/216] fix: BMP encoder writes an alpha mask, but a
 compression that ignores it

[P14]
---
 blend2d/codec/bmpcodec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index acd5ddf..d8e6b97 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -755,6 +755,7 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
     case BL_FORMAT_PRGB32: {
       // NOTE: Version 3 would be okay, but not all tools can read BMPv3.
       header_size = kHeaderSizeWIN_V4;
+      info.win.compression = kCompressionBitFields;
       bpl = w * 4;
       bmp_fmt.depth = 32;
       bmp_fmt.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_PREMULTIPLIED);
-- 
2.43.0


From 942290871ecd81e3a519251aed6c45972c73f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 080/216] fix: BMP encoder writes out of its output buffer if
 the size of the file exceeds 32 bits

[P14]
---
 blend2d/codec/bmpcodec.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index d8e6b97..b3b3373 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -787,9 +787,15 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
     }
   }
 
+  OverflowFlag of{};
   uint32_t image_offset = 2 + 12 + header_size + palette_size;
-  uint32_t image_size = (bpl + gap) * h;
-  uint32_t file_size = image_offset + image_size;
+  uint32_t image_size = IntOps::mul_overflow<uint32_t>(bpl + gap, h, &of);
+  uint32_t file_size = IntOps::add_overflow<uint32_t>(image_offset, image_size, &of);
+
+  // The size is stored as a 32-bit integer.
+  if (BL_UNLIKELY(of)) {
+    return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
+  }
 
   file.file_size = file_size;
   file.image_offset = image_offset;
-- 
2.43.0


From 56804968bd1fb862e3c83fcedaf90311275fc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 081/216] fix: JPEG decoder must continue reading entropy data
 after a restart marker

[P17]
---
 blend2d/codec/jpegcodec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9ae5c20..d2bf0ee 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -709,8 +709,9 @@ static BLResult decoder_handle_restart(BLJpegDecoderImpl* decoder_impl, DecoderB
   if (!reader.at_end() || (size_t)(pEnd - reader.ptr) < 2 || !is_marker_rst(reader.ptr[1]))
     return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
 
-  // Skip the marker and flush entropy bits.
+  // Skip the marker and flush entropy bits. The reader was stopped by the marker, so the end must be restored as well.
   reader.flush();
+  reader.end = pEnd;
   reader.advance(2);
   reader.done(stream);
 
-- 
2.43.0


From 353612a3f55d0c8247670e107f08c4d35a5a772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 082/216] fix: JPEG decoder must advance to the next row of
 blocks in a non-interleaved baseline scan

[P17]
---
 blend2d/codec/jpegcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index d2bf0ee..471d62c 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1053,7 +1053,7 @@ static BLResult decoder_process_stream(BLJpegDecoderImpl* decoder_impl, const ui
       run->count = count;
       run->stride = stride;
       run->advance[0] = sf_w * unit_size * kDctSize;
-      run->advance[1] = run->advance[0] + (sf_h * kDctSize - 1) * stride;
+      run->advance[1] = sf_h * kDctSize * stride - (mcu_w - 1) * run->advance[0];
     }
     else {
       uint32_t block_size = unit_size * kDctSize2;
-- 
2.43.0


From 818845ab61e3aad34969ae61860c7fb14362e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 083/216] fix: JPEG 2x1 upsampling used swapped weights for the
 last sample

[P17]
---
 blend2d/codec/jpegops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegops.cpp b/blend2d/codec/jpegops.cpp
index 02b907d..31deb51 100644
--- a/blend2d/codec/jpegops.cpp
+++ b/blend2d/codec/jpegops.cpp
@@ -188,7 +188,7 @@ uint8_t* BL_CDECL upsample_2x1(uint8_t* dst, uint8_t* src0, uint8_t* src1, uint3
     dst[i * 2 + 1] = uint8_t((n + src0[i + 1]) >> 2);
   }
 
-  dst[i * 2 + 0] = uint8_t((src0[w - 2] * 3 + src0[w-1] + 2) >> 2);
+  dst[i * 2 + 0] = uint8_t((src0[w - 1] * 3 + src0[w - 2] + 2) >> 2);
   dst[i * 2 + 1] = src0[w - 1];
 
   return dst;
-- 
2.43.0


From b55e113e8e453d66f61dd7f722cb2b71cfaefa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 084/216] fix: JPEG decoder must not consume more bits than
 available when decoding AC coefficients

[P18]
---
 blend2d/codec/jpegcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 471d62c..c1aa3fa 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -767,6 +767,8 @@ static BLResult decoder_read_baseline_block(BLJpegDecoderImpl* decoder_impl, Dec
     // Fast AC.
     if (ac) {
       s = (ac & 15);       // Size.
+      BL_PROPAGATE(reader.require_bits(s));
+
       k += (ac >> 4) & 15; // Skip.
       ac >>= 8;
       reader.drop(s);
@@ -863,6 +865,8 @@ static BLResult decoder_read_progressive_block(BLJpegDecoderImpl* decoder_impl,
 
         if (r) {
           int32_t s = r & 15;
+          BL_PROPAGATE(reader.require_bits(uint32_t(s)));
+
           k += (r >> 4) & 15;
           reader.drop(uint32_t(s));
 
@@ -890,6 +894,7 @@ static BLResult decoder_read_progressive_block(BLJpegDecoderImpl* decoder_impl,
           }
           else {
             k += uint32_t(r);
+            BL_PROPAGATE(reader.require_bits(uint32_t(s)));
             r = reader.read_signed(uint32_t(s));
 
             uint32_t zig = decoder_de_zig_zag_table[k++];
-- 
2.43.0


From a820dffdff0074ed0d598d2d9170c77b95548af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 085/216] fix: JPEG decoder must reject invalid sizes of DC
 differences

[P18]
---
 blend2d/codec/jpegcodec.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index c1aa3fa..4273438 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -743,11 +743,16 @@ static BLResult decoder_read_baseline_block(BLJpegDecoderImpl* decoder_impl, Dec
   BL_PROPAGATE(reader.read_code(s, dc_table));
 
   if (s) {
+    // DC difference cannot be longer than 15 bits.
+    if (BL_UNLIKELY(s > 15)) {
+      return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
+    }
+
     reader.refill_if_32bit();
     BL_PROPAGATE(reader.require_bits(s));
 
     int32_t dc_val = reader.read_signed(s);
-    dc_pred += dc_val;
+    dc_pred = int32_t(uint32_t(dc_pred) + uint32_t(dc_val));
     comp->dc_pred = dc_pred;
   }
   dst[0] = int16_t(dc_pred);
@@ -823,11 +828,16 @@ static BLResult decoder_read_progressive_block(BLJpegDecoderImpl* decoder_impl,
       BL_PROPAGATE(reader.read_code(s, dc_table));
 
       if (s) {
+        // DC difference cannot be longer than 15 bits.
+        if (BL_UNLIKELY(s > 15)) {
+          return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
+        }
+
         reader.refill_if_32bit();
         BL_PROPAGATE(reader.require_bits(s));
 
         int32_t dc_val = reader.read_signed(s);
-        dc_pred += dc_val;
+        dc_pred = int32_t(uint32_t(dc_pred) + uint32_t(dc_val));
         comp->dc_pred = dc_pred;
       }
 
-- 
2.43.0


From 016f1ae04c62f0ce12fb43779fcdc62c06251e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 086/216] fix: JPEG decoder must reset DC predictions at the
 beginning of each scan

[P17]
---
 blend2d/codec/jpegcodec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 4273438..b9fdbf7 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1045,6 +1045,9 @@ static BLResult decoder_process_stream(BLJpegDecoderImpl* decoder_impl, const ui
     DecoderRun* run = &runs[i];
     DecoderComponent* comp = sos.sc_comp[i];
 
+    // DC prediction starts from zero in each scan.
+    comp->dc_pred = 0;
+
     uint32_t sf_w = sc_count > 1 ? uint32_t(comp->sf_w) : uint32_t(1);
     uint32_t sf_h = sc_count > 1 ? uint32_t(comp->sf_h) : uint32_t(1);
 
-- 
2.43.0


From 70a1290e4265ee0d63ee183493cd84a12b38c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 087/216] fix: JPEG decoder must verify that all tables
 required by a scan have been defined

[P18]
---
 blend2d/codec/jpegcodec.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index b9fdbf7..8ba59da 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -473,11 +473,17 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       uint32_t dc_id = selector >> 4;
 
       // Validate AC & DC selectors.
-      if (ac_id > 3 || (!IntOps::bit_test(decoder_impl->ac_table_mask, ac_id) && ss_end  > 0)) {
+      if (ac_id > 3 || (!IntOps::bit_test(decoder_impl->ac_table_mask, ac_id) && ss_end > 0)) {
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_end == 0)) {
+      // DC table is needed by baseline scans and by an initial DC scan of a progressive image.
+      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_start == 0 && sa_high_bit == 0)) {
+        return bl_make_error(BL_ERROR_INVALID_DATA);
+      }
+
+      // Quantization table must be defined before the first scan that uses the component.
+      if (!IntOps::bit_test(decoder_impl->q_table_mask, uint32_t(decoder_impl->comp[index].quant_id))) {
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-- 
2.43.0


From fc96973df7878a093ff42e830c94acd5df5a1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 088/216] fix: JPEG decoder must refuse fractional sampling
 ratios, which were decoded past the component data

[P18]
---
 blend2d/codec/jpegcodec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 8ba59da..34f2edc 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -201,6 +201,13 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       mcu_sf_h = bl_max(mcu_sf_h, sf_h);
     }
 
+    // TODO: [JPEG] Only integral upsampling factors are supported.
+    for (i = 0; i < component_count; i++) {
+      if (mcu_sf_w % decoder_impl->comp[i].sf_w != 0u || mcu_sf_h % decoder_impl->comp[i].sf_h != 0u) {
+        return bl_make_error(BL_ERROR_JPEG_UNSUPPORTED_FEATURE);
+      }
+    }
+
     // Compute interleaved MCU info.
     uint32_t mcu_px_w = mcu_sf_w * kDctSize;
     uint32_t mcu_px_h = mcu_sf_h * kDctSize;
-- 
2.43.0


From 362559933a0ab36a810d06347696c8dae7273dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 089/216] fix: JPEG decoder must treat padding that ends the
 input as truncated data

[P18]
---
 blend2d/codec/jpegcodec.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 34f2edc..bec929f 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1369,7 +1369,7 @@ static BLResult decoder_read_info_impl_internal(BLJpegDecoderImpl* decoder_impl,
       }
 
       if (p == end) {
-        break;
+        return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
 
       p++;
@@ -1378,7 +1378,7 @@ static BLResult decoder_read_info_impl_internal(BLJpegDecoderImpl* decoder_impl,
     size_t consumed_bytes = 0;
     BL_PROPAGATE(decoder_process_marker(decoder_impl, m, p, (size_t)(end - p), consumed_bytes));
 
-    BL_ASSERT(consumed_bytes < (size_t)(end - p));
+    BL_ASSERT(consumed_bytes <= (size_t)(end - p));
     p += consumed_bytes;
 
     // Terminate after SOF has been processed, the rest is handled by `decode()`.
@@ -1423,8 +1423,9 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
       }
 
       if (p == end) {
-        break;
+        return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
+
       p++;
     }
 
-- 
2.43.0


From 81d739cfe2bb524a982dec38802c2b479eee9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 090/216] fix: JPEG decoder must not produce an image from
 components that had no scan

[P18]
---
 blend2d/codec/jpegcodec.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index bec929f..f4fa128 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1400,6 +1400,9 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
 
   p += decoder_impl->buffer_index;
 
+  // Components that have been referenced by at least one scan.
+  uint32_t component_mask = 0;
+
   // Process markers.
   //
   // We are already after SOF, which was processed by `decoder_read_info_impl_internal`.
@@ -1451,9 +1454,18 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
       BL_ASSERT((size_t)(end - p) >= consumed_bytes);
       p += consumed_bytes;
       decoder_impl->status_flags |= DecoderStatusFlags::kDoneSOS;
+
+      for (uint32_t i = 0; i < decoder_impl->sos.sc_count; i++) {
+        component_mask |= IntOps::lsb_bit_at<uint32_t>(uint32_t(decoder_impl->sos.sc_comp[i] - decoder_impl->comp));
+      }
     }
   }
 
+  // Refuse an image that ended without providing data of all components, which would be left uninitialized.
+  if (component_mask != (1u << decoder_impl->image_info.plane_count) - 1u) {
+    return bl_make_error(BL_ERROR_DATA_TRUNCATED);
+  }
+
   // Process MCUs.
   BL_PROPAGATE(decoder_process_mcus(decoder_impl));
 
-- 
2.43.0


From 199364621ed19734877593bf7d0918d7ae701c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 091/216] fix: JPEG decoder must use size_t to calculate sizes
 of component buffers

[P18]
---
 blend2d/codec/jpegcodec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index f4fa128..4360160 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -230,14 +230,14 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       comp->os_w = comp->bl_w * kDctSize;
       comp->os_h = comp->bl_h * kDctSize;
 
-      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(comp->os_w * comp->os_h));
+      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(size_t(comp->os_w) * comp->os_h));
       if (comp->data == nullptr) {
         return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
       }
 
       if (!is_baseline) {
         uint32_t kBlock8x8UInt16 = kDctSize2 * uint32_t(sizeof(int16_t));
-        size_t coeff_size = comp->bl_w * comp->bl_h * kBlock8x8UInt16;
+        size_t coeff_size = size_t(comp->bl_w) * comp->bl_h * kBlock8x8UInt16;
         int16_t* coeff_data = static_cast<int16_t*>(decoder_impl->allocator.alloc(coeff_size, 16));
 
         if (coeff_data == nullptr) {
@@ -1218,8 +1218,8 @@ static BLResult decoder_process_mcus(BLJpegDecoderImpl* decoder_impl) noexcept {
 
       for (uint32_t j = 0; j < h; j++) {
         for (uint32_t i = 0; i < w; i++) {
-          int16_t *data = comp.coeff + 64 * (i + j * comp.bl_w);
-          opts.idct8(comp.data + comp.os_w * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
+          int16_t *data = comp.coeff + size_t(64) * (i + size_t(j) * comp.bl_w);
+          opts.idct8(comp.data + size_t(comp.os_w) * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
         }
       }
     }
-- 
2.43.0


From dbe3c14576fd29dbe17b50aea56a6a7d8c706ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 092/216] fix: JPEG decoder must validate the size of JFIF/JFXX
 thumbnails

[P18]
---
 blend2d/codec/jpegcodec.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 4360160..5c3403c 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -559,7 +559,7 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       if (thumb_w && thumb_h) {
         uint32_t thumb_size = thumb_w * thumb_h * 3;
 
-        if (thumb_size + 14 < remain) {
+        if (thumb_size + 14 > remain) {
           return bl_make_error(BL_ERROR_INVALID_DATA);
         }
 
@@ -597,12 +597,20 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
           break;
 
         case kThumbnailPAL8:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
+
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = 768 + thumb_w * thumb_h;
           break;
 
         case kThumbnailRGB24:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
+
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = thumb_w * thumb_h * 3;
-- 
2.43.0


From 06e5556851cb2bfb9350cb566cb5303484b58422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 093/216] fix: JPEG IDCT must not overflow signed integers when
 given out-of-range coefficients

[P18]
---
 blend2d/codec/jpegops.cpp | 59 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/blend2d/codec/jpegops.cpp b/blend2d/codec/jpegops.cpp
index 31deb51..25a5674 100644
--- a/blend2d/codec/jpegops.cpp
+++ b/blend2d/codec/jpegops.cpp
@@ -25,9 +25,9 @@ FuncOpts opts;
 // =====================
 
 #define BL_JPEG_IDCT_IDCT(s0, s1, s2, s3, s4, s5, s6, s7) \
-  int x0, x1, x2, x3;                             \
-  int t0, t1, t2, t3;                             \
-  int p1, p2, p3, p4, p5;                         \
+  uint32_t x0, x1, x2, x3;                        \
+  uint32_t t0, t1, t2, t3;                        \
+  uint32_t p1, p2, p3, p4, p5;                    \
                                                   \
   p2 = s2;                                        \
   p3 = s6;                                        \
@@ -80,52 +80,53 @@ void BL_CDECL idct8(uint8_t* dst, intptr_t dst_stride, const int16_t* src, const
   for (i = 0, tmp = tmp_data; i < 8; i++, src++, tmp++, q_table++) {
     // Avoid dequantizing and IDCTing zeros.
     if (src[8] == 0 && src[16] == 0 && src[24] == 0 && src[32] == 0 && src[40] == 0 && src[48] == 0 && src[56] == 0) {
-      int32_t dc_term = (int32_t(src[0]) * int32_t(q_table[0])) << (BL_JPEG_IDCT_PREC - BL_JPEG_IDCT_COL_NORM);
+      int32_t dc_term = int32_t(uint32_t(int32_t(src[0]) * int32_t(q_table[0])) << (BL_JPEG_IDCT_PREC - BL_JPEG_IDCT_COL_NORM));
       tmp[0] = tmp[8] = tmp[16] = tmp[24] = tmp[32] = tmp[40] = tmp[48] = tmp[56] = dc_term;
     }
     else {
       BL_JPEG_IDCT_IDCT(
-        int32_t(src[ 0]) * int32_t(q_table[ 0]),
-        int32_t(src[ 8]) * int32_t(q_table[ 8]),
-        int32_t(src[16]) * int32_t(q_table[16]),
-        int32_t(src[24]) * int32_t(q_table[24]),
-        int32_t(src[32]) * int32_t(q_table[32]),
-        int32_t(src[40]) * int32_t(q_table[40]),
-        int32_t(src[48]) * int32_t(q_table[48]),
-        int32_t(src[56]) * int32_t(q_table[56]));
+        uint32_t(int32_t(src[ 0]) * int32_t(q_table[ 0])),
+        uint32_t(int32_t(src[ 8]) * int32_t(q_table[ 8])),
+        uint32_t(int32_t(src[16]) * int32_t(q_table[16])),
+        uint32_t(int32_t(src[24]) * int32_t(q_table[24])),
+        uint32_t(int32_t(src[32]) * int32_t(q_table[32])),
+        uint32_t(int32_t(src[40]) * int32_t(q_table[40])),
+        uint32_t(int32_t(src[48]) * int32_t(q_table[48])),
+        uint32_t(int32_t(src[56]) * int32_t(q_table[56])));
 
       x0 += BL_JPEG_IDCT_COL_BIAS;
       x1 += BL_JPEG_IDCT_COL_BIAS;
       x2 += BL_JPEG_IDCT_COL_BIAS;
       x3 += BL_JPEG_IDCT_COL_BIAS;
 
-      tmp[ 0] = (x0 + t3) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[56] = (x0 - t3) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[ 8] = (x1 + t2) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[48] = (x1 - t2) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[16] = (x2 + t1) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[40] = (x2 - t1) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[24] = (x3 + t0) >> BL_JPEG_IDCT_COL_NORM;
-      tmp[32] = (x3 - t0) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[ 0] = int32_t(x0 + t3) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[56] = int32_t(x0 - t3) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[ 8] = int32_t(x1 + t2) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[48] = int32_t(x1 - t2) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[16] = int32_t(x2 + t1) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[40] = int32_t(x2 - t1) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[24] = int32_t(x3 + t0) >> BL_JPEG_IDCT_COL_NORM;
+      tmp[32] = int32_t(x3 - t0) >> BL_JPEG_IDCT_COL_NORM;
     }
   }
 
   for (i = 0, tmp = tmp_data; i < 8; i++, dst += dst_stride, tmp += 8) {
-    BL_JPEG_IDCT_IDCT(tmp[0], tmp[1], tmp[2], tmp[3], tmp[4], tmp[5], tmp[6], tmp[7])
+    BL_JPEG_IDCT_IDCT(uint32_t(tmp[0]), uint32_t(tmp[1]), uint32_t(tmp[2]), uint32_t(tmp[3]),
+                      uint32_t(tmp[4]), uint32_t(tmp[5]), uint32_t(tmp[6]), uint32_t(tmp[7]))
 
     x0 += BL_JPEG_IDCT_ROW_BIAS;
     x1 += BL_JPEG_IDCT_ROW_BIAS;
     x2 += BL_JPEG_IDCT_ROW_BIAS;
     x3 += BL_JPEG_IDCT_ROW_BIAS;
 
-    dst[0] = IntOps::clamp_to_byte((x0 + t3) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[7] = IntOps::clamp_to_byte((x0 - t3) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[1] = IntOps::clamp_to_byte((x1 + t2) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[6] = IntOps::clamp_to_byte((x1 - t2) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[2] = IntOps::clamp_to_byte((x2 + t1) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[5] = IntOps::clamp_to_byte((x2 - t1) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[3] = IntOps::clamp_to_byte((x3 + t0) >> BL_JPEG_IDCT_ROW_NORM);
-    dst[4] = IntOps::clamp_to_byte((x3 - t0) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[0] = IntOps::clamp_to_byte(int32_t(x0 + t3) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[7] = IntOps::clamp_to_byte(int32_t(x0 - t3) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[1] = IntOps::clamp_to_byte(int32_t(x1 + t2) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[6] = IntOps::clamp_to_byte(int32_t(x1 - t2) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[2] = IntOps::clamp_to_byte(int32_t(x2 + t1) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[5] = IntOps::clamp_to_byte(int32_t(x2 - t1) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[3] = IntOps::clamp_to_byte(int32_t(x3 + t0) >> BL_JPEG_IDCT_ROW_NORM);
+    dst[4] = IntOps::clamp_to_byte(int32_t(x3 - t0) >> BL_JPEG_IDCT_ROW_NORM);
   }
 }
 
-- 
2.43.0


From 7fead6962d83e68b4e2082906d1cf8fbcd760b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 094/216] fix: BMP decoder must reject an image that has no
 rows

[P18]
---
 blend2d/codec/bmpcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index b3b3373..76d07c2 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -403,7 +403,7 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
   }
 
   // Verify whether input data is ok.
-  if (h == Traits::min_value<int32_t>() || w <= 0) {
+  if (h == Traits::min_value<int32_t>() || h == 0 || w <= 0) {
     return bl_make_error(BL_ERROR_INVALID_DATA);
   }
 
-- 
2.43.0


From d575edda14f3d8fd848c63deb9b50c75342eaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 095/216] fix: BMP decoder must not write past the last row
 when processing an RLE move command

[P18]
---
 blend2d/codec/bmpcodec.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 76d07c2..2eeab4b 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,14 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
+      // Don't move past the last row.
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +315,14 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
+      // Don't move past the last row.
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From f7c5ed90355c199943bd6d51a17838da796a98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 096/216] fix: context: swap_styles() after save() referenced
 the stroke style according to the fill style's kind

[P29]
---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..432a54d 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1965,7 +1965,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From 7e2e488df3b774b66830ed04cef6b308ff94e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 097/216] fix: context: ending a context with saved states
 released styles according to the wrong state's flags (leak or wild release)

[P29]
---
 blend2d/raster/rastercontext.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 432a54d..a7b9016 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1588,20 +1588,16 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
-      }
+    // The saved style is only populated if the state above it has changed the style, and it's the kind of the saved
+    // style that decides whether there is something to release.
+    ContextFlags prev_context_flags = saved_state->prev_context_flags;
+
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle) && bl_test_flag(prev_context_flags, ContextFlags::kFetchDataFill)) {
+      destroy_valid_style(ctx_impl, &saved_state->style[BL_CONTEXT_STYLE_SLOT_FILL]);
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
-      }
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle) && bl_test_flag(prev_context_flags, ContextFlags::kFetchDataStroke)) {
+      destroy_valid_style(ctx_impl, &saved_state->style[BL_CONTEXT_STYLE_SLOT_STROKE]);
     }
 
     if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeOptions)) {
@@ -1609,7 +1605,7 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
     }
 
     SavedState* prev_state = saved_state->prev_state;
-    context_flags = saved_state->prev_context_flags;
+    context_flags = prev_context_flags;
 
     ctx_impl->free_saved_state(saved_state);
     saved_state = prev_state;
@@ -4449,6 +4445,9 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
     ctx_impl->pipe_provider.runtime()->destroy();
   ctx_impl->pipe_provider.reset();
 
+  // The kind of the current styles - must be obtained before the saved states are discarded.
+  ContextFlags context_flags = ctx_impl->context_flags;
+
   // Release all states.
   //
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
@@ -4456,7 +4455,6 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   discard_states(ctx_impl, nullptr);
   bl_call_dtor(ctx_impl->internal_state.stroke_options);
 
-  ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
 
-- 
2.43.0


From b90178adb3bc5101cd9f43db58300eec6bf11cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 098/216] fix: raster: fill_mask() ignored alpha in
 asynchronous rendering

[P30]
---
 blend2d/raster/rendercommandprocasync_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index fbf204c..9eba535 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -213,7 +213,7 @@ static CommandStatus fillBoxMaskA(ProcData& proc_data, const RenderCommand& comm
     const uint8_t* mask_data = (static_cast<const uint8_t*>(mask_impl->pixel_data) + intptr_t(maskY) * mask_impl->stride) + maskX * (mask_impl->depth / 8u);
 
     Pipeline::MaskCommand mask_commands[2];
-    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
+    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
 
     mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
     mask_commands[1].init_repeat();
-- 
2.43.0


From b3c09bf70c238404e3942e82f2257e68257240b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 099/216] fix: raster: jobs processed by the user thread during
 a flush must not change its clip box and flatten tolerance

[P30]
---
 blend2d/raster/rastercontext.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index a7b9016..eeb6a2e 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -190,9 +190,18 @@ public:
 class SyncWorkState {
 public:
   BLBox _clip_box_d;
+  double _flatten_tolerance_sq;
 
-  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept { _clip_box_d = work_data.edge_builder._clip_box_d; }
-  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder._clip_box_d = _clip_box_d; }
+  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept {
+    _clip_box_d = work_data.edge_builder._clip_box_d;
+    _flatten_tolerance_sq = work_data.edge_builder._flatten_tolerance_sq;
+  }
+
+  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept {
+    // NOTE: Must go through `set_clip_box()` as the edge builder also caches the clip box in integral coordinates.
+    work_data.edge_builder.set_clip_box(_clip_box_d);
+    work_data.edge_builder.set_flatten_tolerance_sq(_flatten_tolerance_sq);
+  }
 };
 
 // bl::RasterEngine - ContextImpl - Internals - Core State
-- 
2.43.0


From 46726976b2e4f349de2fe131e28b9135525f821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 100/216] fix: raster: discard degenerate edges of a fill that
 renders nothing, so they don't become a part of the next call

[P30]
---
 blend2d/raster/rastercontext.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index eeb6a2e..028d3e9 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2741,8 +2741,11 @@ BL_NOINLINE BLResult fill_clipped_edges<kSync>(BLRasterContextImpl* ctx_impl, Di
   EdgeStorage<int>& edge_storage = work_data.edge_storage;
 
   // NOTE: This doesn't happen often, but it's possible if for example the data in bands is all horizontal lines or no data at all.
-  if (edge_storage.is_empty() || edge_storage.bounding_box().y0 >= edge_storage.bounding_box().y1)
+  if (edge_storage.is_empty() || edge_storage.bounding_box().y0 >= edge_storage.bounding_box().y1) {
+    // Discard everything that was built, otherwise it would become a part of the next render call.
+    work_data.revert_edge_builder();
     return BL_SUCCESS;
+  }
 
   Pipeline::DispatchData dispatch_data;
   di.add_fill_type(Pipeline::FillType::kAnalytic);
@@ -2764,8 +2767,11 @@ BL_NOINLINE BLResult fill_clipped_edges<kAsync>(BLRasterContextImpl* ctx_impl, D
   EdgeStorage<int>& edge_storage = work_data.edge_storage;
 
   // NOTE: This doesn't happen often, but it's possible if for example the data in bands is all horizontal lines or no data at all.
-  if (edge_storage.is_empty() || edge_storage.bounding_box().y0 >= edge_storage.bounding_box().y1)
+  if (edge_storage.is_empty() || edge_storage.bounding_box().y0 >= edge_storage.bounding_box().y1) {
+    // Discard everything that was built, otherwise it would become a part of the next render call.
+    work_data.revert_edge_builder();
     return BL_SUCCESS;
+  }
 
   uint8_t qy0 = uint8_t(edge_storage.bounding_box().y0 >> ctx_impl->command_quantization_shift_fp());
 
-- 
2.43.0


From daf0d97a4b3152748104ef91e1901726c921a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 101/216] fix: raster: setting a pattern having an empty area
 as a style caused an integer division by zero

[P30]
---
 blend2d/raster/rastercontext.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 028d3e9..01e2bb1 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -422,6 +422,11 @@ static BL_INLINE bool init_non_solid_fetch_data(
       BLImageImpl* image_impl = ImageInternal::get_impl(image);
 
       fetch_data->extra.format = uint8_t(image_impl->format);
+
+      // The style is NOP in this case and the fetcher cannot be initialized with an empty area.
+      if (!area.w || !area.h)
+        break;
+
       fetch_data->init_image_source(image_impl, area);
 
       fetch_data->signature = Pipeline::FetchUtils::init_pattern_affine(
-- 
2.43.0


From a12a87086607900ed0b93c898715fb16f935f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 102/216] fix: raster: explicit color render calls ignored the
 color override of the composition operator (e.g. CLEAR drew the color)

[P25]
---
 blend2d/raster/rastercontext.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 01e2bb1..ee8c848 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1431,7 +1431,10 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
                                                                                  \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+  DispatchStyle ds{&solid};                                                      \
+                                                                                 \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)]
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From 70ae8939394b5ec77fb2e7aeaf22142f1d950a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 103/216] fix: raster: a clip box that becomes empty in fixed
 point must clip everything

[P23]
---
 blend2d/raster/rastercontext.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ee8c848..a7d4cb4 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2192,6 +2192,10 @@ static BLResult clip_to_final_box(BLRasterContextImpl* ctx_impl, const BLBox& in
     ctx_impl->set_final_clip_box_fixed_d(b * ctx_impl->fp_scale_d());
     const BLBoxI& clipBoxFixedI = ctx_impl->final_clip_box_fixed_i();
 
+    // The clip box could become empty once it's converted to fixed point.
+    if (clipBoxFixedI.x0 >= clipBoxFixedI.x1 || clipBoxFixedI.y0 >= clipBoxFixedI.y1)
+      goto Empty;
+
     ctx_impl->internal_state.final_clip_box_d = b;
     ctx_impl->internal_state.final_clip_box_i.reset((clipBoxFixedI.x0 >> fpShiftI),
                                             (clipBoxFixedI.y0 >> fpShiftI),
@@ -2206,6 +2210,7 @@ static BLResult clip_to_final_box(BLRasterContextImpl* ctx_impl, const BLBox& in
       ctx_impl->sync_work_data.clip_mode = BL_CLIP_MODE_UNALIGNED_RECT;
   }
   else {
+Empty:
     ctx_impl->internal_state.final_clip_box_d.reset();
     ctx_impl->internal_state.final_clip_box_i.reset();
     ctx_impl->set_final_clip_box_fixed_d(BLBox(0, 0, 0, 0));
-- 
2.43.0


From 98776a010393dd6dd47ad96ef8bce3d87680e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 104/216] fix: raster: fill_mask() with an explicit style must
 not depend on the current fill style

[P29]
---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index a7d4cb4..836999c 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3723,7 +3723,7 @@ static BLResult BL_CDECL fill_mask_d_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 }
 
@@ -3737,7 +3737,7 @@ static BLResult BL_CDECL fill_mask_d_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
@@ -3783,7 +3783,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 }
 
@@ -3805,7 +3805,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
-- 
2.43.0


From f7d4fb1d42ca7a80b3627a3361f41153257dd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 105/216] fix: ArenaAllocator: restoring a saved state gave
 away memory allocated from the end of a block before the state was saved
 (edges of queued render commands were overwritten)

[P30]
---
 blend2d/support/arenaallocator_p.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..14aeea9 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -50,7 +50,11 @@ public:
     }
   };
 
-  typedef uint8_t* StatePtr;
+  //! Saved state of the allocator - both pointers have to be saved as memory can be allocated from both sides of a block.
+  struct StatePtr {
+    uint8_t* ptr;
+    uint8_t* end;
+  };
 
   static inline constexpr size_t kMinBlockSize = 1024; // Safe bet - it must be greater than `kMaxAlignment`.
   static inline constexpr size_t kMaxBlockSize = size_t(1) << (sizeof(size_t) * 8 - 1);
@@ -369,20 +373,23 @@ public:
   //! Stores the current state to `state`.
   [[nodiscard]]
   BL_INLINE StatePtr save_state() noexcept {
-    return _ptr;
+    return StatePtr{_ptr, _end};
   }
 
   //! Restores the state of `ArenaAllocator` from the previously saved `state`.
-  BL_INLINE void restore_state(StatePtr p) noexcept {
+  BL_INLINE void restore_state(StatePtr state) noexcept {
+    uint8_t* p = state.ptr;
+    uint8_t* end = state.end;
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    while (p < block->data() || end > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
         // the allocator has.
         p = IntOps::align_up(block->data(), alignment);
+        end = block->end();
         break;
       }
       block = block->prev;
@@ -390,7 +397,7 @@ public:
 
     _block = block;
     _ptr = p;
-    _end = block->end();
+    _end = end;
   }
 
   //! \}
-- 
2.43.0


From c3b09d6986e962863e075d5c0b81273bc32b37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 106/216] fix: pipeline: blitting an image area having zero
 height caused an integer division by zero

[P37]
---
 blend2d/pipeline/pipedefs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 3d4b1b8..f4c100a 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -170,7 +170,7 @@ Signature init_pattern_affine(FetchData::Pattern& fetch_data, BLExtendMode exten
   int tw = int(fetch_data.src.size.w);
   int th = int(fetch_data.src.size.h);
 
-  if (BL_UNLIKELY(tw == 0)) {
+  if (BL_UNLIKELY(tw == 0 || th == 0)) {
     return Signature::from_pending_flag(1);
   }
 
-- 
2.43.0


From e56cdefd32ce0b3c23436e395f0e0690b9b11499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 107/216] fix: raster: NaN and infinite coordinates must not
 reach the clipper and rasterizer (drawing outside of the clip box, out of
 bounds band index)

[P37]
---
 blend2d/raster/edgebuilder_p.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 36f359f..684e6cd 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -58,10 +58,21 @@ static BL_INLINE uint32_t bl_clip_calc_xy_flags(const BLPoint& pt, const BLBox&
 //! \name Edge Transformations
 //! \{
 
+//! Makes the transformed coordinate finite - the clipper and rasterizer must never see NaNs and infinities as they
+//! would propagate to clipped coordinates (and thus to band and cell indexes).
+static BL_INLINE double bl_sanitize_edge_coord(double v) noexcept {
+  constexpr double kLimit = 1e15;
+
+  // NOTE: The order of arguments is important - if `v` is NaN the result would be `kLimit`.
+  return bl_max(-kLimit, bl_min(kLimit, v));
+}
+
 class EdgeTransformNone {
 public:
   BL_INLINE EdgeTransformNone() noexcept {}
-  BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept { dst = src; }
+  BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept {
+    dst.reset(bl_sanitize_edge_coord(src.x), bl_sanitize_edge_coord(src.y));
+  }
 };
 
 class EdgeTransformScale {
@@ -77,7 +88,7 @@ public:
   BL_INLINE EdgeTransformScale(const EdgeTransformScale& other) noexcept = default;
 
   BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept {
-    dst.reset(src.x * _sx + _tx, src.y * _sy + _ty);
+    dst.reset(bl_sanitize_edge_coord(src.x * _sx + _tx), bl_sanitize_edge_coord(src.y * _sy + _ty));
   }
 };
 
@@ -90,7 +101,8 @@ public:
   BL_INLINE EdgeTransformAffine(const EdgeTransformAffine& other) noexcept = default;
 
   BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept {
-    dst = _transform.map_point(src);
+    BLPoint p = _transform.map_point(src);
+    dst.reset(bl_sanitize_edge_coord(p.x), bl_sanitize_edge_coord(p.y));
   }
 };
 
-- 
2.43.0


From 125ad9b3bed00267ff7ccf398365121b049e57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 108/216] fix: raster: an inexact line / clip box intersection
 (huge coordinates) created an edge outside of the clip box (out of bounds
 band index)

[P37]
---
 blend2d/raster/edgebuilder_p.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 684e6cd..17c0217 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -1598,6 +1598,10 @@ RestartClipLoop:
             return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
         }
 
+        // The intersection is not exact (huge coordinates), but the edge must never leave the clip box.
+        q.x = bl_clamp(q.x, _clip_box_d.x0, _clip_box_d.x1);
+        q.y = bl_clamp(q.y, _clip_box_d.y0, _clip_box_d.y1);
+
         BL_PROPAGATE(add_line_segment(p.x, p.y, q.x, q.y));
         double clippedBY = bl_clamp(b.y, _clip_box_d.y0, _clip_box_d.y1);
 
-- 
2.43.0


From 0c3424cd894b6d56c1a4a2b9a18d1d1e8a03d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 109/216] fix: path: stroking a quadratic curve with large
 coordinates never terminated (the split point equals the start point)

[P37]
---
 blend2d/core/pathstroke.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 195955b..26967d7 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -866,7 +866,19 @@ SmoothPolyTo:
           t = 1.0;
 
         BLPoint part[3];
-        Geometry::split(Geometry::quad_ref(iter.part), Geometry::quad_out(part), Geometry::quad_out(iter.part), t);
+        BLPoint rest[3];
+        Geometry::split(Geometry::quad_ref(iter.part), Geometry::quad_out(part), Geometry::quad_out(rest), t);
+
+        // No progress can be made if the split doesn't move the start point (coordinates too large for such a step).
+        if (BL_UNLIKELY(rest[0] == iter.part[0] && t != 1.0)) {
+          offset_quad_simple(iter.part[0], iter.part[1], iter.part[2]);
+          break;
+        }
+
+        iter.part[0] = rest[0];
+        iter.part[1] = rest[1];
+        iter.part[2] = rest[2];
+
         offset_quad_simple(part[0], part[1], part[2]);
 
         if (t == 1.0)
-- 
2.43.0


From 1a3698822340ac69719fd7d20885d625041e66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 110/216] fix: pipeline: a huge pattern translation overflowed
 and sampled wrong texels

[P37]
---
 blend2d/pipeline/pipedefs.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index f4c100a..915916b 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -112,6 +112,16 @@ static BL_INLINE Signature init_pattern_tx_ty(FetchData::Pattern& fetch_data, Fe
   return Signature::from_fetch_type(FetchType(uint32_t(fetch_base) + extend_x));
 }
 
+// Converts a whole pixel translation to an offset into the pattern that never overflows when added to a coordinate.
+static BL_INLINE int offset_from_translation(int64_t t, int size, uint32_t extend_mode) noexcept {
+  int64_t offset = -t;
+
+  if (extend_mode >= BL_EXTEND_MODE_REPEAT && size > 0)
+    offset %= int64_t(size) * 2;
+
+  return int(bl_clamp<int64_t>(offset, -0x3FFFFFFF, 0x3FFFFFFF));
+}
+
 Signature init_pattern_ax_ay(FetchData::Pattern& fetch_data, BLExtendMode extend_mode, int x, int y) noexcept {
   return init_pattern_tx_ty(fetch_data, FetchType::kPatternAlignedPad, extend_mode, -x, -y, false);
 }
@@ -123,8 +133,8 @@ Signature init_pattern_fx_fy(FetchData::Pattern& fetch_data, BLExtendMode extend
   uint32_t wx = uint32_t(tx64 & 0xFF);
   uint32_t wy = uint32_t(ty64 & 0xFF);
 
-  int tx = -int(tx64 >> 8);
-  int ty = -int(ty64 >> 8);
+  int tx = offset_from_translation(tx64 >> 8, fetch_data.src.size.w, extend_xFromExtendMode(extend_mode));
+  int ty = offset_from_translation(ty64 >> 8, fetch_data.src.size.h, extend_yFromExtendMode(extend_mode));
 
   // If one or both `wx` or `wy` are non-zero it means that the translation is fractional. In that case we must
   // calculate weights of [x0 y0], [x1 y0], [x0 y1], and [x1 y1] pixels.
-- 
2.43.0


From 05090762664b1c3508bb7d874c8e124e4236d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 111/216] fix: raster: blitting an image under a transform that
 is only near a translation read pixels out of the image bounds

[P23]
---
 blend2d/raster/rastercontext.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 836999c..a5e4ce4 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4011,6 +4011,14 @@ static BLResult BL_CDECL blit_image_d_impl(BLContextImpl* base_impl, const BLPoi
       if (!((start_fx | start_fy) & ctx_impl->render_target_info.fpMaskI)) {
         // Pixel aligned blit. At this point we still don't know whether the area where the pixels will be composited
         // is aligned, but we know for sure that the pixels of `src` image don't require any interpolation.
+
+        // The area must end where the source ends - a translation matrix can have a scale that is only near one.
+        ix1 = int(bl_min<int64_t>(ix1, start_fx + (int64_t(src_rect.w) << ctx_impl->render_target_info.fpShiftI)));
+        iy1 = int(bl_min<int64_t>(iy1, start_fy + (int64_t(src_rect.h) << ctx_impl->render_target_info.fpShiftI)));
+
+        if (!(unsigned(ix0 < ix1) & unsigned(iy0 < iy1)))
+          return BL_SUCCESS;
+
         int x0 = ix0 >> ctx_impl->render_target_info.fpShiftI;
         int y0 = iy0 >> ctx_impl->render_target_info.fpShiftI;
         int x1 = (ix1 + ctx_impl->render_target_info.fpMaskI) >> ctx_impl->render_target_info.fpShiftI;
-- 
2.43.0


From ce5eade4f387488f02444f79f3daa75d864558be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 112/216] fix: pipeline: filling an unaligned box accessed up
 to 3 pixels on the left side of it (out of bounds reads of a source image)

[P23]
---
 blend2d/pipeline/pipedefs_p.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/blend2d/pipeline/pipedefs_p.h b/blend2d/pipeline/pipedefs_p.h
index 2a16429..bfbcaa4 100644
--- a/blend2d/pipeline/pipedefs_p.h
+++ b/blend2d/pipeline/pipedefs_p.h
@@ -749,15 +749,9 @@ struct FillData {
     writeBoxUMaskToMaskBuffer(mask_ptr + kMaskScanlineWidth * 2u, m2x1);
     mask_ptr[kMaskScanlineWidth * 2u + 4] = uint8_t(m2x0);
 
+    // NOTE: The box must not be extended by pixels having zero mask, because the source (a blit) doesn't have to have
+    // any pixels there, and because such pixels can be outside of the clip box.
     mask_ptr += 4;
-    uint32_t wAlign = IntOps::align_up_diff(w, 4);
-
-    if (wAlign > ax0)
-      wAlign = 0;
-
-    ax0 -= wAlign;
-    w += wAlign;
-    mask_ptr -= wAlign;
 
     if (w <= kMaxMaskOnlyWidth) {
       mask_ptr[kMaskScanlineWidth * 0u + w - 1u] = uint8_t(m0x2);
-- 
2.43.0


From 9da5005534fd712bb1f77892e788bbfb03e492a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 113/216] fix: raster: filling a mask which area is empty in
 fixed point accessed pixels out of the clip box and the mask

[P23]
---
 blend2d/raster/rastercontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index a5e4ce4..782c131 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3634,6 +3634,10 @@ static BL_INLINE BLResult fill_unclipped_mask_d(BLRasterContextImpl* ctx_impl, D
 
     BLBoxI dst_box_u = Math::trunc_to_int(dst_box_d);
 
+    // Clipped out - this is required as the difference between x0 & x1 and y0 & y1 could be smaller than our fixed point.
+    if (!((dst_box_u.x0 < dst_box_u.x1) & (dst_box_u.y0 < dst_box_u.y1)))
+      return BL_SUCCESS;
+
     if (!((start_fx | start_fy) & ctx_impl->render_target_info.fpMaskI)) {
       // Pixel aligned mask.
       int x0 = dst_box_u.x0 >> ctx_impl->render_target_info.fpShiftI;
-- 
2.43.0


From 95a4a3cfd1de6180a0c421a734eb80231379b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 114/216] fix: raster: DST_IN of a transparent color did
 nothing when the destination is XRGB32

[P25]
---
 blend2d/core/compopsimplifyimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/compopsimplifyimpl_p.h b/blend2d/core/compopsimplifyimpl_p.h
index 9563f52..4e7e751 100644
--- a/blend2d/core/compopsimplifyimpl_p.h
+++ b/blend2d/core/compopsimplifyimpl_p.h
@@ -239,7 +239,7 @@ struct CompOpSimplifyInfoImpl {
            d == Fmt::kPRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
            d == Fmt::kXRGB32 && s == Fmt::kPRGB32 ? dst_in(Fmt::kPRGB32, Fmt::kPRGB32) :
-           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? dst_in(Fmt::kPRGB32, Fmt::kFRGB32) :
+           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? clear(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kXRGB32 ? dst_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
-- 
2.43.0


From 55f03589590a1579aaa2583f08887fe7f3474b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 115/216] fix: raster: integer rectangles, masks and blits
 ignored the fractional part of the clip box

[P24]
---
 blend2d/raster/rastercontext.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 782c131..e090ce8 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -862,6 +862,13 @@ static BL_INLINE void restore_clipping_from_state(BLRasterContextImpl* ctx_impl,
 // bl::RasterEngine - ContextImpl - Internals - Clip Utilities
 // ===========================================================
 
+//! Tests whether integer coordinates map to whole pixels - the transform must be an integral translation and the clip
+//! box must be aligned as well, otherwise pixels at the borders of the clip box are only covered partially.
+static BL_INLINE bool is_pixel_aligned(const BLRasterContextImpl* ctx_impl) noexcept {
+  return bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation) &&
+         ctx_impl->clip_mode() == BL_CLIP_MODE_ALIGNED_RECT;
+}
+
 #if 0
 // TODO: [Rendering Context] Experiment, not ready yet.
 static BL_INLINE bool translateAndClipRectToFillI(const BLRasterContextImpl* ctx_impl, const BLRectI* src_rect, BLBoxI* dst_box_out) noexcept {
@@ -2924,7 +2931,7 @@ static BL_INLINE BLResult fillUnclippedRectI(BLRasterContextImpl* ctx_impl, Disp
   int rw = rect_i.w;
   int rh = rect_i.h;
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!is_pixel_aligned(ctx_impl)) {
     // Clipped out.
     if ((rw <= 0) | (rh <= 0))
       return BL_SUCCESS;
@@ -3752,7 +3759,7 @@ static BLResult BL_CDECL fill_mask_i_impl(BLContextImpl* base_impl, const BLPoin
   BL_ASSERT(mask->_d.is_image());
 
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!is_pixel_aligned(ctx_impl)) {
     BLPoint origin_d(*origin);
     return fill_mask_d_impl<kRM>(ctx_impl, &origin_d, mask, mask_area);
   }
@@ -3774,7 +3781,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BL_ASSERT(mask->_d.is_image());
 
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!is_pixel_aligned(ctx_impl)) {
     BLPoint origin_d(*origin);
     return fill_mask_d_rgba32_impl<kRM>(ctx_impl, &origin_d, mask, mask_area, rgba32);
   }
@@ -3796,7 +3803,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BL_ASSERT(mask->_d.is_image());
 
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!is_pixel_aligned(ctx_impl)) {
     BLPoint origin_d(*origin);
     return fill_mask_d_ext_impl<kRM>(ctx_impl, &origin_d, mask, mask_area, style);
   }
@@ -4073,7 +4080,7 @@ static BLResult BL_CDECL blit_image_i_impl(BLContextImpl* base_impl, const BLPoi
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
   BLImageImpl* image_impl = ImageInternal::get_impl(img);
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!is_pixel_aligned(ctx_impl)) {
     BLPoint origin_d(*origin);
     return blit_image_d_impl<kRM>(ctx_impl, &origin_d, img, img_area);
   }
-- 
2.43.0


From 6cbfbc2fe7916926060aa1a404a38c075f71b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 116/216] fix: rasterizer: steep line that crosses a cell at
 the end of a scanline was rendered as if it crossed at the start of it

[P24]
---
 blend2d/raster/analyticrasterizer_p.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/analyticrasterizer_p.h b/blend2d/raster/analyticrasterizer_p.h
index c018079..0a732b6 100644
--- a/blend2d/raster/analyticrasterizer_p.h
+++ b/blend2d/raster/analyticrasterizer_p.h
@@ -59,6 +59,14 @@ BL_INLINE constexpr X apply_sign_mask(const X& x, const Y& mask) noexcept {
   return X((U(x) ^ U(mask)) - U(mask));
 }
 
+//! Wraps the vertical position at which a line crosses to another cell into the current scanline.
+//!
+//! The result is always within [1, A8Info::kScale] range - a line crosses below the top of the scanline, but the position
+//! can be rounded to its bottom.
+static BL_INLINE int wrap_crossing(int y) noexcept {
+  return ((y - 1) & int(Pipeline::A8Info::kMask)) + 1;
+}
+
 //! Branchless implementation of the following code:
 //!
 //! ```
@@ -592,7 +600,7 @@ struct AnalyticRasterizer : public AnalyticState {
           if (_fx0 < 0) {
             _ex0--;
             _fx0 += A8Info::kScale;
-            _yDlt &= A8Info::kMask;
+            _yDlt = AnalyticUtils::wrap_crossing(_yDlt);
 
             if (!area) {
               area = A8Info::kScale;
@@ -652,7 +660,7 @@ VertRightToLeftSingleFirstOrLast:
             if (_fx0 < 0) {
               _ex0--;
               _fx0 += A8Info::kScale;
-              _yDlt &= A8Info::kMask;
+              _yDlt = AnalyticUtils::wrap_crossing(_yDlt);
 
               if (!area) {
                 area = A8Info::kScale;
@@ -755,7 +763,7 @@ VertRightToLeftSingleInLoop:
           else {
             _ex0++;
             _fx0 &= A8Info::kMask;
-            _yDlt &= A8Info::kMask;
+            _yDlt = AnalyticUtils::wrap_crossing(_yDlt);
             bit_set<OPTIONS>(bit_ptr, unsigned(_ex0) / BL_PIPE_PIXELS_PER_ONE_BIT);
 
             cov0 = apply_sign_mask(uint32_t(_yDlt - _fy0));
@@ -814,7 +822,7 @@ VertRightToLeftSingleInLoop:
             }
             else {
               _fx0 &= A8Info::kMask;
-              _yDlt &= A8Info::kMask;
+              _yDlt = AnalyticUtils::wrap_crossing(_yDlt);
 
               cov0 = apply_sign_mask(uint32_t(_yDlt));
               cov1 = cov0 * (area + A8Info::kScale);
-- 
2.43.0


From fb70cac2953b9de089dd0c363ec4a013befa18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 117/216] fix: pipeline: radial gradient sampled a wrong point
 of the pixel when rotated or skewed

[P27]
---
 blend2d/pipeline/pipedefs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 915916b..081b326 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -539,7 +539,7 @@ static BL_INLINE Signature init_radial_gradient(FetchData::Gradient& fetch_data,
   double xy = inv.m01;
   double yx = inv.m10;
   double yy = inv.m11;
-  BLPoint tp = BLPoint(inv.m20 + (xx + xy) * 0.5, inv.m21 + (yx + yy) * 0.5) - fp;
+  BLPoint tp = BLPoint(inv.m20 + (xx + yx) * 0.5, inv.m21 + (xy + yy) * 0.5) - fp;
 
   fetch_data.radial.tx = tp.x;
   fetch_data.radial.ty = tp.y;
-- 
2.43.0


From b15a4a3cbf0d66db097562fb68114d9543ad81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 118/216] fix: pipeline: conic gradient was distorted by
 transformations that aren't similarities

[P27]
---
 blend2d/pipeline/pipedefs.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 081b326..3315595 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -633,8 +633,14 @@ static BL_INLINE Signature init_conic_gradient(FetchData::Gradient& fetch_data,
   // Invert the origin and move it to the center of the pixel.
   c = BLPoint(0.5, 0.5) - transform.map_point(c);
 
-  BLPoint v = transform.map_vector(BLPoint(1.0, 0.0));
-  double matrix_angle = atan2(v.y, v.x);
+  // The angle that has to be compensated is the one at which a pixel row runs in the gradient space, so the row is
+  // horizontal after the rotation (which is required by the fetcher).
+  BLMatrix2D inv;
+  if (BLMatrix2D::invert(inv, transform) != BL_SUCCESS)
+    return Signature::from_pending_flag(1);
+
+  BLPoint v = inv.map_vector(BLPoint(1.0, 0.0));
+  double matrix_angle = -atan2(v.y, v.x);
 
   BLMatrix2D updated_transform(transform);
   updated_transform.rotate(-matrix_angle, c);
@@ -645,7 +651,6 @@ static BL_INLINE Signature init_conic_gradient(FetchData::Gradient& fetch_data,
   if (off != 0.0)
     off = -1.0 + off;
 
-  BLMatrix2D inv;
   if (BLMatrix2D::invert(inv, updated_transform) != BL_SUCCESS)
     return Signature::from_pending_flag(1);
 
-- 
2.43.0


From 2e757f9ab14ac6f60f62f564e3b76a90e60d3359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 119/216] fix: context: invalid style slot was used as an index
 when setting or disabling a solid style

[P29]
---
 blend2d/raster/rastercontext.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index e090ce8..eeb44ed 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -510,10 +510,6 @@ static BL_INLINE bool init_non_solid_fetch_data(
 // bl::RasterEngine - ContextImpl - Frontend - Fill & Stroke Style
 // ===============================================================
 
-static BL_INLINE_NODEBUG uint32_t restricted_index_from_slot(BLContextStyleSlot slot) noexcept {
-  return bl_min<uint32_t>(slot, uint32_t(BL_CONTEXT_STYLE_SLOT_MAX_VALUE) + 1);
-}
-
 static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContextStyleSlot slot, bool transformed, BLVarCore* var_out) noexcept {
   const BLRasterContextImpl* ctx_impl = static_cast<const BLRasterContextImpl*>(base_impl);
 
@@ -558,12 +554,13 @@ static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContex
 
 static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextStyleSlot slot) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -574,12 +571,13 @@ static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextS
 
 static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint32_t rgba32) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -601,12 +599,13 @@ static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint64_t rgba64) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -629,16 +628,17 @@ static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, const BLRgba* rgba) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   BLRgba norm = bl_clamp(*rgba, BLRgba(0.0f, 0.0f, 0.0f, 0.0f), BLRgba(1.0f, 1.0f, 1.0f, 1.0f));
   if (!RgbaInternal::is_valid(*rgba))
     return disable_style_impl(base_impl, slot);
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
-- 
2.43.0


From 95b8b1bba972b152cf32fd6ff1afc857fad554ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 120/216] fix: context: set_approximation_options() ignored
 simplify tolerance

[P29]
---
 blend2d/raster/rastercontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index eeb44ed..5b42f84 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1911,11 +1911,13 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
   uint32_t offset_mode = options->offset_mode;
 
   double flatten_tolerance = options->flatten_tolerance;
+  double simplify_tolerance = options->simplify_tolerance;
   double offset_parameter = options->offset_parameter;
 
   if (BL_UNLIKELY(flatten_mode > BL_FLATTEN_MODE_MAX_VALUE ||
                   offset_mode > BL_OFFSET_MODE_MAX_VALUE ||
                   Math::is_nan(flatten_tolerance) ||
+                  Math::is_nan(simplify_tolerance) ||
                   Math::is_nan(offset_parameter)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
@@ -1926,6 +1928,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
   dst.flatten_mode = uint8_t(flatten_mode);
   dst.offset_mode = uint8_t(offset_mode);
   dst.flatten_tolerance = bl_clamp(flatten_tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
+  dst.simplify_tolerance = simplify_tolerance;
   dst.offset_parameter = offset_parameter;
 
   on_after_flatten_tolerance_changed(ctx_impl);
-- 
2.43.0


From 80a0739cfffe09ef0dfc2e9dd8d0b7bdc8256133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 121/216] fix: context: stroke caps and joins were not restored
 from a saved state

[P29]
---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 5b42f84..0ad8890 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2105,7 +2105,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2118,7 +2118,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2132,7 +2132,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From 507bc956d388b10522e9655b6346dcc42c4a9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 122/216] fix: context: swap_styles() mixed unrelated flags
 into the fill and stroke flags

[P29]
---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 0ad8890..26a2b03 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2000,8 +2000,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   // Swap fill and stroke alphas.
@@ -2009,8 +2010,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From 6fd2cbf24aa161ddc5aae3ae0ba3cc9a41a95581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 123/216] fix: gradient: AVX2 interpolation didn't premultiply
 colors of stops that share or neighbor a table entry

[P27]
---
 blend2d/pixelops/interpolation_avx2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pixelops/interpolation_avx2.cpp b/blend2d/pixelops/interpolation_avx2.cpp
index ea953d6..69c8c9a 100644
--- a/blend2d/pixelops/interpolation_avx2.cpp
+++ b/blend2d/pixelops/interpolation_avx2.cpp
@@ -53,7 +53,7 @@ void BL_CDECL interpolate_prgb32_avx2(uint32_t* d_ptr, uint32_t d_size, const BL
       c_pix = srli_u16<8>(c_pix);
 
       Vec8xU16 cA = swizzle_u16<3, 3, 3, 3>(c_pix);
-      c_pix = div255_u16(c_pix | vec_cast<Vec8xU16>(argb64_a255) * cA);
+      c_pix = div255_u16((c_pix | vec_cast<Vec8xU16>(argb64_a255)) * cA);
       c_pix = packs_128_i16_u8(c_pix);
       storea_32(dSpanPtr, c_pix);
       dSpanPtr++;
-- 
2.43.0


From e0aca05c97186747949f0c2885f69218c5d0da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 124/216] fix: image: scaling down a lot produced blank pixels
 as all weights were rounded to zero

[P34]
---
 blend2d/core/imagescale.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index d559cb1..28dc1f4 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -140,13 +140,17 @@ static BLResult BL_CDECL image_scale_weights(ImageScaleContext::Data* d, uint32_
         wSum += w;
       }
 
-      int iStrongest = 0;
+      // Convert to fixed point, carrying the rounding error over to the next weight so the sum is always `0x100`
+      // (rounding each weight separately would lose them all when downscaling a lot).
+      double wScale = 256.0 / wSum;
+      double acc = 0.0;
       int32_t iSum = 0;
-      int32_t iMax = 0;
 
-      double wScale = 65535 / wSum;
       for (j = wIndex; j < wCount; j++) {
-        int32_t w = int32_t(wData[j] * wScale) >> 8;
+        acc += wData[j] * wScale;
+
+        int32_t w = Math::round_to_int(acc) - iSum;
+        iSum += w;
 
         // Remove zero weight from the beginning of the list.
         if (w == 0 && wIndex == j) {
@@ -156,19 +160,9 @@ static BLResult BL_CDECL image_scale_weights(ImageScaleContext::Data* d, uint32_
         }
 
         weight_list[j - wIndex] = w;
-        iSum += w;
         is_unbound |= w;
-
-        if (iMax < w) {
-          iMax = w;
-          iStrongest = j - wIndex;
-        }
       }
 
-      // Normalize the strongest weight so the sum matches `0x100`.
-      if (iSum != 0x100)
-        weight_list[iStrongest] += int32_t(0x100) - iSum;
-
       // `wCount` is now absolute size of weights in `weight_list`.
       wCount -= wIndex;
 
-- 
2.43.0


From 55c229cfd384938068ccef14cbc5405bbe9832b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 125/216] fix: image: scaling to the same size blurred the
 image horizontally (bicubic filter)

[P34]
---
 blend2d/core/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 484c3bb..495d076 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -531,6 +531,9 @@ BL_API_IMPL BLResult bl_image_scale(BLImageCore* dst, const BLImageCore* src, co
   if (src_impl->format == BL_FORMAT_NONE)
     return bl_image_reset(dst);
 
+  if (unsigned(filter) <= BL_IMAGE_SCALE_FILTER_MAX_VALUE && filter != BL_IMAGE_SCALE_FILTER_NONE && *size == src_impl->size)
+    return bl_image_assign_deep(dst, src);
+
   bl::ImageScaleContext scale_ctx;
   BL_PROPAGATE(scale_ctx.create(*size, src_impl->size, filter));
 
-- 
2.43.0


From d36d1b8d4745bb6e0d11482020c96d3ec38faa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 126/216] fix: image: scale() to an oversized target allocated
 and computed weights before failing

[P37]
---
 blend2d/core/image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 495d076..9d6df93 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -534,10 +534,13 @@ BL_API_IMPL BLResult bl_image_scale(BLImageCore* dst, const BLImageCore* src, co
   if (unsigned(filter) <= BL_IMAGE_SCALE_FILTER_MAX_VALUE && filter != BL_IMAGE_SCALE_FILTER_NONE && *size == src_impl->size)
     return bl_image_assign_deep(dst, src);
 
+  // Verify the size first as the weights of an oversized image could take many gigabytes.
+  BLFormat format = BLFormat(src_impl->format);
+  BL_PROPAGATE(calc_stride_from_create_params(size->w, size->h, format).code);
+
   bl::ImageScaleContext scale_ctx;
   BL_PROPAGATE(scale_ctx.create(*size, src_impl->size, filter));
 
-  BLFormat format = BLFormat(src_impl->format);
   int tw = scale_ctx.dst_width();
   int th = scale_ctx.src_height();
 
-- 
2.43.0


From aa07fcbef4accc90d004712583b6521294e6fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 127/216] fix: image: scale() ignored that weights couldn't be
 calculated

[P11]
---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 28dc1f4..ad7beef 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -885,8 +885,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirVert, filter_func));
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 1b89aab49eaedde314e3b5bbb850c21c6ca496c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 128/216] fix: fix: path: stroke of a cubic with coincident
 control points had offsets in a wrong direction

[P28]
---
 blend2d/geometry/bezier_p.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/blend2d/geometry/bezier_p.h b/blend2d/geometry/bezier_p.h
index 03711bc..2bcf63c 100644
--- a/blend2d/geometry/bezier_p.h
+++ b/blend2d/geometry/bezier_p.h
@@ -924,12 +924,20 @@ static BL_INLINE void approximate_cubic_with_two_quads(CubicRef curve, BLPoint q
   BLPoint c2 = lerp(curve.vtx[3], curve.vtx[2], 0.75);
   BLPoint pm = lerp(c1, c2);
 
-  if (c1 == curve.vtx[0]) {
-    c1 = line_vector_intersection(curve.vtx[0], cubic_start_tangent(curve), pm, derivative_at(curve, 0.5));
+  // Control points that coincide don't have to be equal after the curve was split (rounding), thus compare them with
+  // a tolerance that is relative to their magnitude.
+  constexpr double kCoincidentEpsilonSq = 1e-24;
+
+  if (magnitude_squared(curve.vtx[1] - curve.vtx[0]) <= magnitude_squared(curve.vtx[0]) * kCoincidentEpsilonSq) {
+    BLPoint v = magnitude_squared(curve.vtx[2] - curve.vtx[0]) != 0.0 ? curve.vtx[2] - curve.vtx[0] : curve.vtx[3] - curve.vtx[0];
+    BLPoint p = line_vector_intersection(curve.vtx[0], v, pm, derivative_at(curve, 0.5));
+    c1 = Math::is_finite(p.x, p.y) ? p : lerp(curve.vtx[0], pm);
   }
 
-  if (c2 == curve.vtx[3]) {
-    c2 = line_vector_intersection(curve.vtx[3], cubic_end_tangent(curve), pm, derivative_at(curve, 0.5));
+  if (magnitude_squared(curve.vtx[3] - curve.vtx[2]) <= magnitude_squared(curve.vtx[3]) * kCoincidentEpsilonSq) {
+    BLPoint v = magnitude_squared(curve.vtx[3] - curve.vtx[1]) != 0.0 ? curve.vtx[3] - curve.vtx[1] : curve.vtx[3] - curve.vtx[0];
+    BLPoint p = line_vector_intersection(curve.vtx[3], v, pm, derivative_at(curve, 0.5));
+    c2 = Math::is_finite(p.x, p.y) ? p : lerp(curve.vtx[3], pm);
   }
 
   quads[0] = curve.vtx[0];
-- 
2.43.0


From 5e2bee546eab9bfe9bcbebdca91b5385a8127008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 129/216] fix: fix: path: stroke of a cubic with a cusp was
 split at the middle instead of at the cusp

[P28]
---
 blend2d/core/pathstroke.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 26967d7..7dce5d1 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -421,7 +421,7 @@ SmoothPolyTo:
             Geometry::get_cubic_inflection_parameter(Geometry::cubic_ref(p), tCusp, tl);
 
             if (tl == 0.0 && tCusp > 0.0 && tCusp < 1.0) {
-              Geometry::split(Geometry::cubic_ref(p), Geometry::cubic_out(p), Geometry::cubic_out(p + 3));
+              Geometry::split(Geometry::cubic_ref(p), Geometry::cubic_out(p), Geometry::cubic_out(p + 3), tCusp);
               cusp = 1;
             }
           }
-- 
2.43.0


From df7dfe9b867cd3bb0f5309063a24641c63bdf1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 130/216] fix: fix: path: stroke of a collinear cubic missed or
 misordered its turning points

[P28]
---
 blend2d/core/pathstroke.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 7dce5d1..53859b1 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -387,13 +387,18 @@ SmoothPolyTo:
               double r2 = Geometry::dot(p[2] - p[0], r);
               double r3 = Geometry::dot(p[3] - p[0], r);
 
-              double a = 1.0 / (3.0 * r1 - 3.0 * r2 + r3);
+              // Roots of `a*t*t - 2*b*t + c` - written in a way that works when the leading coefficient is [almost] zero.
+              double a = 3.0 * r1 - 3.0 * r2 + r3;
               double b = 2.0 * r1 - r2;
               double s = Math::sqrt(r2 * (r2 - r1) - r1 * (r3 - r1));
+              double q = b < 0.0 ? b - s : b + s;
 
               // Parameters of the cusps.
-              double t1 = a * (b - s);
-              double t2 = a * (b + s);
+              double t1 = r1 / q;
+              double t2 = q / a;
+
+              if (t1 > t2)
+                BLInternal::swap(t1, t2);
 
               // Offset the first and second cusps (if they exist).
               poly_size = 0;
-- 
2.43.0


From 71b778837fcbd47647b9f4821d576f22edae7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 131/216] fix: fix: path: stroke of a cubic that ends by a cusp
 contained NaNs

[P28]
---
 blend2d/core/pathstroke.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 53859b1..1564ae5 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -425,7 +425,7 @@ SmoothPolyTo:
             double tl;
             Geometry::get_cubic_inflection_parameter(Geometry::cubic_ref(p), tCusp, tl);
 
-            if (tl == 0.0 && tCusp > 0.0 && tCusp < 1.0) {
+            if (tl == 0.0 && tCusp > kStrokeCuspTThreshold && tCusp < 1.0 - kStrokeCuspTThreshold) {
               Geometry::split(Geometry::cubic_ref(p), Geometry::cubic_out(p), Geometry::cubic_out(p + 3), tCusp);
               cusp = 1;
             }
-- 
2.43.0


From 6922cee7994dcf2e928e1ce69bb6b26e8643120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 132/216] fix: fix: path: stroke of a collinear curve was
 dropped if it started by a very short segment

[P28]
---
 blend2d/core/pathstroke.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 1564ae5..ca000f9 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -668,8 +668,15 @@ SmoothPolyTo:
 
     BLPoint p1 = poly[0];
     BLPoint v1 = p1 - _p0;
-    if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq)
-      return BL_SUCCESS;
+
+    // Skip leading points that don't form a segment.
+    while (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq) {
+      if (--count == 0)
+        return BL_SUCCESS;
+
+      p1 = *++poly;
+      v1 = p1 - _p0;
+    }
 
     BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
     if (!is_open())
-- 
2.43.0


From f3b08e732482d57b9c6ef4474fe6a7f98e868c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 133/216] fix: fix: path: stroke of a cubic used a rounding
 error as a direction after its cusp

[P28]
---
 blend2d/core/pathstroke.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index ca000f9..ca234a9 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -433,7 +433,7 @@ SmoothPolyTo:
 
           for (;;) {
             v1 = p[1] - _p0;
-            if (Geometry::is_zero(v1))
+            if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq)
               v1 = p[2] - _p0;
             n1 = Geometry::normal(Geometry::unit_vector(v1));
 
-- 
2.43.0


From 865acceccb51f855e3897cfcbbf76772d7d22551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 134/216] fix: pixel converter: the second step of a two-step
 conversion was never created

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From dfece457ec01673908654cc66ebcfcb44d77d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 135/216] fix: pixel converter: the all-ones shortcut of 1-bit
 indexed images compared the wrong number of bits

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index b59e3a1..930bc40 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -633,7 +633,7 @@ static BLResult BL_CDECL bl_convert_any_from_indexed1(
   uint32_t c0 = PixelAccess::fetchA(d.embedded.table8 + 0 * kPixelSize);
   uint32_t cm = PixelAccess::fetchA(d.embedded.table8 + 1 * kPixelSize) ^ c0; // XOR mask.
 
-  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize))) {
+  if (c0 == 0 && cm == (0xFFFFFFFFu >> (32 - kPixelSize * 8u))) {
     // Special case for zeros and all ones.
     for (uint32_t y = h; y != 0; y--) {
       const uint8_t* src_data = src_line;
-- 
2.43.0


From 585e479d0fb38a5b38bd29861bfce19a920f6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 136/216] fix: pixel converter: the palette converter used
 uninitialised fill masks

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 930bc40..d783471 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1521,7 +1521,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   // We need a temporary pixel converter to convert the palette to the destination pixel format. This operation should
   // not allocate any memory as the converter will convert native pixel format (BLRgba32) into a possibly non-native
   // one although a native pixel format is used most of the time.
-  BLPixelConverterCore pal_cvt;
+  BLPixelConverterCore pal_cvt {};
   BL_PROPAGATE(bl_pixel_converter_init_internal(&pal_cvt, di, palette_format_info, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS));
 
   // If the source depth is 8 bits it means that we either use the source format's palette or make a copy of it
-- 
2.43.0


From 76a00c718f4c665764c7a3fc2164e7b4dd5fbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 137/216] fix: pixel converter: shuffled XRGB from ARGB
 conversion multiplied by a zero alpha

[P33]
---
 blend2d/core/pixelconverter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index d783471..2974fdf 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1811,10 +1811,18 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
         //   PRGB32 <- ARGB32 - Shuffle with premultiply
         //   XRGB32 <- ARGB32 - Shuffle with premultiply
         if (((di.flags & kP) || !(di.flags & kA)) && (si.flags & (kA | kP)) == kA) {
-          uint32_t a_shift = di.shifts[3];
+          // Alpha has to be shuffled even if the destination doesn't have it as RGB components are multiplied by it.
+          BLFormatInfo dst_info_with_alpha = di;
+          if (!dst_alpha) {
+            dst_info_with_alpha.sizes[3] = 8;
+            dst_info_with_alpha.shifts[3] = uint8_t(bl::IntOps::ctz(bl_pixel_converter_calc_fill_mask32(di)));
+          }
+
+          uint32_t a_shift = dst_info_with_alpha.shifts[3];
 
           BLPixelConverterData::ShufbData& d = bl_pixel_converter_get_data(self)->shufb_data;
-          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, di, si);
+          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, dst_info_with_alpha, si);
+          d.fill_mask = dst_alpha ? uint32_t(0) : uint32_t(0xFFu) << a_shift;
 
 #ifdef BL_BUILD_OPT_AVX2
           if (bl_runtime_has_avx2(&bl_runtime_context)) {
-- 
2.43.0


From 3e2c927ff29c1178becee053ec54d4b63ae31295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 138/216] fix: pixel converter: a read-only palette was
 modified when converted with a fill mask

[P33]
---
 blend2d/core/pixelconverter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 2974fdf..322d1a4 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1617,7 +1617,8 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
 static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si) noexcept {
   BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
 
-  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED | BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY ;
+  // NOTE: This is not a raw copy as the fill mask changes pixels (a palette cannot be used without converting it).
+  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
   d.bytes_per_pixel = uint8_t(di.depth / 8u);
 
   // Required to handle Copy32, XRGB32<-PRGB32, and PRGB32<-XRGB32 conversions.
-- 
2.43.0


From 7aeafb799af0c392db4fc395aa10ed75ab0eb61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 139/216] fix: pixel converter: copying pixels smaller than a
 byte reported success without copying

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 322d1a4..fde9227 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1721,7 +1721,7 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
   if (bl::FormatInternal::has_same_rgb_layout(di, si)) {
     if (bl::FormatInternal::has_same_alpha_layout(di, si)) {
       // Memory copy.
-      if (di.flags == si.flags) {
+      if (di.flags == si.flags && depth >= 8) {
         // Don't copy undefined bytes in 8888 formats, it's better to set them to 0xFF.
         if (depth == 32 && !(di.flags & BL_FORMAT_FLAG_ALPHA) && (di.flags & BL_FORMAT_FLAG_UNDEFINED_BITS))
           return bl_pixel_converter_init_copy_8888_with_fill_mask(self, di, si);
-- 
2.43.0


From 6e68591daf046cf44727c3a113dc38a132b7d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 140/216] fix: pixel converter: copying byte-swapped 32-bit
 pixels overwrote components with the native fill mask

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index fde9227..bac87f1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1723,7 +1723,7 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
       // Memory copy.
       if (di.flags == si.flags && depth >= 8) {
         // Don't copy undefined bytes in 8888 formats, it's better to set them to 0xFF.
-        if (depth == 32 && !(di.flags & BL_FORMAT_FLAG_ALPHA) && (di.flags & BL_FORMAT_FLAG_UNDEFINED_BITS))
+        if (depth == 32 && !(di.flags & (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_SWAP)) && (di.flags & BL_FORMAT_FLAG_UNDEFINED_BITS))
           return bl_pixel_converter_init_copy_8888_with_fill_mask(self, di, si);
 
         BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
-- 
2.43.0


From 4316a53e04f719498503b25833226f89d15813f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 141/216] fix: pixel converter: conversion from foreign formats
 ignored whether the destination has alpha and is premultiplied

[P33]
---
 blend2d/core/pixelconverter.cpp | 37 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index bac87f1..586a1df 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -988,6 +988,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1008,7 +1010,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32a(dst_data, ag + rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1033,7 +1035,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1077,6 +1079,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1089,7 +1093,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32a(dst_data, ag | rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1106,7 +1110,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t ag = (a + (g     )) & 0xFF00FF00u;
         uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
 
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1946,9 +1950,17 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   bool is_src_premultiplied  = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
   bool hasSrcHostBO        = (si.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
-  if (!isSrcRGBA)
+  bool isDstRGBA           = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+  bool is_dst_premultiplied  = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+
+  if (!isSrcRGBA || !isDstRGBA)
     d.fill_mask = 0xFF000000u;
 
+  // Premultiplied pixels stay premultiplied if the destination is either PRGB32 or XRGB32; and non-premultiplied pixels
+  // stay as is if the destination is ARGB32 - in both cases pixel components only have to be expanded.
+  bool unpremultiply = is_src_premultiplied && isDstRGBA && !is_dst_premultiplied;
+  bool expand_only = is_src_premultiplied || (isSrcRGBA && isDstRGBA && !is_dst_premultiplied);
+
   for (uint32_t i = 0; i < 4; i++) {
     uint32_t size = si.sizes[i];
     uint32_t shift = si.shifts[i];
@@ -1995,7 +2007,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   switch (si.depth) {
     case 16:
       // TODO:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+      else if (expand_only)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
       else if (isSrcRGBA)
@@ -2007,7 +2022,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 24:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+      else if (expand_only)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
       else if (isSrcRGBA)
@@ -2019,7 +2037,10 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 32:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+      else if (expand_only)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
       else if (isSrcRGBA)
-- 
2.43.0


From 8cbe9817c8fc6e66b6cabc6f236763ec865213d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 142/216] fix: pixel converter: conversion to foreign formats
 ignored whether the source has alpha and is premultiplied

[P33]
---
 blend2d/core/pixelconverter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 586a1df..3f22cd9 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2062,7 +2062,7 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
 // =============================================
 
 static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si, BLPixelConverterCreateFlags create_flags) noexcept {
-  bl_unused(si, create_flags);
+  bl_unused(create_flags);
 
   BL_ASSERT(si.depth == 32);
   BL_ASSERT(si.flags & BL_FORMAT_FLAG_BYTE_ALIGNED);
@@ -2081,6 +2081,16 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
     bool is_dst_premultiplied = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
     bool hasDstHostBO       = (di.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
+    bool isSrcRGBA          = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool is_src_premultiplied = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+
+    // Conversions that would need to premultiply or to make pixels opaque need an intermediate format.
+    if (isDstRGBA ? !isSrcRGBA || (is_dst_premultiplied && !is_src_premultiplied) : isSrcRGBA && !is_src_premultiplied)
+      return BL_RESULT_NOTHING;
+
+    // Pixel components only have to be truncated if there is nothing to unpremultiply.
+    bool truncate_only = isDstRGBA && is_dst_premultiplied == is_src_premultiplied;
+
     for (uint32_t i = 0; i < 4; i++) {
       uint32_t mask = 0;
       uint32_t size = di.sizes[i];
@@ -2098,7 +2108,7 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-        if (is_dst_premultiplied)
+        if (truncate_only)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         else if (isDstRGBA)
@@ -2110,7 +2120,7 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 24:
-        if (is_dst_premultiplied)
+        if (truncate_only)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         else if (isDstRGBA)
@@ -2122,7 +2132,7 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 32:
-        if (is_dst_premultiplied)
+        if (truncate_only)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
         else if (isDstRGBA)
@@ -2272,7 +2282,7 @@ static BLResult bl_pixel_converter_init_multi_step(BLPixelConverterCore* self, c
     BLFormatInfo intermediate = bl_format_info[BL_FORMAT_PRGB32];
     if ((di.flags & (kA | kP)) == kA)
       intermediate.clear_flags(BL_FORMAT_FLAG_PREMULTIPLIED);
-    if (!(di.flags & kA) || !(si.flags & kA))
+    if (!(di.flags & kA))
       intermediate = bl_format_info[BL_FORMAT_XRGB32];
     return bl_pixel_converter_init_multi_step_internal(self, di, intermediate, si);
   }
-- 
2.43.0


From a32fb985689b4826afe4eca03d0443e27003e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 143/216] fix: pixel converter: undefined byte of 8888 formats
 depended on instruction set

[P33]
---
 blend2d/core/pixelconverter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3f22cd9..09d201f 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2105,6 +2105,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
       d.shifts[i] = uint8_t(shift);
     }
 
+    // Set undefined bytes in 8888 formats to 0xFF, like all other converters do.
+    if (di.depth == 32 && !isDstRGBA && (di.flags & BL_FORMAT_FLAG_BYTE_ALIGNED))
+      d.fill_mask = bl_pixel_converter_calc_fill_mask32(di);
+
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-- 
2.43.0


From 1afe7f08272e0af97d4e3a5dbb05328380c5fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 144/216] fix: format: native shifts of byte-swapped formats
 were mirrored by bits instead of bytes

[P33]
---
 blend2d/core/format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/format.cpp b/blend2d/core/format.cpp
index 21d4957..7506b72 100644
--- a/blend2d/core/format.cpp
+++ b/blend2d/core/format.cpp
@@ -196,7 +196,7 @@ BL_API_IMPL BLResult bl_format_info_sanitize(BLFormatInfo* self) noexcept {
         uint32_t size = f.sizes[i];
         if (!size)
           continue;
-        f.shifts[i] = uint8_t(f.depth - f.shifts[i] - size);
+        f.shifts[i] = uint8_t((f.depth / 8u - 1u - f.shifts[i] / 8u) * 8u + f.shifts[i] % 8u);
       }
 
       flags &= ~FormatFlagsExt::kByteSwap;
-- 
2.43.0


From b29c8944ee433fc6ba2b2192ee3903e41d5dc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 145/216] fix: pixel converter: alpha of a palette that has no
 alpha was used

[P33]
---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 09d201f..ba44a55 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1513,7 +1513,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   bool alterable_palette = (create_flags & BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE) != 0;
 
   // Special case - avoid making the copy of the palette for known conversions.
-  if (di.depth == 8 && si.depth == 8 && dont_copy_palette) {
+  if (di.depth == 8 && si.depth == 8 && dont_copy_palette && (si.flags & BL_FORMAT_FLAG_ALPHA)) {
     if ((di.flags & (BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_BYTE_ALIGNED)) == (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_ALIGNED)) {
       d.convert_func = bl_convert_a8_from_indexed8_pal32;
       d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
-- 
2.43.0


From e2f54c83737dff52f0e48bedd1f7ae4d55d9bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 146/216] fix: object: the reference count was read without
 synchronisation

[P31]
---
 blend2d/core/object_p.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 59191c8..7371afc 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -91,7 +91,7 @@ struct BLObjectImplHeader {
   BL_INLINE_NODEBUG size_t alignment_offset() const noexcept { return flags & kAlignmentOffsetMask; }
 
   //! Tests whether this object impl is reference counted.
-  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return ref_count != 0u; }
+  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return bl_atomic_fetch_relaxed(&ref_count) != 0u; }
   //! Tests whether this object impl is immutable.
   BL_INLINE_NODEBUG bool is_immutable() const noexcept { return (flags & kRefCountedAndImmutableFlags) != kRefCountedFlag; }
   //! Tests whether this object impl holds external data.
@@ -306,7 +306,7 @@ static BL_INLINE void call_external_destroy_func(BLObjectImpl* impl, void* exter
 //! Tests whether the `impl` is mutable.
 static BL_INLINE bool is_impl_mutable(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == 1;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1;
 }
 
 //! Tests whether the `impl` is reference counted.
@@ -320,7 +320,7 @@ static BL_INLINE bool is_impl_ref_counted(const BLObjectImpl* impl) noexcept {
 //! This check essentially checks whether these is only a single remaining reference to the `impl`.
 static BL_INLINE bool is_impl_ref_count_equal_to_base(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == header->base_ref_count_value();
+  return bl_atomic_fetch_strong(&header->ref_count) == header->base_ref_count_value();
 }
 
 //! Initializes the reference count of `impl` to its base value, considering the passed `immediate` flag.
@@ -335,7 +335,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
 //! Returns a reference count of `impl`.
 static BL_INLINE size_t get_impl_ref_count(const BLObjectImpl* impl) noexcept {
-  return get_impl_header(impl)->ref_count;
+  return bl_atomic_fetch_relaxed(&get_impl_header(impl)->ref_count);
 }
 
 template<RCMode kRCMode>
@@ -371,13 +371,13 @@ static BL_INLINE BLResult release_virtual_impl(BLObjectImpl* impl) noexcept {
 //! whether the object is dynamic and that dynamic object has a mutable impl, use `is_instance_impl_mutable()` instead.
 static BL_INLINE bool is_instance_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_1 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an untyped object is dynamic and has a mutable Impl.
 static BL_INLINE bool is_instance_dynamic_and_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_0 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an object that always has a dynamic Impl is mutable.
@@ -385,7 +385,7 @@ static BL_INLINE bool is_dynamic_instance_mutable(const BLObjectCore* self) noex
   BL_ASSERT(self->_d.is_dynamic_object());
 
   const BLObjectImplHeader* header = get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 template<typename T>
-- 
2.43.0


From c42e78fecdcad727c0dd47aa4a15bca2da0cff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 147/216] fix: gradient: lazily built lookup tables were read
 and published without synchronisation

[P31]
---
 blend2d/core/gradient.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ecf9f8d..52866fa 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -173,7 +173,8 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   return j;
 }
 
-static BL_INLINE BLGradientLUT* copyMaybeNullLUT(BLGradientLUT* lut) noexcept {
+static BL_INLINE BLGradientLUT* copyMaybeNullLUT(BLGradientLUT* const* lut_ptr) noexcept {
+  BLGradientLUT* lut = bl_atomic_fetch_strong(lut_ptr);
   return lut ? lut->retain() : nullptr;
 }
 
@@ -202,7 +203,7 @@ static BL_INLINE BLResult invalidate_lut_cache(BLGradientPrivateImpl* impl) noex
 BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
   BLGradientInfo info;
 
-  info.packed = impl->info32.packed;
+  info.packed = bl_atomic_fetch_relaxed(&impl->info32.packed);
 
   constexpr uint32_t FLAG_ALPHA_NOT_ONE  = 0x1; // Has alpha that is not 1.0.
   constexpr uint32_t FLAG_ALPHA_NOT_ZERO = 0x2; // Has alpha that is not 0.0.
@@ -278,8 +279,8 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
       info.format = uint8_t(flags & FLAG_ALPHA_NOT_ONE ? FormatExt::kPRGB32 : FormatExt::kFRGB32);
       info._lut_size = uint16_t(lut_size);
 
-      // Update the info. It doesn't have to be atomic.
-      impl->info32.packed = info.packed;
+      // Update the info. Other threads could be doing the same, but the value is always the same.
+      bl_atomic_store_relaxed(&impl->info32.packed, info.packed);
     }
   }
 
@@ -287,7 +288,7 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
 }
 
 BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut32;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut32);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -312,7 +313,7 @@ BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noex
 }
 
 BLGradientLUT* ensure_lut64(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut64;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut64);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -375,9 +376,9 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   new_impl->size = copy_stops(new_impl->stops, other_impl->stops, other_impl->size);
 
   if (copy_cache) {
-    new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
-    new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
-    new_impl->info32.packed = other_impl->info32.packed;
+    new_impl->lut32 = copyMaybeNullLUT(&other_impl->lut32);
+    new_impl->lut64 = copyMaybeNullLUT(&other_impl->lut64);
+    new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
   return replace_instance(self, &newO);
@@ -547,8 +548,8 @@ BL_API_IMPL BLResult bl_gradient_shrink(BLGradientCore* self) noexcept {
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(&self_impl->lut32);
+  new_impl->lut64 = copyMaybeNullLUT(&self_impl->lut64);
 
   return replace_instance(self, &newO);
 }
@@ -571,8 +572,8 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(&self_impl->lut32);
+  new_impl->lut64 = copyMaybeNullLUT(&self_impl->lut64);
 
   return replace_instance(self, &newO);
 }
-- 
2.43.0


From 7a5a9f3f02a227abb493991008acb7ff7844ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 148/216] fix: path: lazily calculated info was published
 without synchronisation

[P31]
---
 blend2d/core/path.cpp | 45 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 8f679a0..71e280b 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2243,10 +2243,33 @@ BL_API_IMPL bool bl_path_equals(const BLPathCore* a, const BLPathCore* b) noexce
 namespace bl {
 namespace PathInternal {
 
+// Path info is calculated lazily, possibly by multiple threads that share the same immutable path. All such threads
+// write the same values, which are published by storing `flags` last.
+static BL_INLINE void store_box(BLBox* dst, const BLBox& src) noexcept {
+  reinterpret_cast<std::atomic<double>*>(&dst->x0)->store(src.x0, std::memory_order_relaxed);
+  reinterpret_cast<std::atomic<double>*>(&dst->y0)->store(src.y0, std::memory_order_relaxed);
+  reinterpret_cast<std::atomic<double>*>(&dst->x1)->store(src.x1, std::memory_order_relaxed);
+  reinterpret_cast<std::atomic<double>*>(&dst->y1)->store(src.y1, std::memory_order_relaxed);
+}
+
+static BL_INLINE BLBox load_box(const BLBox* src) noexcept {
+  return BLBox(
+    reinterpret_cast<const std::atomic<double>*>(&src->x0)->load(std::memory_order_relaxed),
+    reinterpret_cast<const std::atomic<double>*>(&src->y0)->load(std::memory_order_relaxed),
+    reinterpret_cast<const std::atomic<double>*>(&src->x1)->load(std::memory_order_relaxed),
+    reinterpret_cast<const std::atomic<double>*>(&src->y1)->load(std::memory_order_relaxed));
+}
+
+static BL_INLINE void store_info(BLPathPrivateImpl* self_impl, uint32_t flags, const BLBox& control_box, const BLBox& bounding_box) noexcept {
+  store_box(&self_impl->control_box, control_box);
+  store_box(&self_impl->bounding_box, bounding_box);
+  bl_atomic_store_strong(&self_impl->flags, flags);
+}
+
 static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
   // Special-case. The path info is valid, but the path is invalid. We handle it here to simplify `ensure_info()`
   // and to make it a bit shorter.
-  if (self_impl->flags & BL_PATH_FLAG_INVALID)
+  if (bl_atomic_fetch_strong(&self_impl->flags) & BL_PATH_FLAG_INVALID)
     return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
   PathInfoUpdater updater;
@@ -2254,30 +2277,24 @@ static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
 
   // Path is invalid.
   if (result != BL_SUCCESS) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_INVALID;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info(self_impl, updater.flags | BL_PATH_FLAG_INVALID, BLBox{}, BLBox{});
     return result;
   }
 
   // Path is empty.
   if (!(updater.bounding_box.x0 <= updater.bounding_box.x1 &&
         updater.bounding_box.y0 <= updater.bounding_box.y1)) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_EMPTY;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info(self_impl, updater.flags | BL_PATH_FLAG_EMPTY, BLBox{}, BLBox{});
     return BL_SUCCESS;
   }
 
   // Path is valid.
-  self_impl->flags = updater.flags;
-  self_impl->control_box = updater.control_box;
-  self_impl->bounding_box = updater.bounding_box;
+  store_info(self_impl, updater.flags, updater.control_box, updater.bounding_box);
   return BL_SUCCESS;
 }
 
 static BL_INLINE BLResult ensure_info(BLPathPrivateImpl* self_impl) noexcept {
-  if (self_impl->flags & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
+  if (bl_atomic_fetch_strong(&self_impl->flags) & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
     return update_info(self_impl);
 
   return BL_SUCCESS;
@@ -2293,7 +2310,7 @@ BL_API_IMPL BLResult bl_path_get_info_flags(const BLPathCore* self, uint32_t* fl
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *flags_out = self_impl->flags;
+  *flags_out = bl_atomic_fetch_strong(&self_impl->flags);
   return result;
 }
 
@@ -2307,7 +2324,7 @@ BL_API_IMPL BLResult bl_path_get_control_box(const BLPathCore* self, BLBox* box_
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->control_box;
+  *box_out = load_box(&self_impl->control_box);
   return result;
 }
 
@@ -2318,7 +2335,7 @@ BL_API_IMPL BLResult bl_path_get_bounding_box(const BLPathCore* self, BLBox* box
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->bounding_box;
+  *box_out = load_box(&self_impl->bounding_box);
   return result;
 }
 
-- 
2.43.0


From 7bb8831dd1905e32cffc0f64eea20731c95d5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 149/216] fix: font manager: assertions tested the manager's
 type instead of the face's

[P39]
---
 blend2d/core/fontmanager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index bfc7c06..b8e1e99 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -355,7 +355,7 @@ BL_API_IMPL bool bl_font_manager_has_face(const BLFontManagerCore* self, const B
   using namespace bl::FontManagerInternal;
 
   BL_ASSERT(self->_d.is_font_manager());
-  BL_ASSERT(self->_d.is_font_face());
+  BL_ASSERT(face->_d.is_font_face());
 
   BLFontManagerPrivateImpl* self_impl = get_impl(self);
   BLFontFacePrivateImpl* face_impl = bl::FontFaceInternal::get_impl(face);
@@ -377,7 +377,7 @@ BL_API_IMPL BLResult bl_font_manager_add_face(BLFontManagerCore* self, const BLF
   using namespace bl::FontManagerInternal;
 
   BL_ASSERT(self->_d.is_font_manager());
-  BL_ASSERT(self->_d.is_font_face());
+  BL_ASSERT(face->_d.is_font_face());
 
   if (!face->dcast().is_valid())
     return bl_make_error(BL_ERROR_FONT_NOT_INITIALIZED);
-- 
2.43.0


From cab8df824d903321b25d0865c1a71fbe24aff876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 150/216] fix: font manager: listing of faces by family was
 case sensitive, unlike queries

[P39]
---
 blend2d/core/fontmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index b8e1e99..7ab3d8f 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -442,7 +442,7 @@ BL_API_IMPL BLResult bl_font_manager_query_faces_by_family_name(const BLFontMana
     BLFontManagerPrivateImpl::FamiliesMapNode* candidate = nullptr;
 
     if (prepare_query(self_impl, name, name_size, &query)) {
-      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.get(query);
+      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.nodes_by_hash_code(query.hash_code());
       while (node) {
         uint32_t family_diff = calc_family_name_diff(node->family_name.view(), query.name());
         if (candidate_diff > family_diff) {
-- 
2.43.0


From ff70afb6cccf5563019302e53bbc05069069cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 151/216] fix: font manager: a face was silently not added if
 other face had the same style and weight

[P39]
---
 blend2d/core/fontmanager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index 7ab3d8f..4961f74 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -78,11 +78,8 @@ static BL_INLINE size_t index_for_insertion(const BLFontFace* array, size_t size
   for (i = 0; i < size; i++) {
     BLFontFacePrivateImpl* storedFaceI = FontFaceInternal::get_impl(&array[i]);
     uint32_t stored_face_order = calc_face_order(storedFaceI);
-    if (stored_face_order >= face_order) {
-      if (stored_face_order == face_order)
-        return SIZE_MAX;
+    if (stored_face_order > face_order)
       break;
-    }
   }
 
   return i;
@@ -413,9 +410,10 @@ BL_API_IMPL BLResult bl_font_manager_add_face(BLFontManagerCore* self, const BLF
     self_impl->families_map.insert(families_node);
   }
   else {
-    size_t index = index_for_insertion(families_node->faces.data(), families_node->faces.size(), face_impl);
-    if (index == SIZE_MAX)
+    if (index_of_face(families_node->faces.data(), families_node->faces.size(), face_impl) != SIZE_MAX)
       return BL_SUCCESS;
+
+    size_t index = index_for_insertion(families_node->faces.data(), families_node->faces.size(), face_impl);
     BL_PROPAGATE(families_node->faces.insert(index, face->dcast()));
   }
 
-- 
2.43.0


From 62299e6a86d2eda48d820443d2bbdf392e08cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 152/216] fix: raster: the lookup table of a shared gradient
 was read without synchronisation

[P31]
---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 26a2b03..ea66154 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -477,7 +477,7 @@ static BL_INLINE bool init_non_solid_fetch_data(
         const void* lut_data = nullptr;
         uint32_t lut_size = gradient_info.lut_size(quality >= BL_GRADIENT_QUALITY_DITHER);
 
-        BLGradientLUT* lut = gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)];
+        BLGradientLUT* lut = bl_atomic_fetch_strong(&gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)]);
         if (lut)
           lut_data = lut->data();
 
-- 
2.43.0


From bbefbc5deb2611daa0a8b9bd81628bc431fc8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 153/216] fix: object: atomic content was published before it
 was completely stored

[P31]
---
 blend2d/core/object_p.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 7371afc..cdb3a00 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -545,8 +545,11 @@ static BL_NOINLINE bool bl_object_atomic_content_move(BLObjectCore* self, BLObje
 
   if (bl_atomic_compare_exchange(&self->_d.info.bits, &self_info, 1u)) {
     // We have successfully acquired the info so we can perform the move.
-    self->_d = other_d;
-    bl_atomic_thread_fence();
+    // The info must be stored last as it makes the content visible to other threads.
+    self->_d.u32_data[0] = other_d.u32_data[0];
+    self->_d.u32_data[1] = other_d.u32_data[1];
+    self->_d.u32_data[2] = other_d.u32_data[2];
+    bl_atomic_store_strong(&self->_d.info.bits, other_d.info.bits);
 
     other->_d = bl_object_defaults[other_d.raw_type()]._d;
     return true;
-- 
2.43.0


From 5e08939898de75d59f88ba2f634848451d39532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 154/216] fix: font face: character coverage was read
 non-atomically while other threads can be setting it

[P31]
---
 blend2d/core/fontface.cpp |  4 +++-
 blend2d/core/object_p.h   | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/fontface.cpp b/blend2d/core/fontface.cpp
index 88deaa6..c13e48c 100644
--- a/blend2d/core/fontface.cpp
+++ b/blend2d/core/fontface.cpp
@@ -309,7 +309,9 @@ BLResult bl_font_face_get_character_coverage(const BLFontFaceCore* self, BLBitSe
       return bl_bit_set_assign_move(out, &tmp_bit_set);
   }
 
-  return bl_bit_set_assign_weak(out, &self_impl->character_coverage);
+  BLBitSetCore character_coverage;
+  character_coverage._d = bl_object_atomic_content_get(&self_impl->character_coverage);
+  return bl_bit_set_assign_weak(out, &character_coverage);
 }
 
 bool bl_font_face_has_script_tag(const BLFontFaceCore* self, BLTag script_tag) noexcept {
diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index cdb3a00..be4ddee 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -523,6 +523,18 @@ static BL_INLINE bool bl_object_atomic_content_test(const BLObjectCore* self) no
   return bl_atomic_fetch_strong(&self->_d.info.bits) > 1u;
 }
 
+//! Returns a non-owning copy of the content of `self`, which must be valid (see `bl_object_atomic_content_test()`).
+//!
+//! Other threads could still be trying to move into `self`, so the info must be accessed atomically.
+static BL_INLINE BLObjectDetail bl_object_atomic_content_get(const BLObjectCore* self) noexcept {
+  BLObjectDetail d;
+  d.info.bits = bl_atomic_fetch_strong(&self->_d.info.bits);
+  d.u32_data[0] = self->_d.u32_data[0];
+  d.u32_data[1] = self->_d.u32_data[1];
+  d.u32_data[2] = self->_d.u32_data[2];
+  return d;
+}
+
 //! Moves `other` to `self` atomically.
 //!
 //! The `self` object must have been initialized by `bl_object_atomic_content_init()` or assigned by
-- 
2.43.0


From 0c9e16c7c62b10962386b20501382bb88a2fcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 155/216] fix: bit set: the cached cardinality of a shared
 const bit set was accessed without synchronisation

[P31]
---
 blend2d/core/bitset.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 0a2c072..7e928fe 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -339,7 +339,11 @@ static BL_NOINLINE BLResult init_dynamic_with_data(BLBitSetCore* self, BLObjectI
 //! If the returned value is zero it means that the cardinality is either not cached or zero. This means that zero
 //! is always an unreliable value, which cannot be trusted. The implementation in general resets cardinality to zero
 //! every time the BitSet is modified.
-static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept { return self->_d.u32_data[2]; }
+//!
+//! \note The cardinality is cached by a function that takes a const BitSet, so other threads could be caching it, too.
+static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept {
+  return bl_atomic_fetch_relaxed(&self->_d.u32_data[2]);
+}
 
 //! Resets cached cardinality to zero, which signalizes that it's not valid.
 static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept {
@@ -349,7 +353,17 @@ static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept
 
 //! Updates cached cardinality to `cardinality` after the cardinality has been calculated.
 static BL_INLINE void update_cached_cardinality(const BLBitSetCore* self, uint32_t cardinality) noexcept {
-  const_cast<BLBitSetCore*>(self)->_d.u32_data[2] = cardinality;
+  bl_atomic_store_relaxed(&const_cast<BLBitSetCore*>(self)->_d.u32_data[2], cardinality);
+}
+
+//! Returns a copy of `self`, which can be used by other threads that can be caching its cardinality.
+static BL_INLINE BLBitSetCore copy_shared(const BLBitSetCore* self) noexcept {
+  BLBitSetCore out;
+  out._d.u32_data[0] = self->_d.u32_data[0];
+  out._d.u32_data[1] = self->_d.u32_data[1];
+  out._d.u32_data[2] = bl_atomic_fetch_relaxed(&self->_d.u32_data[2]);
+  out._d.info = self->_d.info;
+  return out;
 }
 
 // bl::BitSet - Dynamic - Segment Utilities
@@ -1176,7 +1190,7 @@ BL_API_IMPL BLResult bl_bit_set_init_weak(BLBitSetCore* self, const BLBitSetCore
   BL_ASSERT(self != other);
   BL_ASSERT(other->_d.is_bit_set());
 
-  self->_d = other->_d;
+  self->_d = copy_shared(other)._d;
   return retain_instance(self);
 }
 
@@ -1226,8 +1240,9 @@ BL_API_IMPL BLResult bl_bit_set_assign_weak(BLBitSetCore* self, const BLBitSetCo
   BL_ASSERT(self->_d.is_bit_set());
   BL_ASSERT(other->_d.is_bit_set());
 
-  retain_instance(other);
-  return replace_instance(self, other);
+  BLBitSetCore tmp = copy_shared(other);
+  retain_instance(&tmp);
+  return replace_instance(self, &tmp);
 }
 
 BL_API_IMPL BLResult bl_bit_set_assign_deep(BLBitSetCore* self, const BLBitSetCore* other) noexcept {
-- 
2.43.0


From 1b16c512ff49655e9390ee81dff5e5a0870ff9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 156/216] fix: cmap format 4 glyph array zero is a missing
 glyph

[P20]
---
 blend2d/opentype/otcmap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index b757479..472ebd7 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -133,6 +133,10 @@ NewMatch:
             goto UndefinedGlyph;
 
           uc = PtrOps::offset(match, raw_offset)->value();
+
+          // Zero stored in the array means a missing glyph, `id_delta` is not added to it.
+          if (uc == 0)
+            goto UndefinedGlyph;
         }
 
         uc += PtrOps::offset(match, id_delta_array_offset)->value();
-- 
2.43.0


From 4fb621fcf8daee40c5ab47af405dbb2a8e6ad63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 157/216] fix: cmap formats 6 and 10 reject valid sub-tables

[P20]
---
 blend2d/opentype/otcmap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 472ebd7..ca4475b 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -447,10 +447,10 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       uint32_t first = sub_table->first();
       uint32_t count = sub_table->count();
 
-      if (!count || first + count > 0xFFFFu)
+      if (!count || first + count > 0x10000u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      if (length < sizeof(CMapTable::Format10) + count * 2u)
+      if (length < CMapTable::Format6::kBaseSize + count * 2u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       format_out = format;
@@ -481,7 +481,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       uint32_t first = sub_table->first();
       uint32_t count = sub_table->glyph_ids.count();
 
-      if (first >= Unicode::kCharMax || !count || count > Unicode::kCharMax || first + count > Unicode::kCharMax)
+      if (first > Unicode::kCharMax || !count || count > Unicode::kCharMax + 1u || first + count > Unicode::kCharMax + 1u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       if (length < sizeof(CMapTable::Format10) + count * 2u)
-- 
2.43.0


From 372352c11f82fbfccf0ef9d2a2ed1da291ca85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 158/216] fix: cmap formats 12 and 13 without groups read out
 of bounds

[P19]
---
 blend2d/opentype/otcmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index ca4475b..3432936 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -507,7 +507,7 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       uint32_t count = sub_table->groups.count();
-      if (count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
+      if (!count || count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       const CMapTable::Group* group_array = sub_table->groups.array();
-- 
2.43.0


From 1de62c50c6b89ce1b4c5ce9d15a8e4167ea1df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 159/216] fix: character coverage contains characters without a
 glyph

[P20]
---
 blend2d/opentype/otcmap.cpp | 83 ++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 3432936..fc85872 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -595,31 +595,42 @@ BLResult populate_character_coverage(const OTFaceImpl* ot_face_impl, BLBitSet* o
 
       const UInt16* last_char_array = sub_table->last_char_array();
       const UInt16* first_char_array = sub_table->first_char_array(num_seg);
+      const UInt16* id_offset_array = sub_table->id_offset_array(num_seg);
 
-      uint32_t range_start = 0;
-      uint32_t range_end = 0;
+      const uint8_t* data_end = reinterpret_cast<const uint8_t*>(sub_table) + (ot_face_impl->cmap.cmap_table.size - ot_face_impl->cmap.encoding.offset);
 
-      uint32_t i = 0;
-      while (i < entry_count) {
+      for (uint32_t i = 0; i < entry_count; i++) {
         uint32_t segment_start = uint32_t(first_char_array[i].value());
         uint32_t segment_end = uint32_t(last_char_array[i].value()) + 1;
 
-        i++;
+        const UInt16* id_offset_ptr = id_offset_array + i;
+        uint32_t id_delta = PtrOps::deoffset(id_offset_ptr, num_seg * 2u)->value();
+        uint32_t id_offset = id_offset_ptr->value();
 
-        if (segment_start == range_end) {
-          range_end = segment_end;
-          continue;
-        }
+        // Only add characters that map to a glyph - glyph zero means a missing glyph.
+        uint32_t range_start = segment_start;
+        for (uint32_t uc = segment_start; uc < segment_end; uc++) {
+          uint32_t glyph_id = uc;
 
-        if (range_start < range_end)
-          BL_PROPAGATE(set.add_range(range_start, range_end));
+          if (id_offset != 0) {
+            size_t raw_offset = size_t(uc - segment_start) * 2u + id_offset;
+            if (raw_offset + 2u > size_t(data_end - reinterpret_cast<const uint8_t*>(id_offset_ptr)))
+              glyph_id = 0;
+            else
+              glyph_id = PtrOps::offset(id_offset_ptr, raw_offset)->value();
+          }
 
-        range_start = segment_start;
-        range_end = segment_end;
-      }
+          bool is_missing = (id_offset != 0 && glyph_id == 0) || ((glyph_id + id_delta) & 0xFFFFu) == 0;
+          if (is_missing) {
+            if (range_start < uc)
+              BL_PROPAGATE(set.add_range(range_start, uc));
+            range_start = uc + 1;
+          }
+        }
 
-      if (range_start < range_end)
-        BL_PROPAGATE(set.add_range(range_start, range_end));
+        if (range_start < segment_end)
+          BL_PROPAGATE(set.add_range(range_start, segment_end));
+      }
 
       return set.commit();
     }
@@ -671,37 +682,31 @@ BLResult populate_character_coverage(const OTFaceImpl* ot_face_impl, BLBitSet* o
       const CMapTable::Group* group_array = sub_table->groups.array();
 
       uint32_t entry_count = ot_face_impl->cmap.encoding.entry_count;
-      if (!entry_count)
-        return BL_SUCCESS;
-
-      uint32_t range_start = 0;
-      uint32_t range_end = 0;
-
-      uint32_t i = 0;
-      while (i < entry_count) {
-        uint32_t segment_start = group_array[i].first();
-        uint32_t segment_end = group_array[i].last();
-
-        i++;
-
-        if (segment_end != 0xFFFFFFFFu)
-          segment_end++;
+      bool is_format12 = ot_face_impl->cmap_format == 12;
 
-        if (segment_start == range_end) {
-          range_end = segment_end;
+      for (uint32_t i = 0; i < entry_count; i++) {
+        uint32_t range_start = group_array[i].first();
+        uint32_t range_end = group_array[i].last() + 1u;
+        uint32_t glyph_id = group_array[i].glyph_id() & 0xFFFFu;
+
+        // Only add characters that map to a glyph - glyph zero means a missing glyph.
+        if (is_format12) {
+          uint32_t missing = range_start + ((0u - glyph_id) & 0xFFFFu);
+          while (missing < range_end) {
+            if (range_start < missing)
+              BL_PROPAGATE(set.add_range(range_start, missing));
+            range_start = missing + 1u;
+            missing += 0x10000u;
+          }
+        }
+        else if (!glyph_id) {
           continue;
         }
 
         if (range_start < range_end)
           BL_PROPAGATE(set.add_range(range_start, range_end));
-
-        range_start = segment_start;
-        range_end = segment_end;
       }
 
-      if (range_start < range_end)
-        BL_PROPAGATE(set.add_range(range_start, range_end));
-
       return set.commit();
     }
 
-- 
2.43.0


From 4f624ce3c08c1cdbb1e35ea56f6f3c736bee1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 160/216] fix: glyf contour that starts and ends off-curve
 doesn't end where it starts

[P20]
---
 blend2d/opentype/otglyf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 7a29096..b7f4a94 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -430,14 +430,14 @@ static BLResult BL_CDECL get_glyph_outlines(
 
             if (off_curve_start != SIZE_MAX) {
               BLPathImpl* out_impl = PathInternal::get_impl(out);
-              BLPoint final_pt = out_impl->vertex_data[off_curve_start];
 
+              // The first on-curve vertex, either explicit or implied, is the start of the contour.
+              BLPoint final_pt = out_impl->vertex_data[off_curve_start];
               out_impl->command_data[off_curve_start] = BL_PATH_CMD_MOVE;
 
               if (!(f & Simple::kOnCurvePoint)) {
                 BLPoint on_pt = (current_pt + initial_pt) * 0.5;
                 appender.add_vertex(BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * 0.5;
               }
 
               appender.add_vertex(BL_PATH_CMD_QUAD, initial_pt);
-- 
2.43.0


From 8302295598c0533076f11fa5f7e30286818a5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 161/216] fix: glyf contour that starts and ends off-curve
 doesn't end where it starts (SIMD)

[P20]
---
 blend2d/opentype/otglyfsimdimpl_p.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index ac77c05..d6b1f64 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -941,7 +941,6 @@ EmitSpline3Continue:
               if (f & kVecFlagOffCurve) {
                 Vec2xF64 on_pt = (current_pt + initial_pt) * half;
                 append_vertex(appender, BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * half;
               }
 
               appendVertex2x(appender, BL_PATH_CMD_QUAD, initial_pt, BL_PATH_CMD_ON, final_pt);
-- 
2.43.0


From 5f3e16b7af1109fb18cd2548d2939192833cc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 162/216] fix: glyf coordinate sizes overflow, which leads to
 out of bounds reads

[P19]
---
 blend2d/opentype/otglyf.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index b7f4a94..860c62d 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -294,12 +294,10 @@ static BLResult BL_CDECL get_glyph_outlines(
           constexpr uint32_t kOffCurveSplineMask = Simple::kOnCurvePoint | (Simple::kOnCurvePoint << 7);
 
           {
-            // Number of bytes required by both X and Y coordinates as a packed `(Y << 16) | X` value.
-            //
-            // NOTE: We know that the maximum number of contours of a single glyph is 32767, thus we can store both the
-            // number of X and Y vertices in a single unsigned 32-bit integer, as each vertex has 2 bytes maximum, which
-            // would be 65534.
-            size_t xy_coordinates_size = 0;
+            // Number of bytes required by X and Y coordinates, each sum can exceed 16 bits as the maximum number of
+            // vertices of a single glyph is 65536 and each vertex has 2 bytes maximum.
+            xCoordinatesSize = 0;
+            yCoordinatesSize = 0;
 
             // We parse flags one-by-one and calculate the size required by vertices by using our FLAG tables so we don't
             // have to do bounds checking during vertex decoding.
@@ -316,7 +314,8 @@ static BLResult BL_CDECL get_glyph_outlines(
               f = ((f << 7) | tt_flag) & 0xFFu;
               fDataPtr[i++] = uint8_t(f);
 
-              xy_coordinates_size += vertex_size;
+              xCoordinatesSize += vertex_size & 0xFFFFu;
+              yCoordinatesSize += vertex_size >> 16;
               off_curve_spline_count += uint32_t((f & kOffCurveSplineMask) == 0);
 
               // Most of flags are not repeated. Some contours have no repeated flags at all, so make this likely.
@@ -334,15 +333,13 @@ static BLResult BL_CDECL get_glyph_outlines(
 
               f = ((f << 7) | tt_flag) & 0xFFu;
 
-              xy_coordinates_size += uint32_t(n) * vertex_size;
+              xCoordinatesSize += n * (vertex_size & 0xFFFFu);
+              yCoordinatesSize += n * (vertex_size >> 16);
               off_curve_spline_count += n * size_t((f & Simple::kOnCurvePoint) == 0);
 
               MemOps::fill_small(fDataPtr + i, uint8_t(f), n);
               i += n;
             } while (i < tt_vertex_count);
-
-            xCoordinatesSize = xy_coordinates_size & 0xFFFFu;
-            yCoordinatesSize = xy_coordinates_size >> 16;
           }
 
           remaining_size = PtrOps::bytes_until(gPtr, gEnd);
-- 
2.43.0


From 8c6ffb91874cc9eb968e955b449e30b552bd43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 163/216] fix: glyf coordinate sizes overflow, which leads to
 out of bounds reads (SIMD)

[P19]
---
 blend2d/opentype/otglyfsimdimpl_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index d6b1f64..89e7412 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -472,8 +472,8 @@ SlowFlagsDecode:
 
             // Finally, calculate the size of x_coordinates[] and y_coordinates[] arrays.
             vSumXY += srli_u64<32>(vSumXY);
-            xCoordinatesSize = extract_u16<0>(vSumXY);
-            yCoordinatesSize = extract_u16<4>(vSumXY);
+            xCoordinatesSize = extract_u32<0>(vSumXY);
+            yCoordinatesSize = extract_u32<2>(vSumXY);
           }
 
           off_curve_spline_count = off_curve_spline_acc.get();
-- 
2.43.0


From eef88c0eb20493bd0dc9df5c172af7728fdfb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 164/216] fix: compound glyphs of a crafted font expand
 exponentially

[P19]
---
 blend2d/opentype/otglyf.cpp         | 4 ++++
 blend2d/opentype/otglyf_p.h         | 4 ++++
 blend2d/opentype/otglyfsimdimpl_p.h | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 860c62d..3805b48 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -206,6 +206,7 @@ static BLResult BL_CDECL get_glyph_outlines(
 
   PathAppender appender;
   size_t contour_count_total = 0;
+  uint32_t component_count = 0;
 
   for (;;) {
     size_t offset;
@@ -506,6 +507,9 @@ ContinueCompound:
           if (BL_UNLIKELY(of))
             goto InvalidData;
 
+          if (BL_UNLIKELY(++component_count > CompoundEntry::kMaxComponentCount))
+            goto InvalidData;
+
           flags = MemOps::readU16uBE(gPtr);
           glyph_id = MemOps::readU16uBE(gPtr + 2);
           if (BL_UNLIKELY(glyph_id >= ot_face_impl->face_info.glyph_count))
diff --git a/blend2d/opentype/otglyf_p.h b/blend2d/opentype/otglyf_p.h
index fd49901..0611098 100644
--- a/blend2d/opentype/otglyf_p.h
+++ b/blend2d/opentype/otglyf_p.h
@@ -125,6 +125,10 @@ namespace {
 struct CompoundEntry {
   enum : uint32_t { kMaxLevel = 16 };
 
+  // Maximum number of components of a single compound glyph, including all nested ones. It prevents crafted fonts
+  // from expanding exponentially.
+  static constexpr uint32_t kMaxComponentCount = 1024;
+
   const uint8_t* gPtr;
   size_t remaining_size;
   uint32_t compound_flags;
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index 89e7412..5c05a80 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -227,6 +227,7 @@ static BL_INLINE BLResult get_glyph_outlines_simd_impl(
 
   PathAppender appender;
   size_t contour_count_total = 0;
+  uint32_t component_count = 0;
 
   for (;;) {
     size_t offset;
@@ -1011,6 +1012,9 @@ ContinueCompound:
           if (BL_UNLIKELY(of))
             goto InvalidData;
 
+          if (BL_UNLIKELY(++component_count > CompoundEntry::kMaxComponentCount))
+            goto InvalidData;
+
           flags = MemOps::readU16uBE(gPtr);
           glyph_id = MemOps::readU16uBE(gPtr + 2);
           if (BL_UNLIKELY(glyph_id >= ot_face_impl->face_info.glyph_count))
-- 
2.43.0


From d33b9f9cb677c3341a973857f6db2a3a9d79a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 165/216] fix: path has uninitialized vertices after decoding
 an invalid glyph

[P19]
---
 blend2d/core/font.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..ccf925a 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -620,6 +620,25 @@ static BLResult BL_CDECL bl_font_dummy_path_sink(BLPathCore* path, const void* i
   return BL_SUCCESS;
 }
 
+// Outlines are decoded directly to `out`, which would end up with a partially decoded glyph if the data is invalid.
+static BLResult get_glyph_outlines_or_revert(
+  const BLFontFacePrivateImpl* face_impl,
+  BLGlyphId glyph_id,
+  const BLMatrix2D* transform,
+  BLPath* out,
+  size_t* contour_count_out,
+  bl::ScopedBuffer* tmp_buffer) noexcept {
+
+  size_t initial_size = out->size();
+  BLResult result = face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, transform, out, contour_count_out, tmp_buffer);
+
+  if (BL_UNLIKELY(result != BL_SUCCESS && out->size() > initial_size)) {
+    out->remove_range(BLRange{initial_size, SIZE_MAX});
+  }
+
+  return result;
+}
+
 BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphId glyph_id, const BLMatrix2D* user_transform, BLPathCore* out, BLPathSinkFunc sink, void* user_data) noexcept {
   using namespace bl::FontInternal;
   BL_ASSERT(self->_d.is_font());
@@ -637,7 +656,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphI
 
   bl::ScopedBufferTmp<BL_FONT_GET_GLYPH_OUTLINE_BUFFER_SIZE> tmp_buffer;
   BLGlyphOutlineSinkInfo sink_info;
-  BL_PROPAGATE(face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+  BL_PROPAGATE(get_glyph_outlines_or_revert(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
 
   if (!sink)
     return BL_SUCCESS;
@@ -675,7 +694,6 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
 
   uint32_t placement_type = glyph_run->placement_type;
   BLGlyphRunIterator it(*glyph_run);
-  auto get_glyph_outlines_func = face_impl->funcs.get_glyph_outlines;
 
   if (it.has_placement() && placement_type != BL_GLYPH_PLACEMENT_TYPE_NONE) {
     BLMatrix2D offset_transform(1.0, 0.0, 0.0, 1.0, final_transform.m20, final_transform.m21);
@@ -712,7 +730,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
         final_transform.m21 = px * offset_transform.m01 + py * offset_transform.m11 + oy;
 
         sink_info.glyph_index = it.index;
-        BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+        BL_PROPAGATE(get_glyph_outlines_or_revert(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
         BL_PROPAGATE(sink(out, &sink_info, user_data));
         it.advance();
 
@@ -729,7 +747,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
         final_transform.m21 = placement.x * offset_transform.m01 + placement.y * offset_transform.m11 + offset_transform.m21;
 
         sink_info.glyph_index = it.index;
-        BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+        BL_PROPAGATE(get_glyph_outlines_or_revert(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
         BL_PROPAGATE(sink(out, &sink_info, user_data));
         it.advance();
       }
@@ -738,7 +756,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
   else {
     while (!it.at_end()) {
       sink_info.glyph_index = it.index;
-      BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+      BL_PROPAGATE(get_glyph_outlines_or_revert(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
       BL_PROPAGATE(sink(out, &sink_info, user_data));
       it.advance();
     }
-- 
2.43.0


From 43503149b036bed3fdd2dda56cdb947294af79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 166/216] fix: CFF flex1 and hflex1 don't end at the coordinate
 they started at

[P20]
---
 blend2d/opentype/otcff.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 40096f6..cb337b6 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1537,16 +1537,14 @@ OnReturn:
               x5 = x4 + m.x_by_a(v_buf[8], v_buf[9]);
               y5 = y4 + m.y_by_a(v_buf[8], v_buf[9]);
 
-              double dx = bl_abs(v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8]);
-              double dy = bl_abs(v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9]);
-              if (dx > dy) {
-                px = x5 + m.x_by_x(v_buf[10]);
-                py = y5 + m.y_by_x(v_buf[10]);
-              }
-              else {
-                px = x5 + m.x_by_y(v_buf[10]);
-                py = y5 + m.y_by_y(v_buf[10]);
-              }
+              double dx = v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8];
+              double dy = v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9];
+              // The last point is given by a single coordinate, the other coordinate must match the starting point.
+              double dx6 = bl_abs(dx) > bl_abs(dy) ? v_buf[10] : -dx;
+              double dy6 = bl_abs(dx) > bl_abs(dy) ? -dy : v_buf[10];
+
+              px = x5 + m.x_by_a(dx6, dy6);
+              py = y5 + m.y_by_a(dx6, dy6);
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
               v_idx = 0;
@@ -1595,8 +1593,11 @@ OnReturn:
               y4 = y3 + m.y_by_x(v_buf[5]);
               x5 = x4 + m.x_by_a(v_buf[6], v_buf[7]);
               y5 = y4 + m.y_by_a(v_buf[6], v_buf[7]);
-              px = x5 + m.x_by_x(v_buf[8]);
-              py = y5 + m.y_by_x(v_buf[8]);
+
+              // The last point must have the same Y coordinate as the starting point.
+              double dy6 = -(v_buf[1] + v_buf[3] + v_buf[7]);
+              px = x5 + m.x_by_a(v_buf[8], dy6);
+              py = y5 + m.y_by_a(v_buf[8], dy6);
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
               v_idx = 0;
-- 
2.43.0


From e8ee3bcf40003670ba43a3d417c43356b9107a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 167/216] fix: CFF ifelse, index, and roll operators use wrong
 operands

[P20]
---
 blend2d/opentype/otcff.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index cb337b6..9d8934f 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -763,6 +763,11 @@ static void trace_char_string_op(const OTFaceImpl* ot_face_impl, Trace& trace, u
 // bl::OpenType::CFFImpl - Interpreter
 // ===================================
 
+// Operands are doubles that can be out of range of `int32_t`.
+static BL_INLINE int32_t int_from_operand(double value) noexcept {
+  return int32_t(bl_clamp(value, -2147483647.0, 2147483647.0));
+}
+
 static BL_INLINE bool find_glyph_in_range3(BLGlyphId glyph_id, const uint8_t* ranges, size_t n_ranges, uint32_t& fd) noexcept {
   constexpr size_t kRangeSize = 3;
   for (size_t i = n_ranges; i != 0; i >>= 1) {
@@ -1413,7 +1418,7 @@ OnVHCurveTo:
           }
 
           subr_index = local_subr_index;
-          subr_id = uint32_t(int32_t(v_buf[--v_idx]) + int32_t(subr_index->bias));
+          subr_id = uint32_t(int_from_operand(v_buf[--v_idx])) + uint32_t(subr_index->bias);
 
           if (subr_id < subr_index->entry_count) {
             goto OnSubRCall;
@@ -1432,7 +1437,7 @@ OnVHCurveTo:
           }
 
           subr_index = &cff_info.index[CFFData::kIndexGSubR];
-          subr_id = uint32_t(int32_t(v_buf[--v_idx]) + int32_t(subr_index->bias));
+          subr_id = uint32_t(int_from_operand(v_buf[--v_idx])) + uint32_t(subr_index->bias);
 
           if (subr_id < subr_index->entry_count)
             goto OnSubRCall;
@@ -1631,7 +1636,7 @@ OnReturn:
             // s1 s2 v1 v2 ifelse (12 22) out {v1 <= v2 ? s1 : s2}
             case kCSOpIfElse & 0xFFu: {
               BL_ASSERT(v_min_operands >= 4);
-              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] <= v_buf[v_idx - 1])];
+              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(!(v_buf[v_idx - 2] <= v_buf[v_idx - 1]))];
               v_idx -= 3;
               continue;
             }
@@ -1746,10 +1751,10 @@ OnReturn:
                 val_to_push = v_buf[v_idx - 2];
               }
               else {
-                // It will overflow if idx_value is greater than `v_idx - 1`, thus,
+                // It will overflow if idx_value is greater than `v_idx - 2`, thus,
                 // `index_to_read` would become a very large number that would not
                 // pass the condition afterwards.
-                size_t index_to_read = v_idx - 1 - size_t(unsigned(idx_value));
+                size_t index_to_read = size_t(v_idx) - 2u - size_t(unsigned(int_from_operand(idx_value)));
                 if (index_to_read < v_idx - 1) {
                   val_to_push = v_buf[index_to_read];
                 }
@@ -1761,8 +1766,8 @@ OnReturn:
 
             // n(N–1)...n0 N J roll (12 30) n((J–1) % N)...n0 n(N–1)...n(J % N)
             case kCSOpRoll & 0xFFu: {
-              unsigned int shift = unsigned(int(v_buf[--v_idx]));
-              unsigned int count = unsigned(int(v_buf[--v_idx]));
+              unsigned int shift = unsigned(int_from_operand(v_buf[--v_idx]));
+              unsigned int count = unsigned(int_from_operand(v_buf[--v_idx]));
 
               if (count > v_idx)
                 count = unsigned(v_idx);
@@ -1781,13 +1786,16 @@ OnReturn:
               if (shift == 0)
                 continue;
 
+              // Only the topmost `count` elements are rolled.
+              double* v_top = v_buf + (v_idx - count);
+
               double last = 0;
               uint32_t cur_idx = IntOps::negate(uint32_t(1));
               uint32_t base_idx = cur_idx;
 
               for (uint32_t i = 0; i < count; i++) {
                 if (cur_idx == base_idx) {
-                  last = v_buf[++cur_idx];
+                  last = v_top[++cur_idx];
                   base_idx = cur_idx;
                 }
 
@@ -1796,7 +1804,7 @@ OnReturn:
                   cur_idx -= count;
                 }
 
-                BLInternal::swap(v_buf[cur_idx], last);
+                BLInternal::swap(v_top[cur_idx], last);
               }
 
               continue;
@@ -1804,7 +1812,7 @@ OnReturn:
 
             // in I put (12 20)
             case kCSOpPut & 0xFFu: {
-              unsigned int s_idx = unsigned(int(v_buf[v_idx - 1]));
+              unsigned int s_idx = unsigned(int_from_operand(v_buf[v_idx - 1]));
               if (s_idx < kCFFStorageSize) {
                 s_buf[s_idx] = v_buf[v_idx - 2];
                 s_msk |= IntOps::lsb_bit_at<uint32_t>(s_idx);
@@ -1816,7 +1824,7 @@ OnReturn:
 
             // I get (12 21) out
             case kCSOpGet & 0xFFu: {
-              unsigned int s_idx = unsigned(int(v_buf[v_idx - 1]));
+              unsigned int s_idx = unsigned(int_from_operand(v_buf[v_idx - 1]));
 
               // When `s_idx == kCFFStorageSize` it points to `0.0` (the only value guaranteed to be set).
               // Otherwise we check the bit in `s_msk` and won't allow to get an uninitialized value that
-- 
2.43.0


From f2af1956fa56d9452df655fe05807bf7d930ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 168/216] fix: CFF glyph bounds are not flipped like bounds of
 TrueType glyphs

[P20]
---
 blend2d/opentype/otcff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 9d8934f..48fd550 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1979,9 +1979,9 @@ static BLResult BL_CDECL get_glyph_bounds(
       const BLBox& bounds = consumer.bounds;
       if (bounds.x0 <= bounds.x1 && bounds.y0 <= bounds.y1) {
         boxes[i].reset(Math::floor_to_int(bounds.x0),
-                       Math::floor_to_int(bounds.y0),
+                       Math::floor_to_int(-bounds.y1),
                        Math::ceil_to_int(bounds.x1),
-                       Math::ceil_to_int(bounds.y1));
+                       Math::ceil_to_int(-bounds.y0));
       }
       else {
         boxes[i].reset();
-- 
2.43.0


From 069d9e6048ad497c311365ea1dec516f8a54797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 169/216] fix: CFF index, dictionary, and FDSelect of a crafted
 font is read out of bounds

[P19]
---
 blend2d/opentype/otcff.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 48fd550..93acd4e 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -250,12 +250,12 @@ static BLResult read_index(const void* data, size_t data_size, uint32_t cff_vers
     return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
 
   uint32_t offset_size = MemOps::readU8(PtrOps::offset<const uint8_t>(data, header_size - 1));
+  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || (uint64_t(count) + 1u) * offset_size > data_size - header_size))
+    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+
   uint32_t offset_array_size = (count + 1) * offset_size;
   uint32_t index_size_including_offsets = header_size + offset_array_size;
 
-  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || index_size_including_offsets > data_size))
-    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
-
   const uint8_t* offset_array = PtrOps::offset<const uint8_t>(data, header_size);
   uint32_t offset = read_offset(offset_array, offset_size);
 
@@ -336,6 +336,10 @@ BLResult DictIterator::next(DictEntry& entry) noexcept {
   uint64_t fp_mask = 0;
 
   for (;;) {
+    // Dictionary that ends with values that are not followed by an operator is invalid.
+    if (BL_UNLIKELY(_data_ptr == _data_end))
+      return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+
     uint32_t b0 = *_data_ptr++;
 
     // Operators are encoded in range [0..21].
@@ -373,15 +377,15 @@ BLResult DictIterator::next(DictEntry& entry) noexcept {
                            : (251 * 256 - 108) - int(b0 * 256 + b1);
         }
         else if (b0 == 28) {
-          _data_ptr += 2;
-          if (BL_UNLIKELY(_data_ptr > _data_end))
+          if (BL_UNLIKELY(size_t(_data_end - _data_ptr) < 2u))
             return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+          _data_ptr += 2;
           v_int = MemOps::readI16uBE(_data_ptr - 2);
         }
         else if (b0 == 29) {
-          _data_ptr += 4;
-          if (BL_UNLIKELY(_data_ptr > _data_end))
+          if (BL_UNLIKELY(size_t(_data_end - _data_ptr) < 4u))
             return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+          _data_ptr += 4;
           v_int = MemOps::readI32uBE(_data_ptr - 4);
         }
         else {
@@ -2106,6 +2110,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
   uint32_t private_offset = 0;
   uint32_t private_length = 0;
   uint32_t lsubr_offset = 0;
+  uint32_t fd_select_data_offset = 0;
 
   CIDInfo cid {};
   BLArray<CFFData::IndexData> fd_subr_indexes;
@@ -2187,6 +2192,10 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     }
   }
 
+  if (BL_UNLIKELY(top_dict_index.count == 0)) {
+    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+  }
+
   {
     uint32_t offsets[2] = { top_dict_index.offset_at(0), top_dict_index.offset_at(1) };
     dict_iter.reset(top_dict_index.payload + offsets[0], offsets[1] - offsets[0]);
@@ -2331,7 +2340,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
 
       // The index contains offsets to the additional TopDicts. To speed up glyph processing we read
       // these TopDicts and build our own array that will be used during glyph metrics/outline decoding.
-      Index fd_array_index;
+      Index fd_array_index {};
       BL_PROPAGATE(read_index(cff.data + fd_array_offset, cff.size - fd_array_offset, cff_version, &fd_array_index));
       BL_PROPAGATE(fd_subr_indexes.reserve(fd_array_index.count));
 
@@ -2412,6 +2421,9 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
       if (BL_UNLIKELY(!isSupportedFDSelectFormat(cid.fd_select_format))) {
         return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
       }
+
+      // Only use FDSelect when both FDArray and FDSelect were validated.
+      fd_select_data_offset = fd_select_offset;
     }
   }
 
@@ -2441,7 +2453,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     char_string_index.count,
     0);
 
-  ot_face_impl->cff.fd_select_offset = cid.fd_select_offset;
+  ot_face_impl->cff.fd_select_offset = fd_select_data_offset;
   ot_face_impl->cff.fd_select_format = cid.fd_select_format;
   ot_face_impl->cff_fd_subr_indexes.swap(fd_subr_indexes);
 
-- 
2.43.0


From 016bacaf3d0abf4816bf5502a57689ce98821f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 170/216] fix: CFF dictionary values that are out of range of
 an offset

---
 blend2d/opentype/otcff.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 93acd4e..1aacb87 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -2085,6 +2085,11 @@ struct CIDInfo {
 // bl::OpenType::CFFImpl - Init
 // ============================
 
+// Dictionary values are doubles that can be out of range of `uint32_t`, which is never a valid offset.
+static BL_INLINE uint32_t uint32_from_value(double value) noexcept {
+  return value >= 0.0 && value <= 4294967295.0 ? uint32_t(value) : Traits::max_value<uint32_t>();
+}
+
 static BL_INLINE bool isSupportedFDSelectFormat(uint32_t format) noexcept {
   return format == 0 || format == 3;
 }
@@ -2209,7 +2214,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
           return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
         }
 
-        char_string_offset = uint32_t(dict_entry.values[0]);
+        char_string_offset = uint32_from_value(dict_entry.values[0]);
         break;
       }
 
@@ -2218,15 +2223,15 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
           return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
         }
 
-        private_offset = uint32_t(dict_entry.values[1]);
-        private_length = uint32_t(dict_entry.values[0]);
+        private_offset = uint32_from_value(dict_entry.values[1]);
+        private_length = uint32_from_value(dict_entry.values[0]);
         break;
       }
 
       case CFFTable::kDictOpTopROS: {
         if (dict_entry.count == 3) {
-          cid.ros[0] = uint32_t(dict_entry.values[0]);
-          cid.ros[1] = uint32_t(dict_entry.values[1]);
+          cid.ros[0] = uint32_from_value(dict_entry.values[0]);
+          cid.ros[1] = uint32_from_value(dict_entry.values[1]);
           cid.flags |= CIDInfo::kFlagIsCID;
         }
         break;
@@ -2234,7 +2239,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
 
       case CFFTable::kDictOpTopFDArray: {
         if (dict_entry.count == 1) {
-          cid.fd_array_offset = uint32_t(dict_entry.values[0]);
+          cid.fd_array_offset = uint32_from_value(dict_entry.values[0]);
           cid.flags |= CIDInfo::kFlagHasFDArray;
         }
         break;
@@ -2242,7 +2247,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
 
       case CFFTable::kDictOpTopFDSelect: {
         if (dict_entry.count == 1) {
-          cid.fd_select_offset = uint32_t(dict_entry.values[0]);
+          cid.fd_select_offset = uint32_from_value(dict_entry.values[0]);
           cid.flags |= CIDInfo::kFlagHasFDSelect;
         }
         break;
@@ -2291,7 +2296,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
               return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
             }
 
-            lsubr_offset = uint32_t(dict_entry.values[0]);
+            lsubr_offset = uint32_from_value(dict_entry.values[0]);
             break;
           }
         }
@@ -2373,8 +2378,8 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
                   return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
                 }
 
-                uint32_t offset = uint32_t(dict_entry.values[1]);
-                uint32_t length = uint32_t(dict_entry.values[0]);
+                uint32_t offset = uint32_from_value(dict_entry.values[1]);
+                uint32_t length = uint32_from_value(dict_entry.values[0]);
 
                 if (BL_UNLIKELY(offset < begin_data_offset || offset > cff.size || length > cff.size - offset)) {
                   return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
@@ -2391,7 +2396,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
                 }
 
                 // The local subr `offset` is relative to the `subr_base_offset`.
-                subr_offset = uint32_t(dict_entry.values[0]);
+                subr_offset = uint32_from_value(dict_entry.values[0]);
                 if (BL_UNLIKELY(subr_offset > cff.size - subr_base_offset)) {
                   return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
                 }
-- 
2.43.0


From 32afa2d25de47073a9e86184c1c7fb4979d02e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 171/216] fix: count of side bearings that don't have an
 advance underflows

[P20]
---
 blend2d/opentype/otmetrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otmetrics.cpp b/blend2d/opentype/otmetrics.cpp
index f71ca6b..8dc16a5 100644
--- a/blend2d/opentype/otmetrics.cpp
+++ b/blend2d/opentype/otmetrics.cpp
@@ -97,7 +97,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       if (!hmtx.fits(long_metric_data_size))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      size_t lsb_count = bl_min<size_t>((hmtx.size - long_metric_data_size) / 2u, long_metric_count - ot_face_impl->face_info.glyph_count);
+      size_t lsb_count = bl_min<size_t>((hmtx.size - long_metric_data_size) / 2u, ot_face_impl->face_info.glyph_count - long_metric_count);
       ot_face_impl->metrics.xmtx_table[BL_ORIENTATION_HORIZONTAL] = hmtx;
       ot_face_impl->metrics.long_metric_count[BL_ORIENTATION_HORIZONTAL] = uint16_t(long_metric_count);
       ot_face_impl->metrics.lsb_array_size[BL_ORIENTATION_HORIZONTAL] = uint16_t(lsb_count);
@@ -123,7 +123,7 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       if (!vmtx.fits(long_metric_data_size))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      size_t lsb_count = bl_min<size_t>((vmtx.size - long_metric_data_size) / 2u, long_metric_count - ot_face_impl->face_info.glyph_count);
+      size_t lsb_count = bl_min<size_t>((vmtx.size - long_metric_data_size) / 2u, ot_face_impl->face_info.glyph_count - long_metric_count);
       ot_face_impl->metrics.xmtx_table[BL_ORIENTATION_VERTICAL] = vmtx;
       ot_face_impl->metrics.long_metric_count[BL_ORIENTATION_VERTICAL] = uint16_t(long_metric_count);
       ot_face_impl->metrics.lsb_array_size[BL_ORIENTATION_VERTICAL] = uint16_t(lsb_count);
-- 
2.43.0


From 646e7a6d8212931d4ffed763aa542a6b03453e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 172/216] fix: shaping with a font that is not initialized, or
 that doesn't have advances, uses invalid memory

[P19]
---
 blend2d/core/font.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index ccf925a..b84ad11 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -414,6 +414,9 @@ BL_API_IMPL BLResult bl_font_shape(const BLFontCore* self, BLGlyphBufferCore* gb
   using namespace bl::FontInternal;
   BL_ASSERT(self->_d.is_font());
 
+  if (self->dcast().face().is_empty())
+    return bl_make_error(BL_ERROR_FONT_NOT_INITIALIZED);
+
   BL_PROPAGATE(bl_font_map_text_to_glyphs(self, gb, nullptr));
 
   bl::OpenType::OTFaceImpl* ot_face_impl = bl::FontFaceInternal::get_impl<bl::OpenType::OTFaceImpl>(&self->dcast().face());
@@ -467,9 +470,12 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
   if (BL_UNLIKELY(gb_impl->flags & BL_GLYPH_RUN_FLAG_UCS4_CONTENT))
     return bl_make_error(BL_ERROR_INVALID_STATE);
 
+  if (self->dcast().face().is_empty())
+    return bl_make_error(BL_ERROR_FONT_NOT_INITIALIZED);
+
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    BL_PROPAGATE(face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size));
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From 5d05740047a5e3ebf043a03855d6a7b591311f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 173/216] fix: font data doesn't return tables if one of the
 requested tags is not known

[P20]
---
 blend2d/core/fontdata.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/fontdata.cpp b/blend2d/core/fontdata.cpp
index 4091c03..dbcda62 100644
--- a/blend2d/core/fontdata.cpp
+++ b/blend2d/core/fontdata.cpp
@@ -155,7 +155,7 @@ static size_t BL_CDECL mem_get_tables_impl(const BLFontDataImpl* impl_, uint32_t
             size_t i = 0;
             while (i < n) {
               uint32_t table_id = FontTagData::table_tag_to_id(tags[i]);
-              if (table_id == FontTagData::kInvalidId)
+              if (table_id == FontTagData::kInvalidId || table_id_to_index[table_id] != 0xFF)
                 break;
               table_id_to_index[table_id] = uint8_t(i);
               i++;
@@ -175,6 +175,9 @@ static size_t BL_CDECL mem_get_tables_impl(const BLFontDataImpl* impl_, uint32_t
 
                 i = table_id_to_index[table_id];
                 if (i != 0xFF) {
+                  // Only consider the first table having the requested tag.
+                  table_id_to_index[table_id] = 0xFF;
+
                   uint32_t table_offset = table.offset();
                   uint32_t table_size = table.length();
 
@@ -184,9 +187,9 @@ static size_t BL_CDECL mem_get_tables_impl(const BLFontDataImpl* impl_, uint32_t
                   }
                 }
               }
-            }
 
-            return match_count;
+              return match_count;
+            }
           }
 
           // Linear search.
-- 
2.43.0


From 0712da6943b36a56477b7a69174753b9bf523f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 174/216] fix: cmap format 6 that has no padding is rejected

[P20]
---
 blend2d/opentype/otcmap_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcmap_p.h b/blend2d/opentype/otcmap_p.h
index df95594..9c6c745 100644
--- a/blend2d/opentype/otcmap_p.h
+++ b/blend2d/opentype/otcmap_p.h
@@ -102,7 +102,7 @@ struct CMapTable {
   };
 
   struct Format6 {
-    enum : uint32_t { kBaseSize = 12 };
+    enum : uint32_t { kBaseSize = 10 };
 
     UInt16 format;
     UInt16 length;
-- 
2.43.0


From 3868b00fb206007bffca56ffeb380c99d91e2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 175/216] fix: glyph buffer reads 32-bit glyph ids as if they
 were 16-bit

[P22]
---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..d4c7e27 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -282,7 +282,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From f3c958874c7abdf3e39738aff0e37ddd473dcaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 176/216] fix: kern: format of a group overlaps its flags, so
 class based kerning is processed as pairs (out of bounds read)

[P19]
---
 blend2d/opentype/otkern_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otkern_p.h b/blend2d/opentype/otkern_p.h
index caf73c8..16fbc01 100644
--- a/blend2d/opentype/otkern_p.h
+++ b/blend2d/opentype/otkern_p.h
@@ -173,11 +173,11 @@ struct KernGroup {
   }
 
   static BL_INLINE KernGroup make_referenced(uint32_t format, uint32_t flags, uintptr_t data_offset, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6), { data_offset } };
+    return KernGroup { flags | (format << 4) | (data_size << 6), { data_offset } };
   }
 
   static BL_INLINE KernGroup make_synthesized(uint32_t format, uint32_t flags, void* data_ptr, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
+    return KernGroup { flags | (format << 4) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
   }
 };
 
-- 
2.43.0


From 22f54866c3ef5e46669485fd7e19ec3f8ca96a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 177/216] fix: kern: format 3 is refused when its subtable has
 trailing data

[P19]
---
 blend2d/opentype/otkern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index fa1a0b7..dad4e07 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -295,7 +295,7 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
   uint32_t right_class_count = sub_table->right_class_count();
 
   uint32_t required_size = ot_face_impl->kern.header_size + uint32_t(sizeof(Format3)) + kern_value_count * 2u + glyph_count * 2u + left_class_count * right_class_count;
-  if (BL_UNLIKELY(required_size < data_size))
+  if (BL_UNLIKELY(required_size > data_size))
     return 0;
 
   const FWord* value_table = PtrOps::offset<const FWord>(sub_table, sizeof(Format3));
-- 
2.43.0


From 41633a914f6b24bc88e0e1fd56973c29a01caa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 178/216] fix: GSUB/GPOS: truncated script and feature lists,
 and out of range offsets are read out of bounds

[P19]
---
 blend2d/opentype/otlayout.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b476c5a..ff9a72e 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3595,7 +3595,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> feature_list_offsets(table.sub_table_unchecked(feature_list_offset));
     uint32_t count = feature_list_offsets->count();
 
-    if (count) {
+    if (count && feature_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = feature_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag feature_tag = array[i].tag();
@@ -3612,7 +3612,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> script_list_offsets(table.sub_table_unchecked(script_list_offset));
     uint32_t count = script_list_offsets->count();
 
-    if (count) {
+    if (count && script_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = script_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag script_tag = array[i].tag();
@@ -3648,7 +3648,7 @@ static Table<GSubGPosTable::ScriptTable> find_script_in_script_list(Table<Array1
     for (uint32_t i = 0; i < script_count; i++) {
       BLTag record_tag = script_list_array[i].tag();
       if (record_tag == script_tag || record_tag == default_script_tag) {
-        table_out = script_list_offsets.sub_table_unchecked(script_list_array[i].offset());
+        table_out = script_list_offsets.sub_table(script_list_array[i].offset());
         if (record_tag == script_tag) {
           break;
         }
@@ -3681,7 +3681,7 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
       if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
-        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table_unchecked(feature_offset));
+        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
         // Don't use a feature if its offset is out of bounds.
         if (BL_LIKELY(blFontTableFitsT<GSubGPosTable::FeatureTable>(feature_table))) {
@@ -3748,7 +3748,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
     return BL_SUCCESS;
   }
 
-  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table_unchecked(lang_sys_offset));
+  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table(lang_sys_offset));
   if (BL_UNLIKELY(!blFontTableFitsT<GSubGPosTable::LangSysTable>(lang_sys_table))) {
     return BL_SUCCESS;
   }
@@ -3761,7 +3761,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   }
 
   uint32_t feature_count = feature_list_offsets->count();
-  if (feature_list_offsets.size < 2u + feature_count * 2u) {
+  if (feature_list_offsets.size < 2u + feature_count * uint32_t(sizeof(TagRef16))) {
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From 2cae4968ad90f9b17bfc32ea926999e495755337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 179/216] fix: GSUB/GPOS: rules of context lookups are
 validated against a wrong size

[P19]
---
 blend2d/opentype/otlayout.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index ff9a72e..d7a2e1f 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -694,14 +694,14 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       Table<SequenceRule> rule = rule_set.sub_table(rule_offset);
       uint32_t glyph_count = rule->glyph_count();
       uint32_t lookup_record_count = rule->lookup_record_count();
-      uint32_t rule_table_size = 4u + (lookup_record_count + glyph_count - 1) * 2u;
-
-      if (!rule.fits(rule_table_size))
-        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
 
       if (glyph_count < 2)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid glyph_count (%u)", table_name, i, rule_index, glyph_count);
 
+      uint32_t rule_table_size = 4u + (glyph_count - 1u) * 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
@@ -989,6 +989,9 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
     const Offset16* rule_offset_array = rule_set->array();
+    if (!rule_set.fits(ChainedSequenceRule::kBaseSize))
+      return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, uint32_t(ChainedSequenceRule::kBaseSize));
+
     OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - ChainedSequenceRule::kBaseSize};
 
     for (uint32_t rule_index = 0; rule_index < rule_count; rule_index++) {
@@ -1023,6 +1026,10 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
+      uint32_t rule_table_size = lookup_record_offset + 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       const GSubGPosTable::SequenceLookupRecord* lookup_record_array = PtrOps::offset<const GSubGPosTable::SequenceLookupRecord>(rule.data, lookup_record_offset + 2u);
       if (!validate_sequence_lookup_record_array(validator, lookup_record_array, lookup_record_count))
         return false;
-- 
2.43.0


From 700033f2022ea1e8259efd6d72c7509c6b4b4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 180/216] fix: GSUB/GPOS: null rule sets of context lookups are
 dereferenced

[P19]
---
 blend2d/opentype/otlayout.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index d7a2e1f..5815982 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -873,6 +873,9 @@ static BL_INLINE bool match_sequence_format1(Table<GSubGPosTable::SequenceContex
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -906,6 +909,9 @@ static BL_INLINE bool match_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[class_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -1353,6 +1359,9 @@ static BL_INLINE bool match_chained_sequence_format1(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
@@ -1378,6 +1387,9 @@ static BL_INLINE bool match_chained_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
+
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
-- 
2.43.0


From 64bee0d9003122ebcb734f3e49f7d5cb7b05a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 181/216] fix: GSUB/GPOS: null coverage offsets and empty input
 of chained context lookups are accepted

[P19]
---
 blend2d/opentype/otlayout.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 5815982..91e7382 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -599,9 +599,6 @@ static BL_NOINLINE bool validate_coverage_tables(
 
   for (uint32_t i = 0; i < count; i++) {
     uint32_t offset = offsets[i].value();
-    if (!offset)
-      continue;
-
     if (!offset_range.contains(offset))
       return validator.fail("%s.%s[%u] offset (%u) is out of range [%u:%u]", table_name, coverage_name, i, offset, offset_range.start, offset_range.end);
 
@@ -1096,6 +1093,9 @@ static BL_NOINLINE bool validate_chained_context_format3(ValidationContext& vali
     return validator.invalid_table_size(table_name, table.size, input_glyph_count_offset + 2u);
 
   uint32_t input_glyph_count = table.readU16(input_glyph_count_offset);
+  if (!input_glyph_count)
+    return validator.invalid_field_value(table_name, "input_glyph_count", input_glyph_count);
+
   uint32_t lookahead_glyph_count_offset = input_glyph_count_offset + 2u + input_glyph_count * 2u;
 
   if (!table.fits(lookahead_glyph_count_offset + 2u))
-- 
2.43.0


From 9b1d877d3578911380a5157294d37323b03382f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 182/216] fix: GSUB: size of a ligature set is not checked
 before its ligatures are

[P19]
---
 blend2d/opentype/otlayout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 91e7382..e2a4057 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1772,6 +1772,9 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
       return validator.fail("%s.ligature_set[%u] overflows the table size by [%u] bytes", table_name, i, ligature_set_header_size - ligature_set.size);
 
     const Offset16* ligature_offset_array = ligature_set->array();
+    if (!ligature_set.fits(6u))
+      return validator.fail("%s.ligature_set[%u] is truncated (size=%u, required=%u)", table_name, i, ligature_set.size, 6u);
+
     OffsetRange ligature_offset_range{ligature_set_header_size, ligature_set.size - 6u};
 
     for (uint32_t ligature_index = 0; ligature_index < ligature_count; ligature_index++) {
@@ -1816,7 +1819,7 @@ static BL_INLINE bool match_ligature(
 
     // This is safe - a single Ligature is 4 bytes + GlyphId[ligature_glyph_count - 1]. MaxLigOffset is 4 bytes less than
     // the end to include the header, so we only have to include `ligature_glyph_count * 2u` to verify we won't read beyond.
-    BL_ASSERT_VALIDATED(ligature_offset + ligature_glyph_count * 2u <= ligature_offsets.size - 4u);
+    BL_ASSERT_VALIDATED(ligature_offset + ligature_glyph_count * 2u <= ligature_offsets.size - 2u);
 
     uint32_t glyph_index = 1;
     for (;;) {
-- 
2.43.0


From 40c8da225aa2bb6c2ca5086b0dab1055e3a097b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 183/216] fix: GSUB/GPOS: context lookups don't advance and run
 past the end of the glyph buffer

[P19]
---
 blend2d/opentype/otlayout.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index e2a4057..d6bfe00 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2007,7 +2007,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format2(GSubConte
       // TODO: [OpenType] Context MATCH
     }
 
-    glyph_in_end++;
+    glyph_in_ptr++;
   }
 
   return BL_SUCCESS;
@@ -2018,7 +2018,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
   BL_ASSERT_VALIDATED(table.fits());
 
   uint32_t glyph_count = table->glyph_count();
-  if (glyph_count < scope.size())
+  if (glyph_count > scope.size())
     return BL_SUCCESS;
 
   uint32_t lookup_record_count = table->lookup_record_count();
@@ -2043,7 +2043,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
       bl_unused(lookup_record_array, lookup_record_count);
     }
     glyph_in_ptr++;
-  } while (glyph_in_ptr != glyphInEndMinusN);
+  } while (glyph_in_ptr <= glyphInEndMinusN);
 
   return BL_SUCCESS;
 }
@@ -2867,7 +2867,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format1(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data();
+  const BLGlyphId* glyph_ptr = ctx.glyph_data() + scope.index();
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
   do {
@@ -2875,6 +2875,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format1(GPosConte
     if (match_sequence_format1<kCovFmt>(table, rule_set_count, glyph_range, cov_it, glyph_ptr, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
+    glyph_ptr++;
   } while (++index != end);
 
   return BL_SUCCESS;
@@ -2900,6 +2901,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format2(GPosConte
     if (match_sequence_format2<kCovFmt, kCDFmt>(table, rule_set_count, glyph_range, cov_it, cd_it, glyph_ptr, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
+    glyph_ptr++;
   } while (++index != end);
 
   return BL_SUCCESS;
@@ -2938,7 +2940,8 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format3(GPosConte
     if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_ptr, glyph_count)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
-  } while (++index != end_minus_glyph_count);
+    glyph_ptr++;
+  } while (++index <= end_minus_glyph_count);
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 80833092992e275e07054b4cff1023af4e2d71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 184/216] fix: GSUB: reverse chained substitution reads past
 the end of the glyph buffer and ignores the last glyph

[P19]
---
 blend2d/opentype/otlayout.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index d6bfe00..d1d96c2 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2259,11 +2259,15 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type8_format1(GSubConte
   uint32_t subst_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
   BL_ASSERT_VALIDATED(table.fits(subst_offset + 2u));
 
+  // Bail if the buffer is too small for this chained context substitution.
+  if (ctx.size() <= lookahead_glyph_count)
+    return BL_SUCCESS;
+
   // Restrict scope in a way so we would never underflow/overflow glyph buffer when matching backtrack/lookahead glyphs.
-  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count - 1u);
+  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count);
 
-  // Bail if the buffer or the scope is too small for this chained context substitution.
-  if (ctx.size() < lookahead_glyph_count || scope.index() >= scope.end())
+  // Bail if the scope is too small for this chained context substitution.
+  if (scope.index() >= scope.end())
     return BL_SUCCESS;
 
   uint32_t subst_glyph_count = table.readU16(subst_offset);
-- 
2.43.0


From 208385dde1ee5bf1f675e2ca37a5bc9bc81d3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 185/216] fix: GPOS: validation of a pair set doesn't consider
 its header

[P19]
---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index d1d96c2..b4849d8 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2639,7 +2639,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     Table<GPosTable::PairSet> pair_set(table.sub_table(pair_set_offset));
 
     uint32_t pair_value_count = pair_set->pair_value_count();
-    uint32_t pair_set_size = pair_value_count * value_record_size;
+    uint32_t pair_set_size = 2u + pair_value_count * value_record_size;
 
     if (!pair_set.fits(pair_set_size))
       return validator.invalid_table_size("PairSet", pair_set.size, pair_set_size);
@@ -2719,7 +2719,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format1(GPosConte
 
         const GPosTable::PairSet* pair_set = PtrOps::offset<const GPosTable::PairSet>(table.data, pair_set_offset);
         uint32_t pair_set_count = pair_set->pair_value_count();
-        BL_ASSERT_VALIDATED(pair_set_count * value_record_size <= table.size - pair_set_offset);
+        BL_ASSERT_VALIDATED(pair_set_count * value_record_size <= table.size - pair_set_offset - 2u);
 
         const Int16* p = reinterpret_cast<const Int16*>(
           binary_search_glyph_id_in_var_struct<UInt16>(
-- 
2.43.0


From c223f0f13b156499bfc6a63713a0ec44c984dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 186/216] fix: GSUB/GPOS: validation of lookups accepts an
 invalid type, and mishandles extension and truncated lookups

[P19]
---
 blend2d/opentype/otlayout.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b4849d8..579474e 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3290,6 +3290,9 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.invalid_table_size(table_name, lookup_list.size, lookup_list_size);
 
   uint32_t lookup_offset = lookup_list->array()[lookup_index].value();
+  if (!lookup_list.fits(GSubGPosTable::LookupTable::kBaseSize))
+    return validator.invalid_table_size(table_name, lookup_list.size, GSubGPosTable::LookupTable::kBaseSize);
+
   OffsetRange lookup_offset_range{lookup_list_size, lookup_list.size - GSubGPosTable::LookupTable::kBaseSize};
 
   if (!lookup_offset_range.contains(lookup_offset))
@@ -3297,11 +3300,11 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
       table_name, lookup_index, lookup_offset, lookup_offset_range.start, lookup_offset_range.end);
 
   Table<GSubGPosTable::LookupTable> lookup_table(lookup_list.sub_table(lookup_offset));
-  uint32_t lookup_type = lookup_table->lookup_type();
+  uint32_t lookup_table_type = lookup_table->lookup_type();
 
   // Reject unknown lookup Type+Format combinations (lookup_type 0 and values above lookup_max_value are invalid).
-  if (lookup_type - 1u > uint32_t(lookup_info.lookup_max_value))
-    return validator.fail("%s[%u] invalid lookup type (%u)", table_name, lookup_index, lookup_type);
+  if (lookup_table_type - 1u >= uint32_t(lookup_info.lookup_max_value))
+    return validator.fail("%s[%u] invalid lookup type (%u)", table_name, lookup_index, lookup_table_type);
 
   uint32_t sub_table_count = lookup_table->sub_table_offsets.count();
   const Offset16* sub_table_offsets = lookup_table->sub_table_offsets.array();
@@ -3310,7 +3313,10 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   if (!lookup_table.fits(lookup_table_size))
     return validator.fail("%s[%u] truncated (size=%u, required=%u)", table_name, lookup_index, lookup_table.size, lookup_table_size);
 
-  uint32_t sub_table_min_size = lookup_type == lookup_info.extension_type ? 8u : 6u;
+  uint32_t sub_table_min_size = lookup_table_type == lookup_info.extension_type ? 8u : 6u;
+  if (!lookup_table.fits(sub_table_min_size))
+    return validator.invalid_table_size(table_name, lookup_table.size, sub_table_min_size);
+
   OffsetRange sub_table_offset_range{lookup_table_size, lookup_table.size - sub_table_min_size};
 
   uint32_t ext_previous_lookup_type = 0u;
@@ -3322,6 +3328,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
         table_name, lookup_index, sub_table_index, sub_table_offset, sub_table_offset_range.start, sub_table_offset_range.end);
 
     Table<GSubGPosTable::LookupHeader> sub_table(lookup_table.sub_table(sub_table_offset));
+    uint32_t lookup_type = lookup_table_type;
     uint32_t lookup_format = sub_table->format();
 
     uint32_t lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
@@ -3332,7 +3339,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
       uint32_t ext_lookup_format = ext_sub_table->format();
       uint32_t ext_sub_table_offset = ext_sub_table->offset();
 
-      if (!ext_previous_lookup_type && lookup_type != ext_previous_lookup_type)
+      if (ext_previous_lookup_type && lookup_type != ext_previous_lookup_type)
         return validator.fail("%s[%u].sub_table[%u] has a different type (%u) than a previous extension (%u)",
           table_name, lookup_index, sub_table_index, lookup_type, ext_previous_lookup_type);
 
@@ -3344,7 +3351,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
           table_name, lookup_index, sub_table_index, lookup_type, ext_lookup_format);
 
       sub_table = ext_sub_table.sub_table(ext_sub_table_offset);
-      if (!sub_table.fits())
+      if (!sub_table.fits(6u))
         return validator.fail("%s[%u].sub_table[%u] of extension type points to a truncated table (size=%u required=%u)",
           table_name, lookup_index, sub_table_index);
 
@@ -3484,7 +3491,7 @@ static BLResult BL_CDECL apply_lookups(const BLFontFaceImpl* face_impl, BLGlyphB
 
       const GSubGPosLookupInfo::TypeInfo& lookup_type_info = lookup_info.type_info[lookup_type];
       uint32_t lookup_table_min_size = lookup_type == kLookupExtension ? 8u : 6u;
-      BL_ASSERT_VALIDATED(lookup_table.fits(lookup_table_min_size + lookup_entry_count * 2u));
+      BL_ASSERT_VALIDATED(lookup_table.fits(GSubGPosTable::LookupTable::kBaseSize + lookup_entry_count * 2u));
 
       // Only used in Debug builds when `BL_ASSERT_VALIDATED` is enabled.
       bl_unused(lookup_table_min_size);
-- 
2.43.0


From 8b8ccb23f7af3e6fe626adb31ca5b76de71972dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 187/216] fix: GSUB: multiple substitution only accepts
 truncated tables, writes before its buffer and loses its output

[P19]
---
 blend2d/opentype/otlayout.cpp        | 98 +++++++++++++---------------
 blend2d/opentype/otlayoutcontext_p.h | 19 +++++-
 2 files changed, 62 insertions(+), 55 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 579474e..f458879 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1555,7 +1555,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
     uint32_t sequence_length = sequence->count();
     uint32_t sequence_table_size = 2u + sequence_length * 2u;
 
-    if (sequence.fits(sequence_table_size))
+    if (!sequence.fits(sequence_table_size))
       return validator.fail("%s.sequence[%u] is truncated (size=%u, required=%u)", table_name, i, sequence.size, sequence_table_size);
   }
 
@@ -1565,84 +1565,78 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 // bl::OpenType::LayoutImpl - GSUB - Lookup Type #2 - Multiple Substitution Lookup
 // ===============================================================================
 
-// TODO: [OpenType] [SECURITY] What if the glyph contains kSeqMask???
 template<uint32_t kCovFmt, typename ApplyScope>
 static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubContext& ctx, Table<GSubTable::MultipleSubst1> table, ApplyScope scope, LookupFlags flags, const CoverageTableIterator& cov_it) noexcept {
   BL_ASSERT(scope.end() <= ctx.size());
   BL_ASSERT_VALIDATED(table.fits());
 
-  constexpr BLGlyphId kSequenceMarker = 0x80000000u;
-
-  BLGlyphId* glyph_in_ptr = ctx.glyph_data() + scope.index();
-  BLGlyphId* glyph_in_end = ctx.glyph_data() + scope.end();
+  size_t scope_index = scope.index();
+  size_t scope_end = scope.end();
 
   // Cannot apply a lookup if there is no data to be processed.
-  BL_ASSERT(glyph_in_ptr != glyph_in_end);
+  BL_ASSERT(scope_index != scope_end);
 
   uint32_t sequence_set_count = table->sequence_offsets.count();
   BL_ASSERT_VALIDATED(table.fits(GSubTable::MultipleSubst1::kBaseSize + sequence_set_count * 2u));
 
-  size_t replaced_glyph_count = 0;
-  size_t replaced_sequence_size = 0;
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
-  do {
-    BLGlyphId glyph_id = glyph_in_ptr[0];
-    if (glyph_range.contains(glyph_id)) {
-      uint32_t coverage_index;
-      if (cov_it.find<kCovFmt>(glyph_id, coverage_index) && coverage_index < sequence_set_count) {
-        uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
-        BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+  // Returns the sequence that replaces the given glyph or null if the glyph is not replaced.
+  auto find_sequence = [&](BLGlyphId glyph_id) noexcept -> const UInt16* {
+    uint32_t coverage_index;
+    if (!glyph_range.contains(glyph_id) || !cov_it.find<kCovFmt>(glyph_id, coverage_index) || coverage_index >= sequence_set_count)
+      return nullptr;
 
-        uint32_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-        BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
+    uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
+    BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+    BL_ASSERT_VALIDATED(sequence_offset + MemOps::readU16uBE(table.data + sequence_offset) * 2u <= table.size - 2u);
 
-        glyph_in_ptr[0] = sequence_offset | kSequenceMarker;
-        replaced_glyph_count++;
-        replaced_sequence_size += sequence_length;
-      }
+    return table.data_as<UInt16>(sequence_offset);
+  };
+
+  const BLGlyphId* glyph_in_ptr = ctx.glyph_data();
+  const BLGlyphInfo* info_in_ptr = ctx.info_data();
+  size_t size_before = ctx.size();
+
+  size_t replaced_glyph_count = 0;
+  size_t replaced_sequence_size = 0;
+
+  for (size_t i = scope_index; i < scope_end; i++) {
+    const UInt16* sequence = find_sequence(glyph_in_ptr[i]);
+    if (sequence) {
+      replaced_glyph_count++;
+      replaced_sequence_size += sequence[0].value();
     }
-  } while (scope.is_range() && ++glyph_in_ptr != glyph_in_end);
+  }
 
   // Not a single match if zero.
   if (!replaced_glyph_count)
     return BL_SUCCESS;
 
-  // We could be only processing a range withing the work buffer, thus it's not safe to reuse `glyph_in_ptr`.
-  glyph_in_ptr = ctx.glyph_data() + ctx.size();
+  // The output always goes to another buffer as sequences could be both shorter and longer than the replaced glyph.
+  BL_PROPAGATE(ctx.prepare_output_buffer(size_before - replaced_glyph_count + replaced_sequence_size));
 
-  BLGlyphId* glyph_in_start = ctx.glyph_data();
-  BLGlyphInfo* info_in_ptr = ctx.info_data() + ctx.size();
+  BLGlyphId* glyph_out_ptr = ctx.glyph_data();
+  BLGlyphInfo* info_out_ptr = ctx.info_data();
 
-  size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
-  BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
+  // Second loop applies all matches.
+  for (size_t i = 0; i < size_before; i++) {
+    const UInt16* sequence = i >= scope_index && i < scope_end ? find_sequence(glyph_in_ptr[i]) : nullptr;
 
-  BLGlyphId* glyph_out_ptr = ctx.glyph_data() + size_after;
-  BLGlyphInfo* info_out_ptr = ctx.info_data() + size_after;
-
-  // Second loop applies all matches that were found and marked.
-  do {
-    BLGlyphId glyph_id = *--glyph_in_ptr;
-    *--glyph_out_ptr = glyph_id;
-    *--info_out_ptr = *--info_in_ptr;
-
-    if (glyph_id & kSequenceMarker) {
-      size_t sequence_offset = glyph_id & ~kSequenceMarker;
-      size_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-      const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
-
-      glyph_out_ptr -= sequence_length;
-      info_out_ptr -= sequence_length;
-
-      while (sequence_length) {
-        sequence_length--;
-        glyph_out_ptr[sequence_length] = sequence_data[sequence_length].value();
-        info_out_ptr[sequence_length] = *info_in_ptr;
+    if (sequence) {
+      uint32_t sequence_length = sequence[0].value();
+      for (uint32_t j = 0; j < sequence_length; j++) {
+        *glyph_out_ptr++ = sequence[j + 1u].value();
+        *info_out_ptr++ = info_in_ptr[i];
       }
     }
-  } while (glyph_in_ptr != glyph_in_start);
+    else {
+      *glyph_out_ptr++ = glyph_in_ptr[i];
+      *info_out_ptr++ = info_in_ptr[i];
+    }
+  }
 
-  BL_ASSERT(glyph_out_ptr == ctx.glyph_data());
+  BL_ASSERT(glyph_out_ptr == ctx.glyph_data() + ctx.size());
   return BL_SUCCESS;
 }
 
diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index a04a0c6..e8d2e94 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -167,6 +167,8 @@ struct GSubContextPrimary : public GSubContext {
   //! \{
 
   BLGlyphBufferPrivateImpl* _gbd;
+  //! Maximum number of glyphs the buffer is allowed to grow to.
+  size_t _max_size;
   GSubContextNested _nested;
 
   //! \}
@@ -186,6 +188,7 @@ struct GSubContextPrimary : public GSubContext {
 
     // Initialize GSubContextPrimary.
     _gbd = gbd;
+    _max_size = 16384u + gbd->size * 64u;
     _nested.init(gbd);
   }
 
@@ -202,11 +205,21 @@ struct GSubContextPrimary : public GSubContext {
     GSubContextPrimary* self = static_cast<GSubContextPrimary*>(self_);
     BLGlyphBufferPrivateImpl* gbd = self->_gbd;
 
+    // Each lookup can replace a single glyph by thousands of glyphs, don't let the buffer to grow exponentially.
+    if (size > self->_max_size)
+      return bl_make_error(BL_ERROR_GLYPH_SUBSTITUTION_TOO_LARGE);
+
     BL_PROPAGATE(gbd->ensure_buffer(1, 0, size));
-    gbd->get_glyph_data_ptrs(1, &self->_work_buffer.glyph_data, &self->_work_buffer.info_data);
-    self->_work_buffer.size = size;
-    self->_work_buffer.capacity = gbd->capacity[1];
     gbd->flip();
+    gbd->get_glyph_data_ptrs(0, &gbd->content, &gbd->info_data);
+    gbd->size = size;
+    gbd->placement_data = nullptr;
+    gbd->glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+
+    self->_work_buffer.glyph_data = gbd->content;
+    self->_work_buffer.info_data = gbd->info_data;
+    self->_work_buffer.size = size;
+    self->_work_buffer.capacity = gbd->capacity[0];
 
     return BL_SUCCESS;
   }
-- 
2.43.0


From e19087f8fdb7b06da14a0b100e9a1599c8a0e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 188/216] fix: glyf: SIMD decoder reads flags beyond the end of
 the glyph data

[P19]
---
 blend2d/opentype/otglyfsimdimpl_p.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index 5c05a80..fab9087 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -368,6 +368,11 @@ static BL_INLINE BLResult get_glyph_outlines_simd_impl(
               {
                 size_t n = bl_min<size_t>(tt_vertex_count - i, 16u);
 
+                // A flag that repeats zero times consumes two bytes, so `tt_vertex_count` doesn't limit how many bytes all
+                // flags take. Use the slow loop, which checks every byte it reads, if there are not enough bytes for `n` flags.
+                if (BL_UNLIKELY(PtrOps::bytes_until(gPtr, gEnd) < n))
+                  goto SlowFlagsDecode;
+
                 Vec16xU8 vp = loadu<Vec16xU8>(overflow_flags_predicate + 16u - n);
                 Vec16xU8 vf = swizzlev_u8(convert_flags(loadu<Vec16xU8>(gPtr - 16 + n), vConvertFlagsPredicate, v0x3030), vp);
 
-- 
2.43.0


From 470b3b9d908b12c50b926640f086b29ebbe6524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 189/216] fix: CFF: a charstring that draws before the first
 moveto produces an invalid path

[P19]
---
 blend2d/opentype/otcff.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 1aacb87..4e7592e 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -441,6 +441,19 @@ enum CSFlags : uint32_t {
   kCSFlagPathOpen  = 0x02  // Path is open (set after the first 'MoveTo').
 };
 
+// A mask of operators that construct a path and that must be preceded by a 'MoveTo' operator.
+static constexpr uint32_t kCSPathOpMask =
+  (1u <<  5) | // rlineto.
+  (1u <<  6) | // hlineto.
+  (1u <<  7) | // vlineto.
+  (1u <<  8) | // rrcurveto.
+  (1u << 24) | // rcurveline.
+  (1u << 25) | // rlinecurve.
+  (1u << 26) | // vvcurveto.
+  (1u << 27) | // hhcurveto.
+  (1u << 30) | // vhcurveto.
+  (1u << 31);  // hvcurveto.
+
 enum CSOpCode : uint32_t {
   // We use the same notation as used by ADOBE specifications:
   //
@@ -1042,6 +1055,10 @@ OnOperator:
         continue;
       }
 
+      // Every subpath must begin with one of the 'MoveTo' operators.
+      if (BL_UNLIKELY(((kCSPathOpMask >> b0) & 1u) && !(execution_flags & kCSFlagPathOpen)))
+        goto InvalidData;
+
       switch (b0) {
         // Push Number (2's Complement Int16)
         // ----------------------------------
@@ -1498,6 +1515,10 @@ OnReturn:
             continue;
           }
 
+          // Flex operators also require a preceding 'MoveTo'.
+          if (BL_UNLIKELY(b0 >= (kCSOpHFlex & 0xFFu) && b0 <= (kCSOpFlex1 & 0xFFu) && !(execution_flags & kCSFlagPathOpen)))
+            goto InvalidData;
+
           // NOTE: CSOpCode enumeration uses escaped values, what we have in
           // `b0` is an unescaped value. It's much easier in terms of resulting
           // machine code to clear the escape sequence in the constant (kCSOp...)
-- 
2.43.0


From 519bdbcdccaf188c703d0744efc616edd5b6176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 190/216] fix: glyf: SIMD decoder produces invalid commands
 when the reserved flag bit is set

[P19]
---
 blend2d/opentype/otglyfsimdimpl_p.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index fab9087..c3694fd 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -131,8 +131,10 @@ struct OffCurveSplineAcc {
 // To an internal representation used by SIMD code:
 //
 //   [Repeat|!OnCurve|OnCurve|0|!YSame|!XSame|YByte|XByte]
-static BL_INLINE Vec16xU8 convert_flags(const Vec16xU8& vf, const Vec16xU8& vConvertFlagsPredicate, const Vec16xU8& v0x3030) noexcept {
-  Vec16xU8 a = swizzlev_u8(vConvertFlagsPredicate, vf);
+// NOTE: The index passed to `swizzlev_u8` is masked as its most significant bit, which is reserved in TrueType flags,
+// would otherwise zero the result.
+static BL_INLINE Vec16xU8 convert_flags(const Vec16xU8& vf, const Vec16xU8& vConvertFlagsPredicate, const Vec16xU8& v0x3030, const Vec16xU8& v0x0F0F) noexcept {
+  Vec16xU8 a = swizzlev_u8(vConvertFlagsPredicate, vf & v0x0F0F);
   Vec16xU8 b = srli_u16<2>((vf & v0x3030));
   return a ^ b;
 }
@@ -374,7 +376,7 @@ static BL_INLINE BLResult get_glyph_outlines_simd_impl(
                   goto SlowFlagsDecode;
 
                 Vec16xU8 vp = loadu<Vec16xU8>(overflow_flags_predicate + 16u - n);
-                Vec16xU8 vf = swizzlev_u8(convert_flags(loadu<Vec16xU8>(gPtr - 16 + n), vConvertFlagsPredicate, v0x3030), vp);
+                Vec16xU8 vf = swizzlev_u8(convert_flags(loadu<Vec16xU8>(gPtr - 16 + n), vConvertFlagsPredicate, v0x3030, v0x0F0F), vp);
 
                 RepeatFlagMask repeat_flag_mask = calc_repeat_flag_mask(vf);
                 Vec16xU8 quad_splines = (alignr_u128<15>(vf, vPrevFlags) + vf) & v0x8080;
-- 
2.43.0


From 6603e78ba6b06acb24ea952809dca0c9d02aee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 191/216] fix: glyph buffer: invalid text was never reported by
 flags

[P22]
---
 blend2d/core/glyphbuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d4c7e27..47359ed 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -125,6 +125,8 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  d->flags = 0;
+
   while (reader.has_next()) {
     uint32_t uc;
     uint32_t cluster = uint32_t(reader.native_index(src));
@@ -142,7 +144,6 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
-- 
2.43.0


From 0f8cfaac85003e999288f2e3dc27e5cf0bcb01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 192/216] fix: glyph buffer: setting a new content kept
 placements of the previous one

[P22]
---
 blend2d/core/glyphbuffer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index 47359ed..c92d2b1 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -84,6 +84,12 @@ static BL_INLINE BLGlyphInfo bl_glyph_info_from_cluster(const T& cluster) noexce
   return BLGlyphInfo { uint32_t(cluster), 0 };
 }
 
+// Discards placements of the previous content as they don't apply to the new one.
+static BL_INLINE void bl_internal_glyph_buffer_data_reset_placement(BLGlyphBufferPrivateImpl* d) noexcept {
+  d->placement_data = nullptr;
+  d->glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+}
+
 template<typename T>
 static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBufferPrivateImpl* d, const T* src, size_t size, intptr_t advance) noexcept {
   uint32_t* glyph_data = d->content;
@@ -95,6 +101,8 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBuf
     src = bl::PtrOps::offset(src, advance);
   }
 
+  bl_internal_glyph_buffer_data_reset_placement(d);
+
   d->size = size;
   d->flags = 0;
   return BL_SUCCESS;
@@ -109,6 +117,8 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_latin1_text(BLGlyphB
     info_data[i] = bl_glyph_info_from_cluster(i);
   }
 
+  bl_internal_glyph_buffer_data_reset_placement(d);
+
   d->size = size;
   d->flags = 0;
 
@@ -125,6 +135,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
+  bl_internal_glyph_buffer_data_reset_placement(d);
   d->flags = 0;
 
   while (reader.has_next()) {
-- 
2.43.0


From 8d9d974386ef52f1b1197970211a56dd9772ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 193/216] fix: array: items of an array of objects were never
 released

[P10]
---
 blend2d/core/array.cpp  |  6 +++++-
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 67020c3..041a74a 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,13 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  // Items of external data belong to the owner of the data.
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
+
   return ObjectInternal::free_impl(impl);
 }
 
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From f54566f8b2acb7481f1015d7fbaf1869bac57af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 194/216] fix: async rendering: text that could not be set or
 shaped by a worker was rendered from stale data or dropped without an error
 flag

[P11]
---
 blend2d/raster/renderjobproc_p.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/renderjobproc_p.h b/blend2d/raster/renderjobproc_p.h
index 3f48d91..bade2b5 100644
--- a/blend2d/raster/renderjobproc_p.h
+++ b/blend2d/raster/renderjobproc_p.h
@@ -158,13 +158,20 @@ static void process_fill_text_job(WorkData* work_data, RenderJob_TextOp* job) no
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
@@ -218,13 +225,20 @@ static void process_stroke_text_job(WorkData* work_data, RenderJob_TextOp* job)
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
-- 
2.43.0


From 08b4ab3b2084b42efa06f8ab03a22efc9b53af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 195/216] fix: string: formatting that didn't fit and then
 failed to allocate lost the null terminator or the content of the string

[P11]
---
 blend2d/core/string.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index b79a405..56e1695 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -645,13 +645,16 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
   va_list ap_copy;
   va_copy(ap_copy, ap);
 
-  if ((remaining & mutable_msk) >= 64) {
+  // Only appends format into the buffer of the string as the content must be kept if the allocation below fails.
+  if (bl_modify_op_is_append(op) && (remaining & mutable_msk) >= 64) {
     // vsnprintf() expects null terminator to be included in the size of the buffer.
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
 
-    if (BL_UNLIKELY(fmt_result < 0))
+    if (BL_UNLIKELY(fmt_result < 0)) {
+      dst[index] = '\0';
       return bl_make_error(BL_ERROR_INVALID_VALUE);
+    }
 
     output_size = size_t(unsigned(fmt_result));
     if (BL_LIKELY(output_size <= remaining)) {
@@ -661,6 +664,8 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    dst[index] = '\0';
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From 85d33bb86f01898217f11ff70554dadd822ad33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 196/216] fix: async rendering: the image of a pixel aligned
 mask was retained by a command and never released

[P10]
---
 blend2d/raster/rastercontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ea66154..2436cf7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3206,6 +3206,8 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
 
   return enqueue_command(ctx_impl, command, qy0, ds.fetch_data, [&](RenderCommand* command) noexcept {
     ObjectInternal::retain_impl<RCMode::kMaybe>(command->_payload.box_mask_a.mask_image_i.ptr);
+    command->add_flags(RenderCommandFlags::kRetainsMaskImageData);
+    ctx_impl->worker_mgr->_command_appender.mark_fetch_data();
   });
 }
 
-- 
2.43.0


From a355b763ff7836ec139672d58fe3769c9d45812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 197/216] fix: context: the dash array of the current stroke
 options was never released

[P10]
---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 2436cf7..0d03948 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4507,7 +4507,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
   // over all of them and release resources they hold.
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
-- 
2.43.0


From bc6d03f3cf6cf1200259cf04a45286b8cafe6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 198/216] fix: async rendering: the dash array of stroked
 commands was never released

[P10]
---
 blend2d/raster/rastercontext.cpp | 18 +++++++++++++++++-
 blend2d/raster/rastercontext_p.h |  3 +++
 blend2d/raster/statedata_p.h     |  2 ++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 0d03948..ff72a6e 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1039,6 +1039,17 @@ static BL_INLINE void release_batch_fetch_data(BLRasterContextImpl* ctx_impl, Re
   }
 }
 
+static BL_INLINE void destroy_shared_stroke_states(BLRasterContextImpl* ctx_impl) noexcept {
+  SharedBaseStrokeState* state = ctx_impl->shared_stroke_state_list;
+  ctx_impl->shared_stroke_state_list = nullptr;
+
+  while (state) {
+    SharedBaseStrokeState* prev_state = state->prev_state;
+    bl_call_dtor(*state);
+    state = prev_state;
+  }
+}
+
 static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) noexcept {
   WorkerManager& mgr = ctx_impl->worker_mgr();
   if (mgr.has_pending_commands()) {
@@ -1079,6 +1090,7 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
     }
 
     release_batch_fetch_data(ctx_impl, batch->_command_list.first());
+    destroy_shared_stroke_states(ctx_impl);
 
     mgr._allocator.clear();
     mgr.init_first_batch();
@@ -2396,6 +2408,8 @@ static BL_INLINE SharedBaseStrokeState* get_shared_stroke_state(BLRasterContextI
     shared_stroke_state = ctx_impl->worker_mgr().allocate_from_shared_data_pool<SharedBaseStrokeState>(state_size);
 
     bl_call_ctor(*shared_stroke_state, ctx_impl->stroke_options(), ctx_impl->approximation_options());
+    shared_stroke_state->prev_state = ctx_impl->shared_stroke_state_list;
+    ctx_impl->shared_stroke_state_list = shared_stroke_state;
 
     if (transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
       const BLMatrix2D& ut = ctx_impl->user_transform();
@@ -4491,8 +4505,10 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   flush_impl(ctx_impl, BL_CONTEXT_FLUSH_SYNC);
 
   // Release Threads/WorkerContexts used by asynchronous rendering.
-  if (ctx_impl->worker_mgr_initialized)
+  if (ctx_impl->worker_mgr_initialized) {
+    destroy_shared_stroke_states(ctx_impl);
     ctx_impl->worker_mgr->reset();
+  }
 
   // Release PipeRuntime.
   if (bl_test_flag(ctx_impl->pipe_provider.runtime()->runtime_flags(), Pipeline::PipeRuntimeFlags::kIsolated))
diff --git a/blend2d/raster/rastercontext_p.h b/blend2d/raster/rastercontext_p.h
index e5e1d92..d4c9be3 100644
--- a/blend2d/raster/rastercontext_p.h
+++ b/blend2d/raster/rastercontext_p.h
@@ -106,6 +106,8 @@ public:
   bl::RasterEngine::SharedFillState* shared_fill_state;
   //! An actual shared stroke-state (asynchronous rendering).
   bl::RasterEngine::SharedBaseStrokeState* shared_stroke_state;
+  //! All stroke states shared with asynchronous rendering that were not destroyed yet.
+  bl::RasterEngine::SharedBaseStrokeState* shared_stroke_state_list;
 
   //! Arena allocator used to allocate base data structures required by `BLRasterContextImpl`.
   bl::ArenaAllocator base_zone;
@@ -159,6 +161,7 @@ public:
       saved_state{},
       shared_fill_state{},
       shared_stroke_state{},
+      shared_stroke_state_list{},
       base_zone(8192, 16, static_data, static_size),
       fetch_data_pool(),
       saved_state_pool(),
diff --git a/blend2d/raster/statedata_p.h b/blend2d/raster/statedata_p.h
index deb8b40..99cc665 100644
--- a/blend2d/raster/statedata_p.h
+++ b/blend2d/raster/statedata_p.h
@@ -150,6 +150,8 @@ struct SharedFillState {
 
 //! A shared stroke state is used by asynchronous rendering context and can be shared between multiple rendering jobs.
 struct SharedBaseStrokeState {
+  //! The state created before this one, all of them are destroyed when the batch that uses them has been rendered.
+  SharedBaseStrokeState* prev_state {};
   BLStrokeOptions stroke_options;
   BLApproximationOptions approximation_options;
 
-- 
2.43.0


From 3b8789420996d9aebe089100bc0c09041d2c54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 199/216] fix: raster: edges built before an allocation failed
 could stay in the edge storage and be used after their memory was released

[P11]
---
 blend2d/raster/edgestorage_p.h | 8 ++++++++
 blend2d/raster/workdata_p.h    | 3 +--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/edgestorage_p.h b/blend2d/raster/edgestorage_p.h
index 9d50a5f..02228a5 100644
--- a/blend2d/raster/edgestorage_p.h
+++ b/blend2d/raster/edgestorage_p.h
@@ -117,6 +117,14 @@ public:
     }
   }
 
+  //! Clears all bands regardless of the bounding box, which is incomplete when building of edges has failed.
+  BL_INLINE void clear_all_bands() noexcept {
+    for (size_t i = 0; i < _band_count; i++)
+      _band_edges[i].reset();
+
+    reset_bounding_box();
+  }
+
   BL_INLINE bool is_empty() const noexcept { return _bounding_box.y0 == Traits::max_value<int>(); }
 
   BL_INLINE EdgeList<CoordT>* band_edges() const noexcept { return _band_edges; }
diff --git a/blend2d/raster/workdata_p.h b/blend2d/raster/workdata_p.h
index 136d1b3..cf50d58 100644
--- a/blend2d/raster/workdata_p.h
+++ b/blend2d/raster/workdata_p.h
@@ -124,8 +124,7 @@ public:
   }
 
   BL_INLINE void revert_edge_builder() noexcept {
-    edge_builder.merge_bounding_box();
-    edge_storage.clear();
+    edge_storage.clear_all_bands();
     work_zone.restore_state(work_state);
   }
 
-- 
2.43.0


From 776f9a82fc9cf868bde6e38b08619bfadcbaa2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 200/216] fix: raster: a path to stroke that could not be
 transformed left no error flag

[P11]
---
 blend2d/raster/rastercontextops_p.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontextops_p.h b/blend2d/raster/rastercontextops_p.h
index 5f5e490..fcf0cb7 100644
--- a/blend2d/raster/rastercontextops_p.h
+++ b/blend2d/raster/rastercontextops_p.h
@@ -111,7 +111,11 @@ static BL_INLINE BLResult add_stroked_path_edges(
 
   if (accessor.stroke_options().transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
     a->clear();
-    BL_PROPAGATE(a->add_path(*path, accessor.user_transform()));
+
+    BLResult path_result = a->add_path(*path, accessor.user_transform());
+    if (BL_UNLIKELY(path_result != BL_SUCCESS)) {
+      return work_data->accumulate_error(path_result);
+    }
 
     path = a;
     a = &work_data->tmp_path[3];
-- 
2.43.0


From 3ed0c999ec01bdd2f1a9bc0a360eafb44a5cc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 201/216] fix: file read and write continue behind the
 transferred bytes after a partial transfer

[P36]
---
 blend2d/core/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..0cd127c 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -743,7 +743,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
   size_t bytes_read = 0;
 
   for (;;) {
-    SignedSizeT result = read(fd, buffer, n - bytes_read);
+    SignedSizeT result = read(fd, static_cast<uint8_t*>(buffer) + bytes_read, n - bytes_read);
     if (result < 0) {
       int e = errno;
       *bytes_read_out = bytes_read;
@@ -779,7 +779,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
   size_t bytes_written = 0;
 
   for (;;) {
-    SignedSizeT result = write(fd, buffer, n - bytes_written);
+    SignedSizeT result = write(fd, static_cast<const uint8_t*>(buffer) + bytes_written, n - bytes_written);
     if (result < 0) {
       int e = errno;
       *bytes_written_out = bytes_written;
-- 
2.43.0


From 13a8c2d65cbcb3a2234ca2fc681ff00585718f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 202/216] fix: modification time of files combines seconds and
 microseconds in the same unit

[P36]
---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 0cd127c..1c2b492 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -579,7 +579,7 @@ static BL_INLINE int64_t unix_micro_from_file_time(const T& t) noexcept {
 #if defined(BL_FS_STAT_MTIMESPEC)
 template<typename T>
 static BL_INLINE int64_t unix_micro_from_time_spec(const T& ts) noexcept {
-  return int64_t(uint64_t(ts.tv_sec) + (uint32_t(ts.tv_nsec) / 1000u));
+  return int64_t(uint64_t(ts.tv_sec) * 1000000u + (uint32_t(ts.tv_nsec) / 1000u));
 }
 #endif
 
-- 
2.43.0


From e917aabe579904184e93d531b8b03397ddccfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 203/216] fix: thread pool no longer pools an undefined thread
 when the first creation of an all-or-nothing request fails

[P32]
---
 blend2d/threading/threadpool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 71edf27..5337432 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -285,7 +285,10 @@ static uint32_t bl_thread_pool_acquire_threads_internal(BLInternalThreadPool* se
           self->acquired_thread_count += n_acquired;
           bl_atomic_fetch_add_strong(&self->created_thread_count, n_acquired);
 
-          bl_thread_pool_release_threads_internal(self, threads, n_acquired);
+          if (n_acquired) {
+            bl_thread_pool_release_threads_internal(self, threads, n_acquired);
+          }
+
           *reason_out = reason;
           return 0;
         }
-- 
2.43.0


From b6683f380bdb999d3e1b62feefee36ed43c3ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 204/216] fix: image create_from_data and convert indexed the
 format table by an unverified format

[P37]
---
 blend2d/core/image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 9d6df93..0c40650 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -71,10 +71,14 @@ static BL_INLINE BLResultT<intptr_t> calc_stride_from_create_params(int w, int h
 
 // Make sure that the external image won't cause any kind of overflow in rasterization and texture fetching.
 static BL_INLINE BLResult check_create_from_data_params(int w, int h, BLFormat format, intptr_t stride) noexcept {
+  // Verify the format first as it's used to index the format information table.
+  if (BL_UNLIKELY(!check_size_and_format(w, h, format)))
+    return BL_ERROR_INVALID_VALUE;
+
   uint32_t minimum_stride = stride_for_width(uint32_t(w), bl_format_info[format].depth);
   uintptr_t bytes_per_line = uintptr_t(bl_abs(stride));
 
-  if (BL_UNLIKELY(!check_size_and_format(w, h, format) || bytes_per_line < minimum_stride))
+  if (BL_UNLIKELY(bytes_per_line < minimum_stride))
     return BL_ERROR_INVALID_VALUE;
 
   // Make sure that the image height multiplied by stride is not greater than 2^31 - this makes sure that we
@@ -430,6 +434,9 @@ BL_API_IMPL BLResult bl_image_convert(BLImageCore* self, BLFormat format) noexce
   bl::FormatExt src_format = bl::FormatExt(self_impl->format);
   bl::FormatExt dst_format = bl::FormatExt(format);
 
+  if (BL_UNLIKELY(uint32_t(format) > BL_FORMAT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (dst_format == src_format)
     return BL_SUCCESS;
 
-- 
2.43.0


From d9c66c971a22a52700ba2e0bc236b1d824e7866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 205/216] fix: path reserve and modify_op of a huge count
 overflowed the size computation and corrupted memory

[P37]
---
 blend2d/core/path.cpp | 2 +-
 blend2d/core/path_p.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 71e280b..3ba1aff 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -400,7 +400,7 @@ BL_API_IMPL BLResult bl_path_modify_op(BLPathCore* self, BLModifyOp op, size_t n
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
   size_t remaining = self_impl->capacity - index;
-  size_t size_after = index + n;
+  size_t size_after = bl::IntOps::uadd_saturate(index, n);
 
   if ((n | immutable_msk) > remaining) {
     *cmd_data_out = nullptr;
diff --git a/blend2d/core/path_p.h b/blend2d/core/path_p.h
index 24d2a1f..ef114de 100644
--- a/blend2d/core/path_p.h
+++ b/blend2d/core/path_p.h
@@ -37,7 +37,9 @@ static BL_INLINE constexpr size_t capacity_from_impl_size(BLObjectImplSize impl_
 }
 
 static BL_INLINE constexpr BLObjectImplSize impl_size_from_capacity(size_t capacity) noexcept {
-  return BLObjectImplSize(sizeof(BLPathPrivateImpl) + capacity * (sizeof(BLPoint) + 1));
+  // Saturate a size that is not representable - it's then refused by the allocation.
+  constexpr size_t kMaxCapacity = (BL_OBJECT_IMPL_MAX_SIZE - sizeof(BLPathPrivateImpl)) / (sizeof(BLPoint) + 1);
+  return BLObjectImplSize(capacity <= kMaxCapacity ? sizeof(BLPathPrivateImpl) + capacity * (sizeof(BLPoint) + 1) : SIZE_MAX);
 }
 
 //! \}
-- 
2.43.0


From e2c4b0938f1c71103c43d980c7d09eae732e6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 206/216] fix: gradient reserve of a huge count overflowed the
 size computation and corrupted memory

[P37]
---
 blend2d/core/gradient_p.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/gradient_p.h b/blend2d/core/gradient_p.h
index 9265eb3..6be54e6 100644
--- a/blend2d/core/gradient_p.h
+++ b/blend2d/core/gradient_p.h
@@ -152,7 +152,9 @@ namespace GradientInternal {
 //! \{
 
 static BL_INLINE_CONSTEXPR BLObjectImplSize impl_size_from_capacity(size_t n) noexcept {
-  return BLObjectImplSize(sizeof(BLGradientPrivateImpl) + n * sizeof(BLGradientStop));
+  // Saturate a size that is not representable - it's then refused by the allocation.
+  constexpr size_t kMaxCapacity = (BL_OBJECT_IMPL_MAX_SIZE - sizeof(BLGradientPrivateImpl)) / sizeof(BLGradientStop);
+  return BLObjectImplSize(n <= kMaxCapacity ? sizeof(BLGradientPrivateImpl) + n * sizeof(BLGradientStop) : SIZE_MAX);
 }
 
 static BL_INLINE_CONSTEXPR size_t capacity_from_impl_size(BLObjectImplSize impl_size) noexcept {
-- 
2.43.0


From 370db550c7ee0566a6aef404753ea0e5aec035b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 207/216] fix: context set_style_with_mode indexed the
 transformation table by an unverified mode

[P37]
---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ff72a6e..4d7fa89 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -681,7 +681,7 @@ static BLResult BL_CDECL set_style_impl(BLContextImpl* base_impl, BLContextStyle
     return disable_style_impl(ctx_impl, slot);
   }
 
-  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE || style_type > BL_OBJECT_TYPE_MAX_STYLE))
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE || style_type > BL_OBJECT_TYPE_MAX_STYLE || transform_mode > BL_CONTEXT_STYLE_TRANSFORM_MODE_MAX_VALUE))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   ContextFlags context_flags = ctx_impl->context_flags;
-- 
2.43.0


From 0a4bb9c9025f7744e2130959fd8ae5a69a454998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 208/216] fix: array and string insertions at an index past the
 end corrupted memory instead of failing like replace does

[P37]
---
 blend2d/core/array.cpp  | 8 ++++++++
 blend2d/core/string.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 041a74a..0d5372c 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -791,6 +791,11 @@ BL_API_IMPL BLResult bl_array_insert_op(BLArrayCore* self, size_t index, size_t
   BLObjectType array_type = self->_d.raw_type();
   size_t item_size = item_size_from_array_type(array_type);
 
+  if (BL_UNLIKELY(index > u.size)) {
+    *data_out = nullptr;
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+  }
+
   size_t size_after = bl::IntOps::uadd_saturate(u.size, n);
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_instance_mutable(self));
 
@@ -1044,6 +1049,9 @@ BL_API_IMPL BLResult bl_array_insert_data(BLArrayCore* self, size_t index, const
   BL_ASSERT(self->_d.is_array());
 
   UnpackedData u = unpack(self);
+  if (BL_UNLIKELY(index > u.size))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   BLObjectType array_type = self->_d.raw_type();
   size_t item_size = item_size_from_array_type(array_type);
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_instance_mutable(self));
diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 56e1695..254dda4 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -152,6 +152,9 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
 
 static BLResult insert_and_copy(BLStringCore* self, size_t index, const char* str, size_t n) noexcept {
   UnpackedData u = unpack_data(self);
+  if (BL_UNLIKELY(index > u.size))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   size_t end_index = index + n;
   size_t size_after = IntOps::uadd_saturate(u.size, n);
   size_t immutable_msk = IntOps::bool_as_mask<size_t>(!is_instance_mutable(self));
@@ -525,6 +528,11 @@ BL_API_IMPL BLResult bl_string_insert_op(BLStringCore* self, size_t index, size_
   BL_ASSERT(self->_d.is_string());
 
   UnpackedData u = unpack_data(self);
+  if (BL_UNLIKELY(index > u.size)) {
+    *data_out = nullptr;
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+  }
+
   size_t size_after = bl::IntOps::uadd_saturate(u.size, n);
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_instance_mutable(self));
 
-- 
2.43.0


From eddcb9d11293c547355ec0acfd5bdb165d79bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 209/216] fix: stroking a closed figure degenerated to a single
 point failed an assertion in debug builds

[P37]
---
 blend2d/core/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 3ba1aff..d043fe7 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1959,8 +1959,8 @@ static BLResult join_reversed_figure(PathAppender& dst, PathIterator src) noexce
       return BL_SUCCESS;
     }
 
-    // We just encountered CLOSE followed by ON (reversed).
-    BL_ASSERT(src.cmd[0] == BL_PATH_CMD_ON);
+    // We just encountered CLOSE followed by ON (reversed), or by MOVE if the whole figure is a single closed point.
+    BL_ASSERT(src.cmd[0] == BL_PATH_CMD_ON || src.cmd[0] == BL_PATH_CMD_MOVE);
     src--;
   }
 
-- 
2.43.0


From b4af33dad0fdf6e9bf82159f3b63e17f7e05c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 210/216] fix: clip_to_rect with integer coordinates far
 outside of the clip box truncated them to int, which could extend the clip
 box past the target

[P37]
---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 4d7fa89..e5c932a 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2297,10 +2297,12 @@ Use64Bit:
     int64_t x1 = x0 + int64_t(rect->w);
     int64_t y1 = y0 + int64_t(rect->h);
 
-    b.x0 = int(bl_max<int64_t>(x0, ctx_impl->final_clip_box_i().x0));
-    b.y0 = int(bl_max<int64_t>(y0, ctx_impl->final_clip_box_i().y0));
-    b.x1 = int(bl_min<int64_t>(x1, ctx_impl->final_clip_box_i().x1));
-    b.y1 = int(bl_min<int64_t>(y1, ctx_impl->final_clip_box_i().y1));
+    // Clamp to both sides of the current ClipBox so the results are always representable by `int`.
+    const BLBoxI& clip_box = ctx_impl->final_clip_box_i();
+    b.x0 = int(bl_clamp<int64_t>(x0, clip_box.x0, clip_box.x1));
+    b.y0 = int(bl_clamp<int64_t>(y0, clip_box.y0, clip_box.y1));
+    b.x1 = int(bl_clamp<int64_t>(x1, clip_box.x0, clip_box.x1));
+    b.y1 = int(bl_clamp<int64_t>(y1, clip_box.y0, clip_box.y1));
   }
 
   if (b.x0 < b.x1 && b.y0 < b.y1) {
-- 
2.43.0


From 7aa730d4e44af13cdfeaa80149f5648a9a0b0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 211/216] fix: bilinear affine pattern fetcher overflowed the
 second sample position at the end of the coordinate range

[P37]
---
 blend2d/pipeline/reference/fetchgeneric_p.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/pipeline/reference/fetchgeneric_p.h b/blend2d/pipeline/reference/fetchgeneric_p.h
index 175d381..0696faf 100644
--- a/blend2d/pipeline/reference/fetchgeneric_p.h
+++ b/blend2d/pipeline/reference/fetchgeneric_p.h
@@ -432,8 +432,9 @@ struct FetchPatternAffineCtx {
   BL_INLINE uint32_t fracY() const noexcept { return uint32_t(px_py.y & 0xFFFFFFFFu) >> 24; }
 
   BL_INLINE Vec::u32x2 index(int32_t offX = 0, int32_t offY = 0) const noexcept {
-    int32_t x = int32_t(px_py.x >> 32) + offX;
-    int32_t y = int32_t(px_py.y >> 32) + offY;
+    // The offset is either 0 or 1, it must not overflow if the position is at the end of the representable range (PAD).
+    int32_t x = bl_min<int32_t>(int32_t(px_py.x >> 32), 0x7FFFFFFF - offX) + offX;
+    int32_t y = bl_min<int32_t>(int32_t(px_py.y >> 32), 0x7FFFFFFF - offY) + offY;
 
     // Step A - Handle a possible underflow (PAD).
     x = bl_max(x, minx_miny.x);
-- 
2.43.0


From 1b5e981a2b25f67262c5e5e137721d6d763fa3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 212/216] fix: kerning table applied after GPOS moved or
 replaced the placements that GPOS has set

[P21]
---
 blend2d/opentype/otkern.cpp | 42 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index dad4e07..fc0bf4c 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -11,6 +11,7 @@
 #include <blend2d/support/algorithm_p.h>
 #include <blend2d/support/memops_p.h>
 #include <blend2d/support/ptrops_p.h>
+#include <blend2d/support/scopedbuffer_p.h>
 
 namespace bl::OpenType {
 namespace KernImpl {
@@ -198,7 +199,7 @@ static BL_INLINE int32_t combine_kern_value(int32_t orig_val, int32_t new_val, i
 }
 
 // Kern SubTable Format 0 - Ordered list of kerning pairs.
-static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_data, size_t count, int32_t mask) noexcept {
   bl_unused(ot_face_impl);
 
   // Format0's `data_ptr` is not a pointer to the start of the table, instead it points to kerning pairs that are
@@ -217,9 +218,9 @@ static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = pair_data[index].value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_data[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_data[i] = combined;
     all_combined |= combined;
   }
 
@@ -227,7 +228,7 @@ static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Kern SubTable Format 2 - Simple NxM array of kerning values.
-static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_data, size_t count, int32_t mask) noexcept {
   typedef KernTable::Format2 Format2;
   typedef Format2::ClassTable ClassTable;
 
@@ -275,9 +276,9 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = PtrOps::offset<const FWord>(data_ptr, value_offset)->value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_data[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_data[i] = combined;
     all_combined |= combined;
   }
 
@@ -285,7 +286,7 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Kern SubTable Format 3 - Simple NxM array of kerning indexes.
-static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_data, size_t count, int32_t mask) noexcept {
   typedef KernTable::Format3 Format3;
 
   const Format3* sub_table = PtrOps::offset<const Format3>(data_ptr, ot_face_impl->kern.header_size);
@@ -322,9 +323,9 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = value_table[value_index].value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_data[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_data[i] = combined;
     all_combined |= combined;
   }
 
@@ -332,11 +333,10 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Applies the data calculated by apply_kern_formatN.
-static BL_INLINE void finish_kern(const OTFaceImpl* ot_face_impl, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count) noexcept {
-  bl_unused(ot_face_impl, glyph_data);
+static BL_INLINE void finish_kern(const OTFaceImpl* ot_face_impl, const int32_t* kern_data, BLGlyphPlacement* placement_data, size_t count) noexcept {
+  bl_unused(ot_face_impl);
   for (size_t i = 1; i < count; i++) {
-    placement_data[i - 1].advance += placement_data[i].placement;
-    placement_data[i].placement.reset();
+    placement_data[i - 1].advance.x += kern_data[i];
   }
 }
 
@@ -345,6 +345,14 @@ static BLResult BL_CDECL apply_kern(const BLFontFaceImpl* face_impl, uint32_t* g
   if (count < 2)
     return BL_SUCCESS;
 
+  // Kerning values are combined separately from placements as these could have been already adjusted by GPOS.
+  ScopedBufferTmp<1024> kern_buffer;
+  int32_t* kern_data = static_cast<int32_t*>(kern_buffer.alloc(count * sizeof(int32_t)));
+
+  if (BL_UNLIKELY(!kern_data))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+  memset(kern_data, 0, count * sizeof(int32_t));
+
   const void* base_ptr = ot_face_impl->kern.table.data;
   const KernCollection& collection = ot_face_impl->kern.collection[0];
 
@@ -363,16 +371,16 @@ static BLResult BL_CDECL apply_kern(const BLFontFaceImpl* face_impl, uint32_t* g
     int32_t mask = mask_from_kern_group_flags(kern_group.flags());
 
     switch (format) {
-      case 0: all_combined |= apply_kern_format0(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
-      case 2: all_combined |= apply_kern_format2(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
-      case 3: all_combined |= apply_kern_format3(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
+      case 0: all_combined |= apply_kern_format0(ot_face_impl, data_ptr, data_size, glyph_data, kern_data, count, mask); break;
+      case 2: all_combined |= apply_kern_format2(ot_face_impl, data_ptr, data_size, glyph_data, kern_data, count, mask); break;
+      case 3: all_combined |= apply_kern_format3(ot_face_impl, data_ptr, data_size, glyph_data, kern_data, count, mask); break;
     }
   }
 
   // Only finish kerning if we actually did something, if no kerning pair was found or all kerning pairs were
   // zero then there is nothing to do.
   if (all_combined)
-    finish_kern(ot_face_impl, glyph_data, placement_data, count);
+    finish_kern(ot_face_impl, kern_data, placement_data, count);
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From ee22d329d74360db3bc21c441d43049b534a49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 213/216] fix: GPOS pair adjustment with a second value record
 must continue after the second glyph

[P21]
---
 blend2d/opentype/otlayout.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index f458879..6403c8b 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2723,6 +2723,10 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format1(GPosConte
           p++;
           if (value_format1) p = apply_gposValue(p, value_format1, &placement_data[i + 0]);
           if (value_format2) p = apply_gposValue(p, value_format2, &placement_data[i + 1]);
+
+          // The second glyph is not the first glyph of the next pair if it was adjusted by this pair.
+          if (value_format2 && scope.is_range() && ++i < end)
+            right_glyph_id = glyph_data[i + 1];
         }
       }
     }
@@ -2782,6 +2786,10 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
           const Int16* p = PtrOps::offset<const Int16>(value_base_ptr, c_index * value_record_size);
           if (value1_format) p = apply_gposValue(p, value1_format, &placement_data[i + 0]);
           if (value2_format) p = apply_gposValue(p, value2_format, &placement_data[i + 1]);
+
+          // The second glyph is not the first glyph of the next pair if it was adjusted by this pair.
+          if (value2_format && scope.is_range() && ++i < end)
+            right_glyph_id = glyph_data[i + 1];
         }
       }
     }
-- 
2.43.0


From 4c2aa1d2d5f4fe36614bbe071ff5e3f3854565c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 214/216] fix: required feature of a language system was not
 applied unless it was enabled by feature settings

[P21]
---
 blend2d/opentype/otlayout.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 6403c8b..4358599 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3717,7 +3717,8 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
   for (;;) {
     if (BL_LIKELY(feature_index < feature_count)) {
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
-      if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
+      bool is_required = i == uint32_t(0) - 1u;
+      if (is_required || FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
         Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
-- 
2.43.0


From fd9d6e94623e5df3e17ab79fa992ab55f74ad75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 215/216] fix: GSUB/GPOS lookups having minimum sized data at
 the end of the table were rejected

[P21]
---
 blend2d/opentype/otdefs_p.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otdefs_p.h b/blend2d/opentype/otdefs_p.h
index ca14b6e..94ea63f 100644
--- a/blend2d/opentype/otdefs_p.h
+++ b/blend2d/opentype/otdefs_p.h
@@ -39,13 +39,15 @@ struct GlyphRange {
   }
 };
 
+//! A range of valid offsets, where `end` is the last valid offset (the size of a table minus the minimum size of the
+//! data at the given offset, which must be verified when the data is accessed if it's variable).
 struct OffsetRange {
   uint32_t start;
   uint32_t end;
 
   template<typename T>
   BL_INLINE_NODEBUG bool contains(const T& offset) const noexcept {
-    return BLInternal::bool_and(offset >= start, offset < end);
+    return BLInternal::bool_and(offset >= start, offset <= end);
   }
 };
 
-- 
2.43.0


From 01ec5725aff632166a492c73268ed92e188b0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 216/216] fix: GPOS pair adjustment by classes was not applied
 when one of its class definitions had no entries

[P21]
---
 blend2d/opentype/otlayouttables_p.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/blend2d/opentype/otlayouttables_p.h b/blend2d/opentype/otlayouttables_p.h
index 8e70cbe..6a64262 100644
--- a/blend2d/opentype/otlayouttables_p.h
+++ b/blend2d/opentype/otlayouttables_p.h
@@ -208,12 +208,35 @@ public:
   uint32_t _size;
   uint32_t _first_glyph;
 
+  static BL_INLINE bool is_empty_class_def(RawTable table) noexcept {
+    if (table.size < ClassDefTable::Format2::kBaseSize)
+      return false;
+
+    switch (table.data_as<ClassDefTable>()->format()) {
+      case 1: return table.size >= ClassDefTable::Format1::kBaseSize && table.data_as<ClassDefTable::Format1>()->class_values.count() == 0u;
+      case 2: return table.data_as<ClassDefTable::Format2>()->ranges.count() == 0u;
+      default: return false;
+    }
+  }
+
   BL_INLINE_IF_NOT_DEBUG uint32_t init(RawTable table) noexcept {
     const void* array = nullptr;
     uint32_t size = 0;
     uint32_t format = 0;
     uint32_t first_glyph = 0;
 
+    // Class definition without entries is valid, all glyphs have class zero in such case (which is what a single range
+    // that doesn't match any glyph does). Only format and count is required, which means 4 bytes in case of format 2.
+    if (is_empty_class_def(table)) {
+      static const uint8_t empty_range[sizeof(Range)] = { 0xFFu, 0xFFu, 0x00u, 0x00u, 0x00u, 0x00u };
+
+      _array = empty_range;
+      _size = 1;
+      _first_glyph = 0xFFFFu;
+
+      return 2;
+    }
+
     if (BL_LIKELY(table.size >= ClassDefTable::kBaseSize)) {
       uint32_t required_table_size = 0;
       format = table.data_as<ClassDefTable>()->format();
-- 
2.43.0

