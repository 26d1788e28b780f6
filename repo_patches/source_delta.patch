From 4c89c39333d60016feb8f487b0c1b81658b4b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:44 +0000
Subject: [PATCH 01/12] fix: advise of reallocated per-channel buffers only if
 there are any

---
 ruy/create_trmul_params.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruy/create_trmul_params.h b/ruy/create_trmul_params.h
index 531e066..feb8537 100644
--- a/ruy/create_trmul_params.h
+++ b/ruy/create_trmul_params.h
@@ -366,6 +366,11 @@ void EnsurePerChannelBuffersLargeEnough(
   if (required_capacity <= user_capacity) {
     return;
   }
+  if (!mul_params->bias() && !mul_params->multiplier_fixedpoint_perchannel() &&
+      !mul_params->multiplier_exponent_perchannel()) {
+    // No per-channel buffer at all, so nothing to reallocate.
+    return;
+  }
   ctx->set_performance_advisory(
       PerformanceAdvisory::kReallocatedPerChannelBuffer);
   EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(
-- 
2.43.0


From c049e8f4c1666fcecb0b9e813ba056aa140fb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:44 +0000
Subject: [PATCH 02/12] fix: do not hand out pointers into a scratch buffer
 that could not be allocated

---
 ruy/allocator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..422f4bd 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // On failure there is no buffer to allocate from.
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From dcb6adfa004c5514fef4bdb6ed4d53cde74f9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:44 +0000
Subject: [PATCH 03/12] fix: keep the portable path enabled when RUY_PATHS is
 set

---
 ruy/ctx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..057d1d8 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,8 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // Non-arch paths are always enabled (needed for fallbacks).
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From df19aefa385deac8ec31fe4dc89585204428dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:44 +0000
Subject: [PATCH 04/12] fix: account for evicted floating-point cache entries
 as they were inserted

---
 ruy/prepacked_cache.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..2c6a931 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -121,7 +121,11 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    // See AllocateBuffers: only integer matrices have a `sums` buffer.
+    buffers_bytes_ -= SumsBytes(packed_matrix);
+  }
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From b3a8348ee7ffbe8909482151915daccd2cd4134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:33 +0000
Subject: [PATCH 05/12] fix: tell cached packed matrices of differently laid
 out sources apart

---
 ruy/mat.h                      |  5 +++++
 ruy/prepacked_cache.cc         |  4 +++-
 ruy/prepacked_cache.h          | 18 +++++++++++++-----
 ruy/prepare_packed_matrices.cc |  3 ++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ruy/mat.h b/ruy/mat.h
index bf02c66..13d8216 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -111,6 +111,11 @@ struct MatLayout final {
   Order order = Order::kColMajor;
 };
 
+inline bool operator==(const MatLayout& a, const MatLayout& b) {
+  return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride &&
+         a.order == b.order;
+}
+
 inline MatLayout ToInternal(const Layout& src) {
   MatLayout ret;
   ret.rows = src.rows();
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 2c6a931..a8a7a86 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -77,10 +77,12 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
-                                           PEMat* packed_matrix) {
+                                           PEMat* packed_matrix,
+                                           const MatLayout& src_layout) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
+  key.src_layout = src_layout;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..a160e09 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -57,6 +57,10 @@ class PrepackedCache final {
   // small-scale block layout. In the past, we made the kernel function pointer
   // part of the cache key, but all that is relevant here is the packed layout.
   //
+  // The source matrix's layout is needed as well: the packed layout does not
+  // tell how the source data is to be read (storage order and stride), and its
+  // dimensions are rounded up to the kernel's.
+  //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
   // data would be reused with different zero_point values.
@@ -68,6 +72,8 @@ class PrepackedCache final {
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout, see EMat::layout.
+    MatLayout src_layout;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -75,8 +81,8 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -112,10 +118,11 @@ class PrepackedCache final {
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
+  // `src_layout` is the layout of the source matrix.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src_data` pointer,
+  //    the `src_layout` and the relevant fields of `packed_matrix`, particularly its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -124,7 +131,8 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  Action Get(const void* src_data, PEMat* packed_matrix,
+             const MatLayout& src_layout = MatLayout());
 
  private:
   void EjectOne();
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..8b5fd4b 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,8 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side].data, &packed_matrix,
+                               params->src[side].layout);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From a158d0b9a19a94d79f964c4da9df089d228349c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:42 +0000
Subject: [PATCH 06/12] fix: do not cache an operand when that would evict the
 other operand in use

---
 ruy/prepacked_cache.h          |  6 +++++-
 ruy/prepare_packed_matrices.cc | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index a160e09..e9bc28c 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -109,6 +109,9 @@ class PrepackedCache final {
   // Returns the total size in bytes of buffers held in this cache.
   std::ptrdiff_t BuffersBytes() const { return buffers_bytes_; }
 
+  // Returns the total size in bytes above which entries get ejected.
+  std::ptrdiff_t MaxBuffersBytes() const { return max_buffers_bytes_; }
+
   // Returns the number of packed matrices held in this cache.
   int MatrixCount() const { return cache_.size(); }
 
@@ -122,7 +125,8 @@ class PrepackedCache final {
   //
   // This method:
   // 1. Queries the cache for an entry matching the given `src_data` pointer,
-  //    the `src_layout` and the relevant fields of `packed_matrix`, particularly its `layout`.
+  //    the `src_layout` and the relevant fields of `packed_matrix`, particularly
+  //    its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 8b5fd4b..dffba79 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -15,6 +15,8 @@ limitations under the License.
 
 #include "ruy/prepare_packed_matrices.h"
 
+#include <cstddef>
+
 #include "ruy/allocator.h"
 #include "ruy/check_macros.h"
 #include "ruy/ctx.h"
@@ -65,13 +67,26 @@ bool ShouldCache(const TrMulParams& params, Side side) {
   }
 }
 
+// Returns true if caching the RHS could eject the LHS, which is already in the
+// cache and about to be used.
+bool RhsWouldEjectLhs(const TrMulParams& params, const PrepackedCache& cache) {
+  std::ptrdiff_t bytes = 0;
+  for (Side side : {Side::kLhs, Side::kRhs}) {
+    bytes += DataBytes(params.packed_matrix[side]) +
+             SumsBytes(params.packed_matrix[side]);
+  }
+  return bytes > cache.MaxBuffersBytes();
+}
+
 }  // namespace
 
 void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
   RUY_TRACE_SCOPE;
   for (Side side : {Side::kLhs, Side::kRhs}) {
     PEMat& packed_matrix = params->packed_matrix[side];
-    if (ShouldCache(*params, side)) {
+    if (ShouldCache(*params, side) &&
+        !(side == Side::kRhs && params->is_prepacked[Side::kLhs] &&
+          RhsWouldEjectLhs(*params, *ctx->GetPrepackedCache()))) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
       auto action = cache->Get(params->src[side].data, &packed_matrix,
-- 
2.43.0


From c931531545b12277f3edd5229ef5dd08617a454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:53 +0000
Subject: [PATCH 07/12] fix: do not raise a floating-point exception when
 packing on AVX

---
 ruy/pack_avx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruy/pack_avx.cc b/ruy/pack_avx.cc
index 2b929e7..73eee4c 100644
--- a/ruy/pack_avx.cc
+++ b/ruy/pack_avx.cc
@@ -679,7 +679,9 @@ inline __m256i CompareGreaterThan<Path::kAvx>(const __m256i& a,
   constexpr int kGreaterThanSignalling = 14;
   const __m256 v = _mm256_cmp_ps(_mm256_cvtepi32_ps(a), _mm256_cvtepi32_ps(b),
                                  kGreaterThanSignalling);
-  return _mm256_cvtps_epi32(v);
+  // A plain cast: converting the mask, which reads as NaN, to integers would
+  // raise a floating-point exception.
+  return _mm256_castps_si256(v);
 }
 
 }  // namespace.
-- 
2.43.0


From 1bf011657a5ab5f73d76484a5be5c3ad58b181ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 08/12] fix: compute element offsets in pointer-sized integers

Offsets of entries were computed as int. Matrices with 2^31 or more
elements between two of their entries were read out of bounds.
---
 ruy/kernel_common.h | 19 ++++++++++++------
 ruy/mat.h           | 16 ++++++++-------
 ruy/matrix.h        |  8 +++++---
 ruy/pack_x86.h      | 48 ++++++++++++++++++++++++++-------------------
 4 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/ruy/kernel_common.h b/ruy/kernel_common.h
index 69e819b..f0d8807 100644
--- a/ruy/kernel_common.h
+++ b/ruy/kernel_common.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_KERNEL_COMMON_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <type_traits>
 
@@ -146,9 +147,11 @@ void MakeKernelParams8bit(const PMat<std::int8_t>& lhs,
   RUY_DCHECK_EQ(end_row % LhsCols, 0);
   RUY_DCHECK_EQ(end_col % RhsCols, 0);
 
-  params->lhs_base_ptr = lhs.data + start_row * lhs.layout.stride;
+  params->lhs_base_ptr =
+      lhs.data + std::ptrdiff_t{start_row} * lhs.layout.stride;
   params->rhs_scalar_size = sizeof(RhsScalar);
-  params->rhs_base_ptr = rhs.data + start_col * rhs.layout.stride;
+  params->rhs_base_ptr =
+      rhs.data + std::ptrdiff_t{start_col} * rhs.layout.stride;
   params->flags = 0;
   params->bias = params->zero_data;
   if (mul_params.bias()) {
@@ -204,7 +207,8 @@ void MakeKernelParams8bit(const PMat<std::int8_t>& lhs,
 
   params->dst_type_id = DstTypeId<DstScalar>::kValue;
   params->dst_base_ptr =
-      dst->data.get() + start_col * dst->layout.stride + start_row;
+      dst->data.get() + std::ptrdiff_t{start_col} * dst->layout.stride +
+      start_row;
 
   // Temporary release-asserts to debug some crashes in an application.
   RUY_CHECK(params->multiplier_fixedpoint);
@@ -248,10 +252,13 @@ inline void MakeKernelParamsFloat(const PMat<float>& lhs,
   RUY_DCHECK_EQ(end_row % LhsCols, 0);
   RUY_DCHECK_EQ(end_col % RhsCols, 0);
 
-  params->lhs_base_ptr = lhs.data + start_row * lhs.layout.stride;
-  params->rhs_base_ptr = rhs.data + start_col * rhs.layout.stride;
+  params->lhs_base_ptr =
+      lhs.data + std::ptrdiff_t{start_row} * lhs.layout.stride;
+  params->rhs_base_ptr =
+      rhs.data + std::ptrdiff_t{start_col} * rhs.layout.stride;
   params->dst_base_ptr =
-      dst->data.get() + start_col * dst->layout.stride + start_row;
+      dst->data.get() + std::ptrdiff_t{start_col} * dst->layout.stride +
+      start_row;
 
   std::uint8_t flags = 0;
   params->bias = params->zero_data;
diff --git a/ruy/mat.h b/ruy/mat.h
index 13d8216..88cccd7 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -361,7 +361,7 @@ inline std::ptrdiff_t FlatSize(const PMatLayout& layout) {
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const MatLayout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const MatLayout& layout, int row, int col) {
   // TODO(benoitjacob)  - should check this but this make the _slow tests take
   // 5x longer.  Find a mitigation like in Eigen with an 'internal' variant
   // bypassing the check?
@@ -369,22 +369,24 @@ inline int Offset(const MatLayout& layout, int row, int col) {
   // RUY_DCHECK_GE(col, 0);
   // RUY_DCHECK_LT(row, layout.rows);
   // RUY_DCHECK_LT(col, layout.cols);
-  int row_stride = layout.order == Order::kColMajor ? 1 : layout.stride;
-  int col_stride = layout.order == Order::kRowMajor ? 1 : layout.stride;
+  std::ptrdiff_t row_stride =
+      layout.order == Order::kColMajor ? 1 : layout.stride;
+  std::ptrdiff_t col_stride =
+      layout.order == Order::kRowMajor ? 1 : layout.stride;
   return row * row_stride + col * col_stride;
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const PMatLayout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const PMatLayout& layout, int row, int col) {
   RUY_DCHECK(is_pot(layout.kernel.rows));
   RUY_DCHECK(is_pot(layout.kernel.cols));
   int row_outer = row & ~(layout.kernel.rows - 1);
   int col_outer = col & ~(layout.kernel.cols - 1);
-  int row_stride_outer =
+  std::ptrdiff_t row_stride_outer =
       layout.order == Order::kColMajor ? layout.kernel.cols : layout.stride;
-  int col_stride_outer =
+  std::ptrdiff_t col_stride_outer =
       layout.order == Order::kRowMajor ? layout.kernel.rows : layout.stride;
-  int offset_outer =
+  std::ptrdiff_t offset_outer =
       row_outer * row_stride_outer + col_outer * col_stride_outer;
   int row_inner = row - row_outer;
   int col_inner = col - col_outer;
diff --git a/ruy/matrix.h b/ruy/matrix.h
index c9353e6..56b9a58 100644
--- a/ruy/matrix.h
+++ b/ruy/matrix.h
@@ -185,7 +185,7 @@ StreamType& operator<<(StreamType& stream, const Matrix<Scalar>& mat) {
 }
 
 // TODO(b/130417400) add a unit test
-inline int Offset(const Layout& layout, int row, int col) {
+inline std::ptrdiff_t Offset(const Layout& layout, int row, int col) {
   // TODO(benoitjacob)  - should check this but this make the _slow tests take
   // 5x longer.  Find a mitigation like in Eigen with an 'internal' variant
   // bypassing the check?
@@ -193,8 +193,10 @@ inline int Offset(const Layout& layout, int row, int col) {
   // RUY_DCHECK_GE(col, 0);
   // RUY_DCHECK_LT(row, layout.rows());
   // RUY_DCHECK_LT(col, layout.cols());
-  int row_stride = layout.order() == Order::kColMajor ? 1 : layout.stride();
-  int col_stride = layout.order() == Order::kRowMajor ? 1 : layout.stride();
+  std::ptrdiff_t row_stride =
+      layout.order() == Order::kColMajor ? 1 : layout.stride();
+  std::ptrdiff_t col_stride =
+      layout.order() == Order::kRowMajor ? 1 : layout.stride();
   return row * row_stride + col * col_stride;
 }
 
diff --git a/ruy/pack_x86.h b/ruy/pack_x86.h
index a28bbc9..e201f2d 100644
--- a/ruy/pack_x86.h
+++ b/ruy/pack_x86.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_PACK_X86_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
@@ -88,14 +89,15 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kColMajor, 4, 8>,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx2(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -135,14 +137,15 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kColMajor, 4, 8>, Scalar,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -171,14 +174,15 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kRowMajor, 1, 8>, float,
         0.0f};  // Remainder default inits to 0.0f.
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx(src_ptr, zerobuf, src_stride, remaining_src_cols,
                               src_matrix.layout.rows, packed_ptr);
     }
@@ -205,14 +209,15 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kRowMajor, 1, 8>,
         0.0f};  // Remainder default inits to 0.0f.
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx2(src_ptr, zerobuf, src_stride, remaining_src_cols,
                                src_matrix.layout.rows, packed_ptr);
     }
@@ -256,14 +261,15 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const Scalar* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       std::int8_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack8bitColMajorForAvx512(
           reinterpret_cast<const std::int8_t*>(src_ptr), kInputXor,
           reinterpret_cast<const std::int8_t*>(zerobuf), src_stride,
@@ -302,7 +308,7 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
       std::int32_t* sums_ptr = sums ? sums + block_col : nullptr;
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const std::int16_t* src_ptr =
           src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
@@ -310,7 +316,8 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
       static constexpr int block_col_mask = ~(Layout::kCols - 1);
       std::int16_t* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       Pack16bitColMajorForAvx512(src_ptr, zerobuf, src_stride,
                                  remaining_src_cols, src_matrix.layout.rows,
                                  packed_ptr, sums_ptr);
@@ -337,14 +344,15 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kRowMajor, 1, 16>,
         0.0f};  // Remainder default inits to 0.0f.
     for (int block_col = start_col; block_col < end_col;
          block_col += Layout::kCols) {
-      int src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
       const float* src_ptr = src_matrix.data.get() + src_stride * block_col;
       int remaining_src_cols = src_matrix.layout.cols - block_col;
 
       static constexpr int block_col_mask = ~(Layout::kCols - 1);  // High bits.
       float* packed_ptr =
           packed_matrix->data +
-          packed_matrix->layout.stride * (block_col & block_col_mask);
+          static_cast<std::ptrdiff_t>(packed_matrix->layout.stride) *
+              (block_col & block_col_mask);
       PackFloatColMajorForAvx512(src_ptr, zerobuf, src_stride,
                                  remaining_src_cols, src_matrix.layout.rows,
                                  packed_ptr);
@@ -372,8 +380,8 @@ struct PackImpl<Path::kAvx2Fma, FixedKernelLayout<Order::kColMajor, 4, 8>,
     std::memset(sums + start_col, 0, sizeof(sums[0]) * (end_col - start_col));
     int block_row = 0;
     for (; block_row < packed_matrix->layout.rows; block_row += 4) {
-      int src_stride = src_matrix.layout.stride;
-      int packed_stride = packed_matrix->layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
           src_matrix.data.get() + block_row * src_stride + start_col;
       std::int8_t* packed_ptr =
@@ -407,8 +415,8 @@ struct PackImpl<Path::kAvx, FixedKernelLayout<Order::kColMajor, 4, 8>, Scalar,
     std::memset(sums + start_col, 0, sizeof(sums[0]) * (end_col - start_col));
     int block_row = 0;
     for (; block_row < packed_matrix->layout.rows; block_row += 4) {
-      int src_stride = src_matrix.layout.stride;
-      int packed_stride = packed_matrix->layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
           src_matrix.data.get() + block_row * src_stride + start_col;
       std::int8_t* packed_ptr =
@@ -442,8 +450,8 @@ struct PackImpl<Path::kAvx512, FixedKernelLayout<Order::kColMajor, 4, 16>,
     std::memset(sums + start_col, 0, sizeof(sums[0]) * (end_col - start_col));
     int block_row = 0;
     for (; block_row < packed_matrix->layout.rows; block_row += 4) {
-      int src_stride = src_matrix.layout.stride;
-      int packed_stride = packed_matrix->layout.stride;
+      std::ptrdiff_t src_stride = src_matrix.layout.stride;
+      std::ptrdiff_t packed_stride = packed_matrix->layout.stride;
       const Scalar* src_ptr =
           src_matrix.data.get() + block_row * src_stride + start_col;
       std::int8_t* packed_ptr =
-- 
2.43.0


From 2e5782afb3314520e64c7c5e174942ec349435af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:46 +0000
Subject: [PATCH 09/12] fix: use 64-bit sizes in the block map heuristics

Byte counts of large operands overflowed int, which aborted the
multiplication in checked builds and gave wrong estimates otherwise.
---
 ruy/block_map.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ruy/block_map.cc b/ruy/block_map.cc
index e04e7af..decec17 100644
--- a/ruy/block_map.cc
+++ b/ruy/block_map.cc
@@ -136,9 +136,11 @@ BlockMapTraversalOrder GetTraversalOrder(
     int rhs_scalar_size, const CpuCacheParams& cpu_cache_params) {
   static constexpr bool kAnyFractal =
       RUY_OPT(FRACTAL_Z) | RUY_OPT(FRACTAL_U) | RUY_OPT(FRACTAL_HILBERT);
-  const int working_set_size =
-      (lhs_scalar_size * rows_after_rectangularness_division +
-       rhs_scalar_size * cols_after_rectangularness_division) *
+  const std::int64_t working_set_size =
+      (static_cast<std::int64_t>(lhs_scalar_size) *
+           rows_after_rectangularness_division +
+       static_cast<std::int64_t>(rhs_scalar_size) *
+           cols_after_rectangularness_division) *
       depth;
   if (kAnyFractal && (working_set_size > cpu_cache_params.local_cache_size)) {
     if (RUY_OPT(FRACTAL_HILBERT) &&
@@ -216,10 +218,10 @@ void GetRectangularness(int rows, int cols, int kernel_rows, int kernel_cols,
 // dispatch fine-grained workloads to threads.
 int GetMultithreadingScore(int block_size_log2, int rows, int cols,
                            int tentative_thread_count) {
-  const int num_full_blocks_of_rows = rows >> block_size_log2;
-  const int num_full_blocks_of_cols = cols >> block_size_log2;
-  const int candidate_num_full_blocks_log2 = floor_log2(
-      std::max(1, num_full_blocks_of_rows * num_full_blocks_of_cols));
+  const std::int64_t num_full_blocks_of_rows = rows >> block_size_log2;
+  const std::int64_t num_full_blocks_of_cols = cols >> block_size_log2;
+  const int candidate_num_full_blocks_log2 = floor_log2(std::max<std::int64_t>(
+      1, num_full_blocks_of_rows * num_full_blocks_of_cols));
 
   // The values here have been tuned on ARM Cortex-A55.
   // We expect this to have to be tuned differently for other CPUs.
@@ -258,8 +260,10 @@ int GetCacheLocalityScore(int block_size_log2, int rows, int cols, int depth,
   }
   const int block_rows = std::min(1 << block_size_log2, rows);
   const int block_cols = std::min(1 << block_size_log2, cols);
-  const int total_read_bytes =
-      (lhs_scalar_size * block_rows + rhs_scalar_size * block_cols) * depth;
+  const std::int64_t total_read_bytes =
+      static_cast<std::int64_t>(lhs_scalar_size * block_rows +
+                                rhs_scalar_size * block_cols) *
+      depth;
   const int total_read_bytes_log2 = ceil_log2(total_read_bytes);
   const int nonlocality_log2 =
       total_read_bytes_log2 - floor_log2(cpu_cache_params.local_cache_size);
-- 
2.43.0


From 35a8698961abe256cc47043f3f1d01baf9574be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:17:03 +0000
Subject: [PATCH 10/12] fix: compute float packing offsets in pointer-sized
 integers

The row-major float packing code multiplied a stride by a row number as
int, which overflows for matrices spanning 2^31 or more elements.
---
 ruy/pack_common.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruy/pack_common.h b/ruy/pack_common.h
index 8f07658..575a250 100644
--- a/ruy/pack_common.h
+++ b/ruy/pack_common.h
@@ -17,6 +17,7 @@ limitations under the License.
 #define RUY_RUY_PACK_COMMON_H_
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -104,7 +105,8 @@ struct MemcpyRowMajorFloatPackImpl {
     RUY_DCHECK(IsRowMajor(src_matrix.layout));
     RUY_DCHECK(IsColMajor(packed_matrix->layout));
     RUY_DCHECK_EQ(start_col % KernelCols, 0);
-    int src_stride = src_matrix.layout.stride;
+    std::ptrdiff_t src_stride = src_matrix.layout.stride;
+    std::ptrdiff_t packed_stride = packed_matrix->layout.stride;
     // As the source matrix is row-major and the destination packed matrix is
     // column-major, there is no traversal order that will be optimal for both
     // so we choose to favor the source matrix with a row-major traversal order.
@@ -113,13 +115,13 @@ struct MemcpyRowMajorFloatPackImpl {
       const float* src_ptr =
           src_matrix.data.get() + src_stride * block_row + start_col;
       float* packed_ptr = packed_matrix->data +
-                          packed_matrix->layout.stride * start_col +
+                          packed_stride * start_col +
                           KernelCols * block_row;
       int src_cols = std::min(end_col, src_matrix.layout.cols) - start_col;
       int col = 0;
       for (; col <= src_cols - KernelCols; col += KernelCols) {
         memcpy(packed_ptr, src_ptr, KernelCols * sizeof(float));
-        packed_ptr += KernelCols * packed_matrix->layout.stride;
+        packed_ptr += KernelCols * packed_stride;
         src_ptr += KernelCols;
       }
       int remaining_cols = src_cols - col;
-- 
2.43.0


From 784f7b1437f9c6647d40589a4a60b9474712b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:04 +0000
Subject: [PATCH 11/12] fix: include the header declaring strlen and strcmp in
 the tracing code

---
 ruy/trace.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruy/trace.h b/ruy/trace.h
index 4f5059e..0caafb5 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -21,6 +21,7 @@ limitations under the License.
 #include <algorithm>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <memory>
 #include <mutex>
 #include <string>
-- 
2.43.0


From 855e5fec02fba594cff3f12fe33d72909e14c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:04 +0000
Subject: [PATCH 12/12] fix: trace the column count of large blocks with the
 right kernel dimension

---
 ruy/trace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/trace.h b/ruy/trace.h
index 0caafb5..6cb7f1a 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -685,7 +685,7 @@ inline std::string str(Path paths) {
       "have %d columns ",                                                      \
       block_map->large_blocks[Side::kRhs],                                     \
       block_map->small_block_dims[Side::kRhs] +                                \
-          block_map->kernel_dims[Side::kLhs],                                  \
+          block_map->kernel_dims[Side::kRhs],                                  \
       block_map->small_block_dims[Side::kRhs]);                                \
   ThreadLocalTrace()->Write(                                                   \
       "Traversal order: %s",                                                   \
-- 
2.43.0

