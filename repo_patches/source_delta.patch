From f37c77b505d7dd09854f6a84d341e7af3a3cfacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 01/45] fix: do not register a dimension label twice when
 threads race

Dim(label) released the read lock before taking the write lock and then
inserted without looking again. Two threads creating the same new label got
different ids, the first of which then had no name, and ids could be reused
for another label.
---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..e2cb5e5 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label while we did not hold the lock.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From 778b90bb5a67ae859b070c08e598a964ac8d9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 02/45] fix: keep the null state of element_array in copy
 assignment

Copy-assigning from a null element_array produced a non-null array of size 0,
unlike copy construction.
---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..37d3843 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = element_array(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From 59dab7865fa02f3fa0b1d4550c08e68c9df6556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 03/45] fix: do not lose memory in MemoryPool when bookkeeping
 runs out of memory

If growing one of the vectors of pointers threw, allocate leaked the new block
and deallocate forgot a block it had already removed.
---
 lib/core/include/scipp/core/memory_pool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/core/include/scipp/core/memory_pool.h b/lib/core/include/scipp/core/memory_pool.h
index d4131ae..5bc6df4 100644
--- a/lib/core/include/scipp/core/memory_pool.h
+++ b/lib/core/include/scipp/core/memory_pool.h
@@ -44,11 +44,15 @@ public:
     auto &pools = m_pools[size];
     if (pools[1].empty()) {
       void *ptr = nullptr;
+      // Get space for the pointer first, this may throw.
+      pools[0].emplace_back(nullptr);
       // Always 64 bit aligned
       int rc = posix_memalign(&ptr, 64, size);
-      if (rc != 0)
+      if (rc != 0) {
+        pools[0].pop_back();
         throw std::runtime_error("Failed to allocate.");
-      pools[0].emplace_back(ptr);
+      }
+      pools[0].back() = ptr;
       return ptr;
     } else {
       pools[0].emplace_back(pools[1].back());
@@ -63,8 +67,8 @@ public:
       for (scipp::index i = used.size() - 1; i >= 0; --i) {
         if (used[i] == ptr) {
           auto &unused = pools.second[1];
+          unused.emplace_back(ptr); // may throw, must come first
           used.erase(used.begin() + i);
-          unused.emplace_back(ptr);
           return;
         }
       }
-- 
2.43.0


From 9e428aae4e98f85e74669054d25eb5335030b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 04/45] fix: do not flatten a dimension all operands are
 broadcast along

The innermost dimension was not considered when checking whether the next
dimension can be flattened into it, so MultiIndex stepped past the end of the
operands, e.g., in sum over a middle dimension of a broadcast variable.
---
 lib/core/multi_index.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..f86b37d 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,15 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
+    // Call this for every dim, including the innermost, since it keeps track of
+    // the strides. Otherwise a dim that is broadcast in all operands would be
+    // flattened into a contiguous innermost dim.
+    const bool contiguous =
+        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
+                         strides_for_contiguous, strides...);
     if (dim_read > non_flattenable_dim &&
         dim_write > 0 && // need to write at least one inner dim
-        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+        contiguous) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 0514c3e9394137f1df5275295919793f5c400922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:14 +0000
Subject: [PATCH 05/45] fix: align buffer dimensions of binned operands by
 label

The strides of the buffers of several binned operands were combined by
position. Operands with buffers that list their dimensions in another order
gave wrong results, and buffers of different shape were read out of bounds.
---
 lib/core/multi_index.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index f86b37d..bbfbb35 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -58,6 +58,30 @@ auto get_slice_dim(const T &param, const Ts &...params) {
   return param ? param.dim : get_slice_dim(params...);
 }
 
+/// Return the strides of the buffer of an operand in the order of inner_dims.
+///
+/// The buffers of operands may have different memory layouts. Only the name of
+/// the bin-slice dim and the extent in that dim may differ between operands.
+Strides aligned_strides(const Dimensions &inner_dims, const Dim slice_dim,
+                        const BucketParams &params) {
+  Strides strides;
+  if (!params)
+    return strides;
+  core::expect::ndim_is(params.dims, inner_dims.ndim());
+  for (const auto &label : inner_dims.labels()) {
+    const auto dim = label == slice_dim ? params.dim : label;
+    if (label != slice_dim &&
+        (dim == params.dim || !params.dims.contains(dim) ||
+         params.dims[dim] != inner_dims[dim]))
+      throw except::DimensionError(
+          "Mismatching dimensions of bin contents in operation with binned "
+          "data: " +
+          to_string(inner_dims) + " and " + to_string(params.dims) + ".");
+    strides.push_back(params.strides[params.dims.index(dim)]);
+  }
+  return strides;
+}
+
 template <class T>
 [[nodiscard]] auto make_span(T &&array, const scipp::index begin) {
   return scipp::span{array.data() + begin,
@@ -149,7 +173,7 @@ MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
   m_inner_ndim = flatten_dims(
       make_span(m_stride, 0), make_span(m_shape, 0), inner_dims,
       inner_dims.index(slice_dim),
-      params.bucketParams() ? params.bucketParams().strides : Strides{}...);
+      aligned_strides(inner_dims, slice_dim, params.bucketParams())...);
   // NOLINTNEXTLINE(cppcoreguidelines-prefer-member-initializer)
   m_ndim = m_inner_ndim + flatten_dims(make_span(m_stride, m_inner_ndim),
                                        make_span(m_shape, m_inner_ndim),
-- 
2.43.0


From 7de65b2a327b1e72f31279b7860b9075ab25f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:14 +0000
Subject: [PATCH 06/45] fix: support binned output in pow with out argument

The output dtype was that of the bins instead of their elements, so in-place
multiplication of binned data with variances by itself raised TypeError. The
unit must not change if the output is a slice of bins.
---
 lib/variable/pow.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 38ee422..777cf21 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -68,12 +68,14 @@ Variable pow_handle_unit(V &&base, const Variable &exponent,
                                  to_string(exponent.dims()) + ".");
   }
 
+  const auto unit =
+      core::CallDType<double, float, int64_t, int32_t>::apply<PowUnit>(
+          exponent.dtype(), base_unit, exponent);
   Variable res = in_place ? std::forward<V>(base) : copy(std::forward<V>(base));
+  variableFactory().expect_can_set_elem_unit(res, unit);
   variableFactory().set_elem_unit(res, units::one);
   pow_do_transform(res, exponent, true);
-  variableFactory().set_elem_unit(
-      res, core::CallDType<double, float, int64_t, int32_t>::apply<PowUnit>(
-               exponent.dtype(), base_unit, exponent));
+  variableFactory().set_elem_unit(res, unit);
   return res;
 }
 
@@ -111,7 +113,8 @@ Variable pow(const Variable &base, const Variable &exponent) {
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
-  copy(astype(base, out.dtype(), CopyPolicy::TryAvoid), out);
+  copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid),
+       out);
   pow_handle_dtype(out, exponent, true);
   return out;
 }
-- 
2.43.0


From 0eb3060dd88d7e5aa92d85d395e9ceb67d471e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 07/45] fix: check if the unit of a bin buffer can be set
 before modifying data

If the buffer is itself a slice then in-place operations that change the unit
failed only after the data had been modified.
---
 lib/variable/include/scipp/variable/bin_array_variable.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable/include/scipp/variable/bin_array_variable.tcc b/lib/variable/include/scipp/variable/bin_array_variable.tcc
index c27c987..86fefff 100644
--- a/lib/variable/include/scipp/variable/bin_array_variable.tcc
+++ b/lib/variable/include/scipp/variable/bin_array_variable.tcc
@@ -151,6 +151,7 @@ public:
     if (elem_unit(var) != u && var.is_slice())
       throw except::UnitError("Partial view on data of variable cannot be "
                               "used to change the unit.");
+    this->data(var).expect_can_set_unit(u);
   }
   void set_elem_unit(Variable &var, const units::Unit &u) const override {
     std::get<2>(var.constituents<T>()).setUnit(u);
-- 
2.43.0


From e38da249d76a0a5051508cea4f268a7a6aea106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 08/45] fix: treat NaN of a scalar as zero in nansum

Without dimensions the input was returned unchanged, instead of its sum with
NaN treated as zero.
---
 lib/variable/reduction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/reduction.cpp b/lib/variable/reduction.cpp
index 98e1c60..27db027 100644
--- a/lib/variable/reduction.cpp
+++ b/lib/variable/reduction.cpp
@@ -164,6 +164,8 @@ Variable sum(const Variable &var) {
 
 /// Return the sum along all dimensions, nans treated as zero.
 Variable nansum(const Variable &var) {
+  if (var.dims().empty())
+    return nansum(var, Dim::Invalid);
   return reduce_all_dims(var, [](auto &&..._) { return nansum(_...); });
 }
 
-- 
2.43.0


From a8f55e1c5b5944613ac44d29a7f2115542788696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 09/45] fix: do not write an unchanged unit

Reductions write to slices of one variable from several threads. Each of them
set the unit that the slices share, which is a data race.
---
 lib/variable/include/scipp/variable/variable_concept.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/variable_concept.h b/lib/variable/include/scipp/variable/variable_concept.h
index a2a2dab..0a3ddc1 100644
--- a/lib/variable/include/scipp/variable/variable_concept.h
+++ b/lib/variable/include/scipp/variable/variable_concept.h
@@ -45,7 +45,12 @@ public:
   virtual const units::Unit &unit() const { return m_unit; }
   virtual scipp::index size() const = 0;
 
-  virtual void setUnit(const units::Unit &unit) { m_unit = unit; }
+  virtual void setUnit(const units::Unit &unit) {
+    // Threads may write to distinct slices of the same variable. Operations on
+    // slices cannot change the unit but set it nevertheless.
+    if (unit != m_unit)
+      m_unit = unit;
+  }
 
   virtual bool has_variances() const noexcept = 0;
   virtual void setVariances(const Variable &variances) = 0;
-- 
2.43.0


From cf15cb6caa707400a9f11509e24ef1c34bc33a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 10/45] fix: Variable::setVariances from a view uses the
 elements of the view

The model copied the complete underlying array of the source, ignoring
offset and strides, so setting variances from a slice, transposed or
broadcast variable (or on a transposed variable) produced variances of
wrong size or order.
---
 lib/variable/variable.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index a8e8368..fb72885 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -307,6 +307,15 @@ void Variable::setVariances(const Variable &v) {
   if (v.is_valid()) {
     core::expect::equals(unit(), v.unit());
     core::expect::equals(dims(), v.dims());
+    // The model copies the complete underlying array of v. Views that do not
+    // match the memory layout of *this must be brought into that layout first.
+    if (v.dtype() == dtype() && !is_bins(v) &&
+        (v.is_slice() || v.m_strides != m_strides)) {
+      Variable buffer(v, v.dims());
+      buffer.m_strides = m_strides;
+      copy(v, buffer);
+      return data().setVariances(buffer);
+    }
   }
   data().setVariances(v);
 }
-- 
2.43.0


From 9271f543f2ad8ffb41182787b42e285bd6157ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 11/45] fix: leave the output of pow unchanged if pow fails

The base was copied into the output before the exponent was checked. If
the exponent referred to the same data as the output, it was overwritten
before it was used.
---
 lib/variable/pow.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 777cf21..9737f4f 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -113,9 +113,11 @@ Variable pow(const Variable &base, const Variable &exponent) {
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
+  // Operate on a temporary such that `out` is unchanged if anything throws and
+  // such that `exponent` may refer to the same data as `out`.
+  auto result = copy(out);
   copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid),
-       out);
-  pow_handle_dtype(out, exponent, true);
-  return out;
+       result);
+  return copy(pow_handle_dtype(result, exponent, true), out);
 }
 } // namespace scipp::variable
-- 
2.43.0


From 7628bc7490a0015a9dadcfee6c7120a12c34830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 12/45] fix: a rejected setSlice has no effect

setSlice(slice, Variable) of a dataset did not validate all items before
modifying the first, and validation did not cover dimensions, read-only data,
bin sizes, or units and dtypes of masks.
---
 lib/dataset/data_array.cpp |  6 +++---
 lib/dataset/dataset.cpp    |  8 ++++++--
 lib/dataset/sized_dict.cpp |  2 ++
 lib/variable/variable.cpp  | 13 +++++++++++++
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..248cfd5 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -140,9 +140,9 @@ void DataArray::validateSlice(const Slice &s, const DataArray &array) const {
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const DataArray &array) {
-  // validateSlice, but not masks as otherwise repeated
-  expect::coords_are_superset(slice(s), array, "");
-  data().validateSlice(s, array.data());
+  // Validate everything before applying any change, such that a failure has no
+  // effect.
+  validateSlice(s, array);
   // Apply changes
   masks().setSlice(s, array.masks());
   return setSlice(s, array.data());
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index bdc19b0..63d6a83 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -257,8 +257,12 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
-  for (auto &&item : *this)
-    item.setSlice(s, data);
+  // Validate slice on all items as a dry-run
+  for (const auto &item : m_data)
+    item.second.data().validateSlice(s, data);
+  // Only if all items checked for dry-run does modification go-ahead
+  for (auto &&[_, val] : m_data)
+    val.setSlice(s, data);
   return *this;
 }
 
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index bc1e31a..fa86bf3 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -316,6 +316,8 @@ void SizedDict<Key, Value>::validateSlice(const Slice &s,
                                    "' via slice since it is implicitly "
                                    "broadcast along the slice dimension '" +
                                    to_string(s.dim()) + "'.");
+    } else if (!var.is_readonly() && var.dims().contains(s.dim())) {
+      var.validateSlice(s, item);
     }
   }
 }
diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index fb72885..00b4825 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -9,6 +9,7 @@
 #include "scipp/core/dtype.h"
 #include "scipp/core/eigen.h"
 #include "scipp/variable/arithmetic.h"
+#include "scipp/variable/bins.h"
 #include "scipp/variable/except.h"
 #include "scipp/variable/variable_concept.h"
 #include "scipp/variable/variable_factory.h"
@@ -227,6 +228,18 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             to_string(variableFactory().elem_dtype(data)) +
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
+  const auto target = slice(s);
+  expect::includes(target.dims(), data.dims());
+  target.expect_writable();
+  if (is_bins(data)) {
+    if (dtype() != data.dtype())
+      throw except::TypeError("Invalid slice operation. Slice has dtype " +
+                              to_string(data.dtype()) +
+                              ". Variable has dtype " + to_string(dtype()));
+    if (bin_sizes(target) != bin_sizes(data).broadcast(target.dims()))
+      throw except::BinnedDataError(
+          "Invalid slice operation. Bin sizes of slice and variable differ.");
+  }
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From bf9ae78ab62ea1dc2bc83a4faa899efa543e535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 13/45] fix: masks are merged after the data operation can no
 longer fail

In-place operations of data arrays merged the masks of the operand before
operating on the data, so an operation rejected for, e.g., a unit mismatch had
already modified the masks.
---
 lib/dataset/bins.cpp                        |  9 ++++++---
 lib/dataset/dataset.cpp                     | 13 ++++++++++---
 lib/dataset/include/scipp/dataset/dataset.h |  4 ++++
 lib/templates/dataset_inplace.cpp.in        |  8 ++++----
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 7dc350f..876782f 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -313,10 +313,11 @@ void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
 
 void append(DataArray &a, const DataArray &b) {
   expect::coords_are_superset(a, b, "bins.append");
-  union_or_in_place(a.masks(), b.masks());
+  expect_union_or_in_place_possible(a.masks(), b.masks());
   auto data = a.data();
   append(data, b.data());
   a.setData(data);
+  union_or_in_place(a.masks(), b.masks());
 }
 
 Variable histogram(const Variable &data, const Variable &binEdges) {
@@ -389,8 +390,8 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
     dim = edge_dimension(histogram);
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
-  // scale applies masks along dim but others are kept
-  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
+  expect_union_or_in_place_possible(array.masks(),
+                                    histogram.slice({dim, 0}).masks());
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
   const auto &edges = histogram.meta()[dim];
@@ -407,5 +408,7 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
                        core::element::event::map_and_mul_sorted_edges,
                        "bins.scale");
   }
+  // scale applies masks along dim but others are kept
+  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
 }
 } // namespace scipp::dataset::buckets
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 63d6a83..cf4b2d7 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -341,7 +341,9 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
   return out;
 }
 
-void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+/// Throw if `union_or_in_place` would fail with the given arguments.
+void expect_union_or_in_place_possible(const Masks &currentMasks,
+                                       const Masks &otherMasks) {
   using core::to_string;
   using units::to_string;
 
@@ -357,17 +359,22 @@ void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
                                    "broadcast along the slice dimension.");
     } else if (it != currentMasks.end() &&
                (item.dtype() != core::dtype<bool> ||
-                currentMasks[key].dtype() != core::dtype<bool>)) {
+                it->second.dtype() != core::dtype<bool>)) {
       throw except::TypeError(" Cannot combine non-boolean mask '" + key +
                               "' in operation");
     } else if (it != currentMasks.end() &&
                (item.unit() != scipp::units::none ||
-                currentMasks[key].unit() != scipp::units::none)) {
+                it->second.unit() != scipp::units::none)) {
       throw except::UnitError(" Cannot combine a unit-specified mask '" + key +
                               "' in operation");
+    } else if (it != currentMasks.end() && !it->second.is_readonly()) {
+      scipp::expect::includes(it->second.dims(), item.dims());
     }
   }
+}
 
+void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+  expect_union_or_in_place_possible(currentMasks, otherMasks);
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end()) {
diff --git a/lib/dataset/include/scipp/dataset/dataset.h b/lib/dataset/include/scipp/dataset/dataset.h
index 4aff536..0e8f777 100644
--- a/lib/dataset/include/scipp/dataset/dataset.h
+++ b/lib/dataset/include/scipp/dataset/dataset.h
@@ -304,6 +304,10 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
 SCIPP_DATASET_EXPORT void union_or_in_place(Masks &masks,
                                             const Masks &otherMasks);
 
+/// Throw the exception that `union_or_in_place` would throw.
+SCIPP_DATASET_EXPORT void
+expect_union_or_in_place_possible(const Masks &masks, const Masks &otherMasks);
+
 SCIPP_DATASET_EXPORT Dataset merge(const Dataset &a, const Dataset &b);
 
 [[nodiscard]] SCIPP_DATASET_EXPORT bool equals_nan(const Dataset &a,
diff --git a/lib/templates/dataset_inplace.cpp.in b/lib/templates/dataset_inplace.cpp.in
index c91e946..758d72e 100644
--- a/lib/templates/dataset_inplace.cpp.in
+++ b/lib/templates/dataset_inplace.cpp.in
@@ -15,8 +15,9 @@ DataArray &@NAME@(DataArray &lhs, const Variable &rhs) {
 }
 DataArray &@NAME@(DataArray &lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
+  expect_union_or_in_place_possible(lhs.masks(), rhs.masks());
   @NAME@(lhs.data(), rhs.data());
+  union_or_in_place(lhs.masks(), rhs.masks());
   return lhs;
 }
 DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
@@ -24,9 +25,8 @@ DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
   return std::move(lhs);
 }
 DataArray @NAME@(DataArray &&lhs, const DataArray &rhs) {
-  expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
-  return @NAME@(std::move(lhs), rhs.data());
+  @NAME@(lhs, rhs);
+  return std::move(lhs);
 }
 
 } // namespace scipp::dataset
-- 
2.43.0


From f5b29b417ad9b0cd9eb7e816a717593b674235ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 14/45] fix: in-place dataset operation with operand shared by
 several items

Validate masks in the dry run. When several items share memory with the operand
only the last one was modified.
---
 lib/dataset/arithmetic.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 929e6f6..95bdc87 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <vector>
+
 #include "scipp/core/element/arithmetic.h"
 #include "scipp/dataset/dataset.h"
 #include "scipp/dataset/except.h"
@@ -27,6 +29,7 @@ template <class T, class Op> void dry_run_op(T &&a, const Variable &b, Op op) {
 
 template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   expect::coords_are_superset(a, b, "");
+  expect_union_or_in_place_possible(a.masks(), b.masks());
   dry_run_op(a, b.data(), op);
 }
 
@@ -66,18 +69,24 @@ decltype(auto) apply_with_delay(const Op &op, A &&a, const B &b) {
     dry_run_op(item, b, op);
   // For `b` referencing data in `a` we delay operation. The alternative would
   // be to make a deep copy of `other` before starting the iteration over items.
-  DataArray delayed;
+  // If multiple items share data with `b` there is no way around a copy.
+  std::vector<DataArray> delayed;
   // Note the inefficiency here: We are comparing some or all of the coords for
   // each item. This could be improved by implementing the operations for
   // internal items of Dataset instead of DataArray.
   for (auto &&item : a) {
     if (have_common_underlying(item, b))
-      delayed = item;
+      delayed.emplace_back(item);
     else
       op(item, b);
   }
-  if (delayed.is_valid())
-    op(delayed, b);
+  if (delayed.size() == 1) {
+    op(delayed.front(), b);
+  } else if (!delayed.empty()) {
+    const auto b_copy = copy(b);
+    for (auto &item : delayed)
+      op(item, b_copy);
+  }
   return std::forward<A>(a);
 }
 
-- 
2.43.0


From eef3b51b40160718c061b8caa85fdfd9cdbc95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 15/45] fix: multiply or divide data with variances but without
 unit by itself

The correlated operation is computed using pow, with an exponent of unit none,
which pow rejects.
---
 lib/variable/arithmetic.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/variable/arithmetic.cpp b/lib/variable/arithmetic.cpp
index d42dee8..260ed58 100644
--- a/lib/variable/arithmetic.cpp
+++ b/lib/variable/arithmetic.cpp
@@ -27,6 +27,12 @@ auto make_factor(const Variable &prototype, const double value) {
                 variableFactory().elem_dtype(prototype));
 }
 
+/// Exponent for `pow`, which is dimensionless even if the base has no unit.
+auto make_exponent(const Variable &prototype, const double value) {
+  return astype(makeVariable<double>(Values{value}, units::one),
+                variableFactory().elem_dtype(prototype));
+}
+
 /// True if a and b are correlated, currently only if referencing same.
 bool correlated(const Variable &a, const Variable &b) {
   return variableFactory().has_variances(a) &&
@@ -55,7 +61,7 @@ Variable operator*(const Variable &a, const Variable &b) {
                      std::string_view("apply_spatial_transformation"));
   } else {
     if (correlated(a, b))
-      return pow(a, make_factor(a, 2.0));
+      return pow(a, make_exponent(a, 2.0));
     return transform(a, b, core::element::multiply,
                      std::string_view("multiply"));
   }
@@ -63,7 +69,7 @@ Variable operator*(const Variable &a, const Variable &b) {
 
 Variable operator/(const Variable &a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 0.0));
+    return pow(a, make_exponent(a, 0.0));
   return transform(a, b, core::element::divide, "divide");
 }
 
@@ -110,7 +116,7 @@ Variable operator-=(Variable &&a, const Variable &b) {
 
 Variable operator*=(Variable &&a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 2.0), a);
+    return pow(a, make_exponent(a, 2.0), a);
   transform_in_place(a, b, core::element::multiply_equals,
                      std::string_view("multiply_equals"));
   return std::move(a);
@@ -118,7 +124,7 @@ Variable operator*=(Variable &&a, const Variable &b) {
 
 Variable operator/=(Variable &&a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 0.0), a);
+    return pow(a, make_exponent(a, 0.0), a);
   transform_in_place(a, b, core::element::divide_equals,
                      std::string_view("divide_equals"));
   return std::move(a);
-- 
2.43.0


From 78bfd78be47e534346306c1e2940b3589b7643c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 16/45] fix: validate event coords and masks before copying
 between bins

Copying bin contents with mismatching event coords or masks failed after the
data had been overwritten. A mismatching unit of an event coord was not
detected, instead it replaced the unit for all events, including those that are
not part of the operation.
---
 lib/dataset/bins.cpp                          | 41 ++++++++++++++++++-
 lib/dataset/data_array.cpp                    |  8 +++-
 lib/dataset/dataset.cpp                       |  2 +-
 lib/dataset/include/scipp/dataset/bins.h      |  5 +++
 .../include/scipp/dataset/data_array.h        |  1 +
 5 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 876782f..bd9ecdd 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -43,6 +43,19 @@ constexpr auto copy_or_match = [](const auto &a, auto &&b, const Dim dim,
     core::expect::equals(a, b);
 };
 
+constexpr auto expect_can_copy_or_match = [](const auto &a, const auto &b,
+                                             const Dim dim) {
+  if (a.dims().contains(dim)) {
+    core::expect::equals(a.dtype(), b.dtype());
+    core::expect::equals(a.unit(), b.unit());
+    if (a.has_variances() != b.has_variances())
+      throw except::VariancesError("Cannot copy between coords or masks of "
+                                   "which only one has variances.");
+  } else {
+    core::expect::equals(a, b);
+  }
+};
+
 constexpr auto expect_matching_keys = [](const auto &a, const auto &b) {
   bool ok = true;
   constexpr auto key = [](const auto &x_) {
@@ -79,11 +92,35 @@ auto make_fill(const DataArray &function,
 
 } // namespace
 
+/// Throw if content of `src` cannot be copied to slices of `dst`.
+///
+/// In contrast to data, overwriting the unit of a coord is not supported since
+/// this would affect also events outside the slices.
+void expect_can_copy_slices(const DataArray &src, const DataArray &dst,
+                            const Dim dim) {
+  expect_matching_keys(src.meta(), dst.meta());
+  expect_matching_keys(src.masks(), dst.masks());
+  for (const auto &[name, coord] : src.meta())
+    expect_can_copy_or_match(coord, dst.meta()[name], dim);
+  for (const auto &[name, mask] : src.masks())
+    expect_can_copy_or_match(mask, dst.masks()[name], dim);
+}
+
+/// Throw if the content of bins of `src` cannot be copied to bins of `dst`.
+void expect_can_copy_bin_content(const Variable &src, const Variable &dst) {
+  if (src.dtype() != dtype<bucket<DataArray>> || src.dtype() != dst.dtype())
+    return;
+  const auto &[src_indices, src_dim, src_buffer] =
+      src.constituents<DataArray>();
+  const auto &[dst_indices, dst_dim, dst_buffer] =
+      dst.constituents<DataArray>();
+  expect_can_copy_slices(src_buffer, dst_buffer, src_dim);
+}
+
 void copy_slices(const DataArray &src, DataArray dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
+  expect_can_copy_slices(src, dst, dim);
   copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
-  expect_matching_keys(src.meta(), dst.meta());
-  expect_matching_keys(src.masks(), dst.masks());
   for (const auto &[name, coord] : src.meta())
     copy_or_match(coord, dst.meta()[name], dim, srcIndices, dstIndices);
   for (const auto &[name, mask] : src.masks())
diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 248cfd5..fd870f1 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -3,6 +3,7 @@
 /// @file
 /// @author Simon Heybrock
 #include "scipp/dataset/data_array.h"
+#include "scipp/dataset/bins.h"
 #include "scipp/dataset/dataset_util.h"
 #include "scipp/variable/misc_operations.h"
 
@@ -135,10 +136,15 @@ DataArray DataArray::slice(const Slice &s) const {
 
 void DataArray::validateSlice(const Slice &s, const DataArray &array) const {
   expect::coords_are_superset(slice(s), array, "");
-  data().validateSlice(s, array.data());
+  validateSlice(s, array.data());
   masks().validateSlice(s, array.masks());
 }
 
+void DataArray::validateSlice(const Slice &s, const Variable &var) const {
+  data().validateSlice(s, var);
+  expect_can_copy_bin_content(var, data());
+}
+
 DataArray &DataArray::setSlice(const Slice &s, const DataArray &array) {
   // Validate everything before applying any change, such that a failure has no
   // effect.
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index cf4b2d7..b614708 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -259,7 +259,7 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
   // Validate slice on all items as a dry-run
   for (const auto &item : m_data)
-    item.second.data().validateSlice(s, data);
+    item.second.validateSlice(s, data);
   // Only if all items checked for dry-run does modification go-ahead
   for (auto &&[_, val] : m_data)
     val.setSlice(s, data);
diff --git a/lib/dataset/include/scipp/dataset/bins.h b/lib/dataset/include/scipp/dataset/bins.h
index f716e18..a6b03de 100644
--- a/lib/dataset/include/scipp/dataset/bins.h
+++ b/lib/dataset/include/scipp/dataset/bins.h
@@ -10,6 +10,11 @@
 
 namespace scipp::dataset {
 
+SCIPP_DATASET_EXPORT void expect_can_copy_slices(const DataArray &src,
+                                                 const DataArray &dst,
+                                                 const Dim dim);
+SCIPP_DATASET_EXPORT void expect_can_copy_bin_content(const Variable &src,
+                                                      const Variable &dst);
 SCIPP_DATASET_EXPORT void copy_slices(const DataArray &src, DataArray dst,
                                       const Dim dim, const Variable &srcIndices,
                                       const Variable &dstIndices);
diff --git a/lib/dataset/include/scipp/dataset/data_array.h b/lib/dataset/include/scipp/dataset/data_array.h
index 0c3bfa0..0fdbbb8 100644
--- a/lib/dataset/include/scipp/dataset/data_array.h
+++ b/lib/dataset/include/scipp/dataset/data_array.h
@@ -99,6 +99,7 @@ public:
 
   DataArray slice(const Slice &s) const;
   void validateSlice(const Slice &s, const DataArray &array) const;
+  void validateSlice(const Slice &s, const Variable &var) const;
   [[maybe_unused]] DataArray &setSlice(const Slice &s, const DataArray &array);
   [[maybe_unused]] DataArray &setSlice(const Slice &s, const Variable &var);
 
-- 
2.43.0


From 0b2181cbe4976655c9bc36e2944f0a1cdd74643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 17/45] fix: binning along an inner dimension of binned data
 loses events

---
 lib/dataset/bin.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..86a7598 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -341,7 +341,9 @@ public:
         // depending on parameters of the input.
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
-            bin_coords.at(dim).dims().contains(dim) &&
+            // the selected output bins are a contiguous range only if there
+            // is no further output dim outside
+            is_outermost(dim) && bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const bool histogram =
@@ -438,6 +440,17 @@ public:
   void erase(const Dim dim) { m_dims.addInner(dim, 1); }
 
 private:
+  /// True if all output dims outside `dim` have size 1.
+  [[nodiscard]] bool is_outermost(const Dim dim) const {
+    scipp::index outer_volume = 1;
+    for (const auto &label : m_dims) {
+      if (label == dim)
+        break;
+      outer_volume *= m_dims[label];
+    }
+    return outer_volume == 1;
+  }
+
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
-- 
2.43.0


From 38c884851dd209611e1c5ecfb94f8b74ff8e230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 18/45] fix: appending to transposed binned data, or with other
 dims or unit

---
 lib/dataset/bins.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index bd9ecdd..158207f 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -274,11 +274,21 @@ Variable pretend_bins_for_threading(const DataArray &da, Dim bin_dim) {
 namespace scipp::dataset::buckets {
 namespace {
 
+template <class T> void expect_matching_units(const T &a, const T &b) {
+  if constexpr (std::is_same_v<T, Dataset>) {
+    for (const auto &item : a)
+      if (b.contains(item.name()))
+        core::expect::equals(item.unit(), b[item.name()].unit());
+  } else {
+    core::expect::equals(a.unit(), b.unit());
+  }
+}
+
 template <class T> auto combine(const Variable &var0, const Variable &var1) {
   const auto &[indices0, dim0, buffer0] = var0.constituents<T>();
   const auto &[indices1, dim1, buffer1] = var1.constituents<T>();
-  static_cast<void>(buffer1);
   static_cast<void>(dim1);
+  expect_matching_units(buffer0, buffer1);
   const Dim dim = dim0;
   const auto [begin0, end0] = unzip(indices0);
   const auto [begin1, end1] = unzip(indices1);
@@ -302,6 +312,16 @@ auto concatenate_impl(const Variable &var0, const Variable &var1) {
   return combine<T>(var0, var1);
 }
 
+template <class T> void append_impl(Variable &var0, const Variable &var1) {
+  auto out = combine<T>(var0, var1);
+  core::expect::equals(var0.dims(), out.dims());
+  var0.setDataHandle(out.data_handle()); // throws if var0 is a slice
+  // In contrast to `var0`, `out` is never transposed, so replacing just the
+  // data handle is not sufficient.
+  out.set_aligned(var0.is_aligned());
+  var0 = std::move(out);
+}
+
 } // namespace
 
 Variable concatenate(const Variable &var0, const Variable &var1) {
@@ -339,11 +359,11 @@ DataArray concatenate(const DataArray &array, const Dim dim) {
 
 void append(Variable &var0, const Variable &var1) {
   if (var0.dtype() == dtype<bucket<Variable>>)
-    var0.setDataHandle(combine<Variable>(var0, var1).data_handle());
+    append_impl<Variable>(var0, var1);
   else if (var0.dtype() == dtype<bucket<DataArray>>)
-    var0.setDataHandle(combine<DataArray>(var0, var1).data_handle());
+    append_impl<DataArray>(var0, var1);
   else
-    var0.setDataHandle(combine<Dataset>(var0, var1).data_handle());
+    append_impl<Dataset>(var0, var1);
 }
 
 void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
-- 
2.43.0


From 920efe7a51205eb7771386feb97ce9f631bd65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 19/45] fix: find the bin of an event when rounding errors
 accumulate in the edges

---
 lib/core/include/scipp/core/histogram.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 16e7c34..2b25d01 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -40,13 +40,13 @@ Index get_bin(const T &x, const Edges &edges, const Params &params) {
   const auto [offset, nbin, scale] = params;
   Index bin = (x - offset) * scale;
   bin = std::clamp(bin, Index(0), Index(nbin - 1));
-  if (x < edges[bin]) {
-    return bin - 1;
-  } else if (x >= edges[bin + 1]) {
-    return bin + 1;
-  } else {
-    return bin;
-  }
+  // The computed bin is a guess since rounding errors may have accumulated in
+  // the edges. As x is within the edges the correct bin exists.
+  while (x < edges[bin])
+    --bin;
+  while (x >= edges[bin + 1])
+    ++bin;
+  return bin;
 }
 
 } // namespace scipp::core
-- 
2.43.0


From b4b522b84e6995f7153f568ea96c7b0dbca3c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 20/45] fix: rebin along an outer dimension: edge unit,
 variances, NaN and empty input

---
 lib/variable/rebin.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..23d4e9c 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -17,6 +17,20 @@ using namespace scipp::core::element;
 
 namespace scipp::variable {
 
+namespace {
+/// Scale values and variances by the same factor, as in element::rebin.
+Variable scale_counts(const Variable &var, const double scale) {
+  const auto factor = scale * (var.unit() / var.unit());
+  auto scaled = var * factor;
+  if (scaled.has_variances()) {
+    auto scaled_variances = variances(var) * factor;
+    scaled_variances.setUnit(scaled.unit());
+    scaled.setVariances(scaled_variances);
+  }
+  return scaled;
+}
+} // namespace
+
 template <typename T, class Less>
 void rebin_non_inner(const Dim dim, const Variable &oldT,
                      // cppcheck-suppress constParameter # bug in cppcheck
@@ -27,6 +41,8 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
         "Internal error in rebin, this should be unreachable.");
   const auto oldSize = oldT.dims()[dim];
   const auto newSize = newT.dims()[dim];
+  if (oldSize == 0)
+    return;
 
   const auto *xold = oldCoord.values<T>().data();
   const auto *xnew = newCoord.values<T>().data();
@@ -38,9 +54,11 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     // delta is the overlap of the bins on the x axis
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
+    // Skip adjacent bins without overlap, they may contain NaN or infinity.
+    if (delta == 0)
+      return;
     const auto owidth = std::abs(xo_high - xo_low);
-    slice += oldT.slice({dim, iold}) *
-             ((delta / owidth) * (slice.unit() / oldT.unit()));
+    slice += scale_counts(oldT.slice({dim, iold}), delta / owidth);
   };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
@@ -146,6 +164,9 @@ Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
           core::element::rebin<Greater>, "rebin");
     }
   } else {
+    if (oldEdges.unit() != newEdges.unit())
+      throw except::UnitError(
+          "Input and output bin edges must have the same unit.");
     auto dims = var.dims();
     dims.resize(dim, newEdges.dims()[dim] - 1);
     rebinned = Variable(astype(Variable(var, Dimensions{}), out_type), dims);
-- 
2.43.0


From 12feb29bb7835133c8f2182e9f1805a81a5765da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 21/45] fix: skip bins without elements when a non-bin dim of
 the buffer has size 0

---
 lib/core/include/scipp/core/multi_index.h | 5 ++++-
 lib/core/multi_index.cpp                  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/multi_index.h b/lib/core/include/scipp/core/multi_index.h
index d191061..701aaf5 100644
--- a/lib/core/include/scipp/core/multi_index.h
+++ b/lib/core/include/scipp/core/multi_index.h
@@ -4,6 +4,7 @@
 /// @author Simon Heybrock
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <numeric>
 #include <optional>
@@ -213,7 +214,9 @@ private:
   }
 
   [[nodiscard]] bool current_bin_is_empty() const noexcept {
-    return m_shape[m_nested_dim_index] == 0;
+    // Any of the inner dims may have size 0, not just the bin-slice dim.
+    return std::find(m_shape.begin(), m_shape.begin() + m_inner_ndim, 0) !=
+           m_shape.begin() + m_inner_ndim;
   }
 
   struct BinIterator {
diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index bbfbb35..61c4a8e 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -185,7 +185,7 @@ MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
   for (scipp::index data = 0; data < N; ++data) {
     load_bin_params(data);
   }
-  if (m_shape[m_nested_dim_index] == 0 || bin_dims.volume() == 0)
+  if (current_bin_is_empty() || bin_dims.volume() == 0)
     seek_bin();
 }
 
-- 
2.43.0


From 370e32d029b462b3e88f723f2a05fa247a166bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 22/45] fix: keep order of dims in mean and nanmean of masked
 data

---
 lib/dataset/variable_reduction.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index 9a1428b..47fcb9f 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -17,12 +17,21 @@
 namespace scipp::dataset {
 
 namespace {
+/// Return the union of masks along dim, with the dim order of the data.
+Variable aligned_irreducible_mask(const Variable &var, const Masks &masks,
+                                  const Dim dim) {
+  const auto mask_union = irreducible_mask(masks, dim);
+  if (!mask_union.is_valid())
+    return mask_union;
+  return transpose(mask_union,
+                   intersection(var.dims(), mask_union.dims()).labels());
+}
+
 template <class Op>
 Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
                      const FillValue fill, const Op &op) {
-  if (auto mask_union = irreducible_mask(masks, dim); mask_union.is_valid()) {
-    mask_union = transpose(
-        mask_union, intersection(var.dims(), mask_union.dims()).labels());
+  if (const auto mask_union = aligned_irreducible_mask(var, masks, dim);
+      mask_union.is_valid()) {
     return op(
         where(mask_union, dense_special_like(var, Dimensions{}, fill), var),
         dim);
@@ -72,7 +81,7 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = aligned_irreducible_mask(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(~mask_union, dim);
     return mean_impl(where(mask_union, zero_like(var), var), dim, count);
@@ -81,7 +90,7 @@ Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = aligned_irreducible_mask(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-- 
2.43.0


From 77eb5a33f288c072d71ea4296ee41e8505f0b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 23/45] fix: support condition that is not contiguous in
 extract

---
 lib/dataset/extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/extract.cpp b/lib/dataset/extract.cpp
index c3ee1c8..7bddda1 100644
--- a/lib/dataset/extract.cpp
+++ b/lib/dataset/extract.cpp
@@ -101,7 +101,7 @@ template <class T> T extract_impl(const T &obj, const Variable &condition) {
         " must be be included in the dimensions of the sliced object " +
         to_string(obj.dims()) + '.');
 
-  auto values = condition.values<bool>().as_span();
+  const auto values = condition.values<bool>();
   std::vector<scipp::index_pair> indices;
   for (scipp::index i = 0; i < scipp::size(values); ++i) {
     if (i > 0 && values[i - 1] == values[i])
-- 
2.43.0


From 339590f5684d7ac2706ef195cedd02ebe784f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 24/45] fix: keep name of data array in rename_dims

---
 lib/dataset/data_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index fd870f1..4e3f5c6 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -217,7 +217,7 @@ DataArray DataArray::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
   return DataArray(m_data->rename_dims(names, fail_on_unknown),
                    m_coords->rename_dims(names, false),
                    m_masks->rename_dims(names, false),
-                   m_attrs->rename_dims(names, false));
+                   m_attrs->rename_dims(names, false), name());
 }
 
 DataArray DataArray::as_const() const {
-- 
2.43.0


From 8163026239f646c9fb57cedad03433dbb6e2ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 25/45] fix: groupby reductions of masked binned, transposed,
 or bool data

---
 lib/dataset/groupby.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 579e701..9d193a0 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -12,6 +12,7 @@
 #include "scipp/core/tag_util.h"
 
 #include "scipp/variable/accumulate.h"
+#include "scipp/variable/creation.h"
 #include "scipp/variable/cumulative.h"
 #include "scipp/variable/operations.h"
 #include "scipp/variable/util.h"
@@ -72,9 +73,13 @@ template <class Op, class Groups>
 void reduce_(Op op, const Dim reductionDim, const Variable &out_data,
              const DataArray &data, const Dim dim, const Groups &groups,
              const FillValue fill) {
-  const auto mask_replacement =
-      special_like(Variable(data.data(), Dimensions{}), fill);
+  // The replacement is applied before reducing, it must have the input dtype.
+  const auto mask_replacement = dense_special_like(
+      data.data(), Dimensions{},
+      fill == FillValue::ZeroNotBool ? FillValue::Default : fill);
   auto mask = irreducible_mask(data.masks(), reductionDim);
+  if (mask.is_valid())
+    mask = transpose(mask, intersection(data.dims(), mask.dims()).labels());
   const auto process = [&](const auto &range) {
     // Apply to each group, storing result in output slice
     for (scipp::index group = range.begin(); group != range.end(); ++group) {
-- 
2.43.0


From 5fa7f00165879fcbad5c60a40fed4a4fba67a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 26/45] fix: keep keys and values of Dict consistent when an
 insertion fails

---
 lib/core/include/scipp/core/dict.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/dict.h b/lib/core/include/scipp/core/dict.h
index 023835e..72aa9f2 100644
--- a/lib/core/include/scipp/core/dict.h
+++ b/lib/core/include/scipp/core/dict.h
@@ -275,8 +275,13 @@ public:
 
   template <class V> void insert_or_assign(const key_type &key, V &&value) {
     if (const auto key_it = find_key(key); key_it == m_keys.end()) {
-      m_keys.push_back(key);
       m_values.emplace_back(std::forward<V>(value));
+      try {
+        m_keys.push_back(key);
+      } catch (...) {
+        m_values.pop_back();
+        throw;
+      }
     } else {
       m_values[index_of(key_it)] = std::forward<V>(value);
     }
-- 
2.43.0


From febec6934c97e5ddfad1cc661cc7f8f68659d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 27/45] fix: do not declare allocating functions noexcept

---
 lib/dataset/bin.cpp                           |  4 +--
 lib/dataset/include/scipp/dataset/bins_view.h | 34 +++++++------------
 lib/variable/include/scipp/variable/visit.h   |  2 +-
 3 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 86a7598..fce59c0 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -393,7 +393,7 @@ public:
     }
   }
 
-  [[nodiscard]] auto edges() const noexcept {
+  [[nodiscard]] auto edges() const {
     std::vector<Variable> vars;
     for (const auto &[action, dim, key] : m_actions) {
       static_cast<void>(dim);
@@ -403,7 +403,7 @@ public:
     return vars;
   }
 
-  [[nodiscard]] auto groups() const noexcept {
+  [[nodiscard]] auto groups() const {
     std::vector<Variable> vars;
     for (const auto &[action, dim, key] : m_actions) {
       static_cast<void>(dim);
diff --git a/lib/dataset/include/scipp/dataset/bins_view.h b/lib/dataset/include/scipp/dataset/bins_view.h
index 19d5a57..34ee6e0 100644
--- a/lib/dataset/include/scipp/dataset/bins_view.h
+++ b/lib/dataset/include/scipp/dataset/bins_view.h
@@ -61,7 +61,7 @@ public:
   using mapped_type = typename MapView::mapped_type;
   BinsMapView(const BinsCommon<T> base, MapGetter map)
       : BinsCommon<T>(base), m_map(map) {}
-  scipp::index size() const noexcept { return mapView().size(); }
+  scipp::index size() const { return mapView().size(); }
   auto operator[](const key_type &key) const {
     return this->make(mapView()[key]);
   }
@@ -72,38 +72,30 @@ public:
   void set(const key_type &key, const Variable &var) {
     mapView().set(key, this->check_and_get_buf(var));
   }
-  auto begin() const noexcept {
-    return mapView().begin().transform(make_item{this});
-  }
-  auto end() const noexcept {
-    return mapView().end().transform(make_item{this});
-  }
-  auto keys_begin() const noexcept { return mapView().keys_begin(); }
-  auto keys_end() const noexcept { return mapView().keys_end(); }
-  auto values_begin() const noexcept {
+  auto begin() const { return mapView().begin().transform(make_item{this}); }
+  auto end() const { return mapView().end().transform(make_item{this}); }
+  auto keys_begin() const { return mapView().keys_begin(); }
+  auto keys_end() const { return mapView().keys_end(); }
+  auto values_begin() const {
     return mapView().values_begin().transform(make_value{this});
   }
-  auto values_end() const noexcept {
+  auto values_end() const {
     return mapView().values_end().transform(make_value{this});
   }
-  auto items_begin() const noexcept { return begin(); }
-  auto items_end() const noexcept { return end(); }
-  bool contains(const key_type &key) const noexcept {
-    return mapView().contains(key);
-  }
-  scipp::index count(const key_type &key) const noexcept {
-    return mapView().count(key);
-  }
+  auto items_begin() const { return begin(); }
+  auto items_end() const { return end(); }
+  bool contains(const key_type &key) const { return mapView().contains(key); }
+  scipp::index count(const key_type &key) const { return mapView().count(key); }
   void set_aligned(const key_type &key, const bool aligned) {
     mapView().set_aligned(key, aligned);
   }
   bool is_edges(const key_type &, std::optional<Dim>) const noexcept {
     return false; // event-coordinates are never edges
   }
-  bool operator==(const BinsMapView &other) const noexcept {
+  bool operator==(const BinsMapView &other) const {
     return mapView() == other.mapView();
   }
-  bool operator!=(const BinsMapView &other) const noexcept {
+  bool operator!=(const BinsMapView &other) const {
     return mapView() != other.mapView();
   }
 
diff --git a/lib/variable/include/scipp/variable/visit.h b/lib/variable/include/scipp/variable/visit.h
index f93c5b4..a0e375a 100644
--- a/lib/variable/include/scipp/variable/visit.h
+++ b/lib/variable/include/scipp/variable/visit.h
@@ -38,7 +38,7 @@ template <class T, class Var> auto variable_access(Var &var) {
 namespace visit_detail {
 
 template <template <class...> class Tuple, class... T, class... V>
-static bool holds_alternatives(Tuple<T...> &&, const V &...v) noexcept {
+static bool holds_alternatives(Tuple<T...> &&, const V &...v) {
   return ((dtype<T> == variableFactory().elem_dtype(v)) && ...);
 }
 
-- 
2.43.0


From 0cad251e0d2b62fbc1a37d8ccb99e860df1550ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 28/45] fix: do not write coord alignment of a shared bin
 buffer unless it changes

---
 lib/variable/include/scipp/variable/bin_array_model.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/bin_array_model.h b/lib/variable/include/scipp/variable/bin_array_model.h
index eb7cd76..ec3daee 100644
--- a/lib/variable/include/scipp/variable/bin_array_model.h
+++ b/lib/variable/include/scipp/variable/bin_array_model.h
@@ -134,8 +134,12 @@ namespace {
 template <class T>
 void copy_coord_alignment(const T &src_buffer, Variable &dest) {
   auto &dest_buffer = dest.bin_buffer<T>();
+  // `dest` may be a slice sharing its buffer with others: do not write unless
+  // there is something to change.
   for (const auto &[key, var] : src_buffer.coords())
-    dest_buffer.coords().set_aligned(key, var.is_aligned());
+    if (const bool aligned = var.is_aligned();
+        dest_buffer.coords()[key].is_aligned() != aligned)
+      dest_buffer.coords().set_aligned(key, aligned);
 }
 } // namespace
 
-- 
2.43.0


From a56b6d151e43463c1c59524bd7debe46d7b6721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:39 +0000
Subject: [PATCH 29/45] fix: mean of binned data counts all elements of
 multi-dimensional bin contents

count() and bins_count() counted the slices of the buffer in each bin, which is
less than the number of summed elements if the buffer has further dimensions.
---
 .../include/scipp/variable/variable_factory.h  |  1 +
 lib/variable/reduction.cpp                     | 18 +++++++++++++++---
 lib/variable/variable_factory.cpp              |  7 +++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/variable/include/scipp/variable/variable_factory.h b/lib/variable/include/scipp/variable/variable_factory.h
index b42321a..0167773 100644
--- a/lib/variable/include/scipp/variable/variable_factory.h
+++ b/lib/variable/include/scipp/variable/variable_factory.h
@@ -92,6 +92,7 @@ public:
   void set_elem_unit(Variable &var, const units::Unit &u) const;
   bool has_masks(const Variable &var) const;
   bool has_variances(const Variable &var) const;
+  core::ElementArrayViewParams array_params(const Variable &var) const;
   template <class T, class Var> auto values(Var &&var) const {
     if (!is_bins(var))
       return var.template values<T>();
diff --git a/lib/variable/reduction.cpp b/lib/variable/reduction.cpp
index 27db027..c15ee42 100644
--- a/lib/variable/reduction.cpp
+++ b/lib/variable/reduction.cpp
@@ -127,6 +127,19 @@ Variable unmasked_events(const Variable &data) {
   return {};
 }
 
+/// Number of elements, which is larger than the size of a bin if the buffer has
+/// more dimensions than the bin-slice dim.
+Variable elements_per_bin(const Variable &data) {
+  const auto params = variableFactory().array_params(data);
+  const auto &bin_params = params.bucketParams();
+  scipp::index slice_volume = 1;
+  for (const auto &label : bin_params.dims.labels())
+    if (label != bin_params.dim)
+      slice_volume *= bin_params.dims[label];
+  return slice_volume == 1 ? bin_sizes(data)
+                           : bin_sizes(data) * (slice_volume * units::none);
+}
+
 template <class... Dim> Variable count(const Variable &var, Dim &&...dim) {
   if (!is_bins(var)) {
     if constexpr (sizeof...(dim) == 0)
@@ -137,15 +150,14 @@ template <class... Dim> Variable count(const Variable &var, Dim &&...dim) {
   if (const auto unmasked = unmasked_events(var); unmasked.is_valid()) {
     return sum(unmasked, dim...);
   }
-  const auto [begin, end] = unzip(var.bin_indices());
-  return sum(end - begin, dim...);
+  return sum(elements_per_bin(var), dim...);
 }
 
 Variable bins_count(const Variable &data) {
   if (const auto unmasked = unmasked_events(data); unmasked.is_valid()) {
     return bins_sum(unmasked);
   }
-  return bin_sizes(data);
+  return elements_per_bin(data);
 }
 } // namespace
 
diff --git a/lib/variable/variable_factory.cpp b/lib/variable/variable_factory.cpp
index 4d82dea..6520575 100644
--- a/lib/variable/variable_factory.cpp
+++ b/lib/variable/variable_factory.cpp
@@ -70,6 +70,13 @@ bool VariableFactory::has_variances(const Variable &var) const {
   return m_makers.at(var.dtype())->has_variances(var);
 }
 
+/// Return view parameters, including those of the bin contents for binned data.
+core::ElementArrayViewParams
+VariableFactory::array_params(const Variable &var) const {
+  return is_bins(var) ? m_makers.at(var.dtype())->array_params(var)
+                      : var.array_params();
+}
+
 Variable VariableFactory::empty_like(const Variable &prototype,
                                      const std::optional<Dimensions> &shape,
                                      const Variable &sizes) {
-- 
2.43.0


From 1fd58457c987fb27f9bc82bdffc0a95d2dcf3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:39 +0000
Subject: [PATCH 30/45] fix: setSlice of binned data rejects mismatching bin
 contents before modifying anything

Variable::validateSlice did not compare the inner dimensions of the bins.
DataArray::setSlice and Dataset::setSlice therefore failed half way through.
---
 lib/variable/variable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index 00b4825..c98c62e 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -8,6 +8,7 @@
 
 #include "scipp/core/dtype.h"
 #include "scipp/core/eigen.h"
+#include "scipp/core/multi_index.h"
 #include "scipp/variable/arithmetic.h"
 #include "scipp/variable/bins.h"
 #include "scipp/variable/except.h"
@@ -239,6 +240,10 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
     if (bin_sizes(target) != bin_sizes(data).broadcast(target.dims()))
       throw except::BinnedDataError(
           "Invalid slice operation. Bin sizes of slice and variable differ.");
+    // The constructor rejects bin contents with mismatching dimensions.
+    static_cast<void>(core::MultiIndex(
+        variableFactory().array_params(target),
+        variableFactory().array_params(data.broadcast(target.dims()))));
   }
 }
 
-- 
2.43.0


From 6dd0c29030fa158d40fac9d71c7bd99f0d1ee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:05 +0000
Subject: [PATCH 31/45] fix: inserting a slice into a dataset does not make
 masks and attrs of the item readonly

---
 lib/dataset/dataset.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index b614708..bc3cbd8 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -204,8 +204,10 @@ void Dataset::setData(const std::string &name, const DataArray &data) {
   // Attrs might be shadowed by a coord, but this cannot be prevented in
   // general, so instead of failing here we proceed (and may fail later if
   // meta() is called).
-  item.attrs() = data.attrs();
-  item.masks() = data.masks();
+  // Copy-construct, since the data array may be a slice with readonly attrs and
+  // masks, which does not make those of the new item readonly.
+  item.attrs() = Attrs(data.attrs());
+  item.masks() = Masks(data.masks());
 }
 
 /// Like setData but allow inserting into a default-initialized dataset.
@@ -230,6 +232,10 @@ void Dataset::setDataInit(const std::string &name, const DataArray &data) {
 Dataset Dataset::slice(const Slice &s) const {
   Dataset out(slice_map(m_coords.sizes(), m_data, s));
   out.m_coords = m_coords.slice_coords(s);
+  for (auto &&item : out.m_data) {
+    item.second.attrs().set_readonly();
+    item.second.masks().set_readonly();
+  }
   out.m_readonly = true;
   return out;
 }
-- 
2.43.0


From da59cc5c9544284ecdb3ded7ef476f6a8e487f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:05 +0000
Subject: [PATCH 32/45] fix: assigning a Dict or SizedDict has no effect when
 running out of memory

The keys had already been replaced when copying the values failed, leaving keys
without values. The sizes of a SizedDict were replaced as well.
---
 lib/core/include/scipp/core/dict.h | 9 +++++++++
 lib/dataset/sized_dict.cpp         | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/dict.h b/lib/core/include/scipp/core/dict.h
index 72aa9f2..cb81caf 100644
--- a/lib/core/include/scipp/core/dict.h
+++ b/lib/core/include/scipp/core/dict.h
@@ -256,6 +256,15 @@ public:
   }
 
   Dict() = default;
+  Dict(const Dict &) = default;
+  Dict(Dict &&) noexcept = default;
+  ~Dict() = default;
+
+  Dict &operator=(const Dict &other) {
+    // Keys and values must not get out of sync if copying the values throws.
+    return *this = Dict(other);
+  }
+  Dict &operator=(Dict &&) noexcept = default;
 
   /// Return the number of elements.
   [[nodiscard]] index size() const noexcept { return scipp::size(m_keys); }
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index fa86bf3..449b51f 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -89,7 +89,12 @@ SizedDict<Key, Value>::SizedDict(SizedDict &&other) noexcept
 
 template <class Key, class Value>
 SizedDict<Key, Value> &
-SizedDict<Key, Value>::operator=(const SizedDict &other) = default;
+SizedDict<Key, Value>::operator=(const SizedDict &other) {
+  // Copy before modifying *this, copying may throw.
+  SizedDict tmp(other);
+  tmp.m_readonly = other.m_readonly;
+  return *this = std::move(tmp);
+}
 
 template <class Key, class Value>
 SizedDict<Key, Value> &
-- 
2.43.0


From 73dd74de5e89fbc21aff10db6a9fc018cd9e6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:05 +0000
Subject: [PATCH 33/45] fix: adding a dimension to Sizes has no effect when
 running out of memory

With more than 4 dimensions the label was kept if allocating space for the size
failed, i.e., there were more labels than sizes.
---
 lib/core/include/scipp/core/sizes.h | 13 +++++++++++++
 lib/core/sizes.cpp                  |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/lib/core/include/scipp/core/sizes.h b/lib/core/include/scipp/core/sizes.h
index 5d4769f..b42a05b 100644
--- a/lib/core/include/scipp/core/sizes.h
+++ b/lib/core/include/scipp/core/sizes.h
@@ -38,6 +38,17 @@ public:
   static constexpr auto capacity = Capacity;
 
   small_stable_map() = default;
+  small_stable_map(const small_stable_map &) = default;
+  small_stable_map(small_stable_map &&) = default;
+  ~small_stable_map() = default;
+
+  small_stable_map &operator=(const small_stable_map &other) {
+    reserve(other.size());
+    m_keys = other.m_keys;
+    m_values = other.m_values;
+    return *this;
+  }
+  small_stable_map &operator=(small_stable_map &&) = default;
 
   bool operator==(const small_stable_map &other) const noexcept;
   bool operator!=(const small_stable_map &other) const noexcept;
@@ -73,6 +84,8 @@ public:
   }
 
 private:
+  void reserve(const scipp::index size);
+
   boost::container::small_vector<Key, Capacity> m_keys{};
   boost::container::small_vector<Value, Capacity> m_values{};
 };
diff --git a/lib/core/sizes.cpp b/lib/core/sizes.cpp
index 17c1716..3792fb7 100644
--- a/lib/core/sizes.cpp
+++ b/lib/core/sizes.cpp
@@ -91,6 +91,7 @@ template <class Key, class Value, int16_t Capacity>
 void small_stable_map<Key, Value, Capacity>::insert_left(const Key &key,
                                                          const Value &value) {
   expectUnique(*this, key);
+  reserve(size() + 1);
   m_keys.insert(m_keys.begin(), key);
   m_values.insert(m_values.begin(), value);
 }
@@ -99,6 +100,7 @@ template <class Key, class Value, int16_t Capacity>
 void small_stable_map<Key, Value, Capacity>::insert_right(const Key &key,
                                                           const Value &value) {
   expectUnique(*this, key);
+  reserve(size() + 1);
   m_keys.push_back(key);
   m_values.push_back(value);
 }
@@ -124,6 +126,13 @@ void small_stable_map<Key, Value, Capacity>::replace_key(const Key &key,
   m_keys[index(key)] = new_key;
 }
 
+/// Allocate before modifying keys or values, to keep them consistent.
+template <class Key, class Value, int16_t Capacity>
+void small_stable_map<Key, Value, Capacity>::reserve(const scipp::index size) {
+  m_keys.reserve(size);
+  m_values.reserve(size);
+}
+
 template class small_stable_map<Dim, scipp::index, NDIM_STACK>;
 
 void Sizes::set(const Dim dim, const scipp::index size) {
-- 
2.43.0


From 8667d3ae8dbc91f8e7ab1ff652e4650a1c94ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 34/45] fix: mean and nanmean of binned data with masked bins

Masked bins were replaced by empty bins, which failed unless all bins were
empty, and the number of bins was used instead of the number of elements.
---
 lib/dataset/variable_reduction.cpp | 19 ++++++++++++++++---
 lib/variable/operations_common.h   |  2 ++
 lib/variable/reduction.cpp         |  3 ++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index 47fcb9f..f70286c 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -38,6 +38,15 @@ Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
   }
   return op(var, dim);
 }
+
+/// Replace masked elements, or all elements of masked bins, by zero.
+Variable masked_by_zero(const Variable &var, const Variable &mask) {
+  return where(mask,
+               is_bins(var)
+                   ? dense_special_like(var, Dimensions{}, FillValue::Default)
+                   : zero_like(var),
+               var);
+}
 } // namespace
 
 Variable sum(const Variable &var, const Dim dim, const Masks &masks) {
@@ -83,8 +92,12 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
   if (const auto mask_union = aligned_irreducible_mask(var, masks, dim);
       mask_union.is_valid()) {
-    const auto count = sum(~mask_union, dim);
-    return mean_impl(where(mask_union, zero_like(var), var), dim, count);
+    const auto count =
+        is_bins(var) ? sum(where(mask_union, scipp::index{0} * units::none,
+                                 bins_count(var)),
+                           dim)
+                     : sum(~mask_union, dim);
+    return mean_impl(masked_by_zero(var, mask_union), dim, count);
   }
   return mean(var, dim);
 }
@@ -94,7 +107,7 @@ Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-    return nanmean_impl(where(mask_union, zero_like(var), var), dim, count);
+    return nanmean_impl(masked_by_zero(var, mask_union), dim, count);
   }
   return nanmean(var, dim);
 }
diff --git a/lib/variable/operations_common.h b/lib/variable/operations_common.h
index c20b68c..e0c7526 100644
--- a/lib/variable/operations_common.h
+++ b/lib/variable/operations_common.h
@@ -18,6 +18,8 @@ SCIPP_VARIABLE_EXPORT Variable mean_impl(const Variable &var, const Dim dim,
 SCIPP_VARIABLE_EXPORT Variable nanmean_impl(const Variable &var, const Dim dim,
                                             const Variable &masks_sum);
 
+SCIPP_VARIABLE_EXPORT Variable bins_count(const Variable &data);
+
 template <class T> T normalize_impl(const T &numerator, T denominator) {
   // Numerator may be an int or a Eigen::Vector3d => use double
   // This approach would be wrong if we supported vectors of float
diff --git a/lib/variable/reduction.cpp b/lib/variable/reduction.cpp
index c15ee42..efa4277 100644
--- a/lib/variable/reduction.cpp
+++ b/lib/variable/reduction.cpp
@@ -152,14 +152,15 @@ template <class... Dim> Variable count(const Variable &var, Dim &&...dim) {
   }
   return sum(elements_per_bin(var), dim...);
 }
+} // namespace
 
+/// Return the number of unmasked elements in each bin.
 Variable bins_count(const Variable &data) {
   if (const auto unmasked = unmasked_events(data); unmasked.is_valid()) {
     return bins_sum(unmasked);
   }
   return elements_per_bin(data);
 }
-} // namespace
 
 Variable mean(const Variable &var, const Dim dim) {
   return mean_impl(var, dim, count(var, dim));
-- 
2.43.0


From 3395debc596365a7df00a6b76cf499ce506599bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 35/45] fix: fold rejects sizes that do not match the folded
 dimension of empty data

Comparing volumes accepts any sizes if there is another dimension of size 0.
---
 lib/core/dimensions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/dimensions.cpp b/lib/core/dimensions.cpp
index 07f5c1e..f8d0c1a 100644
--- a/lib/core/dimensions.cpp
+++ b/lib/core/dimensions.cpp
@@ -154,7 +154,7 @@ Dimensions fold(const Dimensions &old_dims, const Dim from_dim,
     else
       for (const auto &lab : to_dims.labels())
         new_dims.addInner(lab, to_dims[lab]);
-  if (old_dims.volume() != new_dims.volume())
+  if (old_dims[from_dim] != to_dims.volume())
     throw except::DimensionError(
         "Sizes " + to_string(to_dims) +
         " provided to `fold` not compatible with length '" +
-- 
2.43.0


From c9ce11de3a3c2453cdc7ee5089ffce4f33ab9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:47 +0000
Subject: [PATCH 36/45] fix: resize of a dataset to the shape of another
 dataset

It always failed, setData cannot be used with a default-constructed dataset.
---
 lib/dataset/shape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index b2f0d79..09ab81b 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -164,8 +164,8 @@ DataArray resize(const DataArray &a, const Dim dim, const DataArray &shape) {
 Dataset resize(const Dataset &d, const Dim dim, const Dataset &shape) {
   Dataset result;
   for (const auto &data : d)
-    result.setData(data.name(), resize(data, dim, shape[data.name()]));
-  return result;
+    result.setDataInit(data.name(), resize(data, dim, shape[data.name()]));
+  return std::move(result).or_empty();
 }
 
 namespace {
-- 
2.43.0


From e0e60c0dc2cd41cf7a883193ba726d257a74a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:47 +0000
Subject: [PATCH 37/45] fix: flatten of bin edges along outer dimensions or
 with other dimensions

The check if edges can be joined only considered the first and last edge of
the flattened dimension, such that coords were kept even if bins in between are
disconnected, and mixed up dimensions that are not flattened. The alignment flag
was lost and data of size 0 was rejected.
---
 lib/dataset/shape.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 09ab81b..453bebb 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -210,30 +210,29 @@ Variable fold_bin_edge(const Variable &var, const Dim from_dim,
 }
 
 /// Special handling for flattening coord along a dim that contains bin edges.
+///
+/// Returns an invalid variable if the right edge of any bin differs from the
+/// left edge of the next bin in the flattened output.
 Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
   const auto data_shape = var.dims()[bin_edge_dim] - 1;
+  const auto left =
+      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
+  const auto right = flatten(var.slice({bin_edge_dim, 1, data_shape + 1}),
+                             from_labels, to_dim);
+  const auto size = left.dims()[to_dim];
+  if (size == 0) // There are no bins, edges are defined only if there is one.
+    return from_labels.size() == 1 ? flatten(var, from_labels, to_dim)
+                                   : Variable{};
 
   // Make sure that the bin edges can be joined together
-  const auto front = var.slice({bin_edge_dim, 0});
-  const auto back = var.slice({bin_edge_dim, data_shape});
-  const auto front_flat = flatten(front, front.dims().labels(), to_dim);
-  const auto back_flat = flatten(back, back.dims().labels(), to_dim);
-  if (front_flat.slice({to_dim, 1, front.dims().volume()}) !=
-      back_flat.slice({to_dim, 0, back.dims().volume() - 1}))
+  if (!equals_nan(left.slice({to_dim, 1, size}),
+                  right.slice({to_dim, 0, size - 1})))
     return {};
-
-  // Make the bulk slice of the coord, leaving out the last bin edge
-  const auto bulk =
-      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
-  auto out_dims = bulk.dims();
-  // To make the container of the right size, we increase to_dim by 1
-  out_dims.resize(to_dim, out_dims[to_dim] + 1);
-  auto out = empty(out_dims, var.unit(), var.dtype(), var.has_variances());
-  copy(bulk, out.slice({to_dim, 0, out_dims[to_dim] - 1}));
-  copy(back_flat.slice({to_dim, back.dims().volume() - 1}),
-       out.slice({to_dim, out_dims[to_dim] - 1}));
+  auto out =
+      concat(std::vector{left, right.slice({to_dim, size - 1, size})}, to_dim);
+  out.set_aligned(var.is_aligned());
   return out;
 }
 
-- 
2.43.0


From 98147f9e319d8df24f1cbde9c8268135b621c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:47 +0000
Subject: [PATCH 38/45] fix: flatten without dimensions keeps the name of the
 data array

---
 lib/dataset/shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 453bebb..020337b 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -281,7 +281,7 @@ DataArray flatten(const DataArray &a,
   const auto &labels = from_labels.value_or(a.dims().labels());
   if (from_labels.has_value() && labels.empty())
     return DataArray(flatten(a.data(), labels, to_dim), a.coords(), a.masks(),
-                     a.attrs());
+                     a.attrs(), a.name());
   expect_dimension_subset(a.dims(), labels);
   return dataset::transform(a, [&](const auto &in) {
     auto var = (&in == &a.data()) ? in : maybe_broadcast(in, labels, a.dims());
-- 
2.43.0


From 71e9a912ce2833f10ba650510670795be15a13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:44 +0000
Subject: [PATCH 39/45] fix: check that length-2 bin edges fit when data array
 sizes are extended

Operations such as multiplication with a variable with an extra dimension kept
coords that do not fit the dimensions of the resulting data array.
---
 lib/dataset/sized_dict.cpp | 45 ++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index 449b51f..64aeab8 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -203,18 +203,24 @@ Dim SizedDict<Key, Value>::dim_of(const Key &key) const {
   return Dim::Invalid;
 }
 
-template <class Key, class Value>
-void SizedDict<Key, Value>::setSizes(const Sizes &sizes) {
-  scipp::expect::includes(sizes, m_sizes);
-  m_sizes = sizes;
-}
-
 namespace {
 template <class Key>
-void expect_valid_coord_dims(const Key &key, const Dimensions &coord_dims,
+void expect_valid_coord_dims(const Key &key, Dimensions dims,
                              const Sizes &da_sizes) {
   using core::to_string;
-  if (!da_sizes.includes(coord_dims))
+  const auto coord_dims = dims;
+  // Is a good definition for things that are allowed: "would be possible to
+  // concat along existing dim or extra dim"?
+  for (const auto &dim : coord_dims) {
+    if (!da_sizes.contains(dim) && dims[dim] == 2) { // bin edge along extra dim
+      dims.erase(dim);
+      break;
+    } else if (dims[dim] == da_sizes[dim] + 1) {
+      dims.resize(dim, da_sizes[dim]);
+      break;
+    }
+  }
+  if (!da_sizes.includes(dims))
     throw except::DimensionError(
         "Cannot add coord '" + to_string(key) + "' of dims " +
         to_string(coord_dims) + " to DataArray with dims " +
@@ -222,6 +228,15 @@ void expect_valid_coord_dims(const Key &key, const Dimensions &coord_dims,
 }
 } // namespace
 
+template <class Key, class Value>
+void SizedDict<Key, Value>::setSizes(const Sizes &sizes) {
+  scipp::expect::includes(sizes, m_sizes);
+  // Length-2 bin edges along a dim that is not in m_sizes may not fit.
+  for (const auto &[key, value] : m_items)
+    expect_valid_coord_dims(key, value.dims(), sizes);
+  m_sizes = sizes;
+}
+
 template <class Key, class Value>
 void SizedDict<Key, Value>::set(const key_type &key, mapped_type coord) {
   if (contains(key) && at(key).is_same(coord))
@@ -238,19 +253,7 @@ void SizedDict<Key, Value>::set(const key_type &key, mapped_type coord) {
         "use\n"
         "    da.bins.coords[" +
         to_string(key) + "] = binned_var`");
-  auto dims = coord.dims();
-  // Is a good definition for things that are allowed: "would be possible to
-  // concat along existing dim or extra dim"?
-  for (const auto &dim : coord.dims()) {
-    if (!sizes().contains(dim) && dims[dim] == 2) { // bin edge along extra dim
-      dims.erase(dim);
-      break;
-    } else if (dims[dim] == sizes()[dim] + 1) {
-      dims.resize(dim, sizes()[dim]);
-      break;
-    }
-  }
-  expect_valid_coord_dims(key, dims, m_sizes);
+  expect_valid_coord_dims(key, coord.dims(), m_sizes);
   m_items.insert_or_assign(key, std::move(coord));
 }
 
-- 
2.43.0


From 71862c29aeeb3031c4b5b5c1b5a7779c8075fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 40/45] fix: operations with more dimensions than fit on the
 stack may throw bad_alloc

array_params copies dimensions, which allocates, but was declared noexcept.
---
 lib/variable/include/scipp/variable/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/transform.h b/lib/variable/include/scipp/variable/transform.h
index 8a41ee0..70a8630 100644
--- a/lib/variable/include/scipp/variable/transform.h
+++ b/lib/variable/include/scipp/variable/transform.h
@@ -72,7 +72,7 @@ static constexpr decltype(auto) value_maybe_variance(T &&range,
   }
 }
 
-template <class T> static constexpr auto array_params(T &&iterable) noexcept {
+template <class T> static constexpr auto array_params(T &&iterable) {
   if constexpr (is_ValuesAndVariances_v<std::decay_t<T>>)
     return iterable.values;
   else
-- 
2.43.0


From 4168432999ed1baaafe0adc72abb197f60e36869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:07 +0000
Subject: [PATCH 41/45] fix: pow treats binned integers like dense integers

Negative exponents were not rejected, with a division by zero if an element is
zero, and floating-point exponents were not supported.
---
 lib/variable/pow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 9737f4f..8438311 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -90,7 +90,7 @@ Variable pow_handle_dtype(V &&base, const Variable &exponent,
   if (is_bins(exponent)) {
     throw std::invalid_argument("Binned exponents are not supported by pow.");
   }
-  if (!is_int(base.dtype())) {
+  if (!is_int(variableFactory().elem_dtype(base))) {
     return pow_handle_unit(std::forward<V>(base), exponent, in_place);
   }
   if (is_int(exponent.dtype())) {
-- 
2.43.0


From 0049f94723ca59f2ec4a1736556aab940728303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:46 +0000
Subject: [PATCH 42/45] fix: sorting a dataset by a key of other length, such
 as bin edges, is rejected

---
 lib/dataset/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/sort.cpp b/lib/dataset/sort.cpp
index 82b269f..11cf5da 100644
--- a/lib/dataset/sort.cpp
+++ b/lib/dataset/sort.cpp
@@ -59,7 +59,7 @@ Variable indices_for_sorting(const Variable &key, const SortOrder order) {
       core::time_point>::apply<IndicesForSorting>(key.dtype(), key, order);
 }
 
-void require_same_shape(const Dimensions &var_dims, const Dimensions &key_dims,
+void require_same_shape(const Sizes &var_dims, const Dimensions &key_dims,
                         const Dim dim) {
   if (var_dims[dim] != key_dims[dim])
     throw except::DimensionError(
@@ -91,6 +91,7 @@ DataArray sort(const DataArray &array, const Dim &key, const SortOrder order) {
 /// Return a Dataset sorted based on key.
 Dataset sort(const Dataset &dataset, const Variable &key,
              const SortOrder order) {
+  require_same_shape(dataset.sizes(), key.dims(), key.dim());
   return extract_ranges(indices_for_sorting(key, order), dataset, key.dim());
 }
 
-- 
2.43.0


From 02c49703a7db375bf71fbb4cb2a3372440252ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:46 +0000
Subject: [PATCH 43/45] fix: conversion of a dataset to or from densities does
 not modify its input

---
 lib/dataset/counts.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/counts.cpp b/lib/dataset/counts.cpp
index b8eccf4..f5f14a4 100644
--- a/lib/dataset/counts.cpp
+++ b/lib/dataset/counts.cpp
@@ -51,9 +51,10 @@ Dataset toDensity(const Dataset &d, const Dim dim) {
 
 Dataset toDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     toDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray toDensity(const DataArray &a, const Dim dim) {
@@ -82,9 +83,10 @@ Dataset fromDensity(const Dataset &d, const Dim dim) {
 
 Dataset fromDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     fromDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray fromDensity(const DataArray &a, const Dim dim) {
-- 
2.43.0


From bd22c8504ade06fcf291858eb42b1ba81e284c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:01 +0000
Subject: [PATCH 44/45] fix: sorting values treats NaN as the largest value
 instead of leaving the order undefined

---
 lib/core/include/scipp/core/element/sort.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element/sort.h b/lib/core/include/scipp/core/element/sort.h
index 51e72e3..08076d3 100644
--- a/lib/core/include/scipp/core/element/sort.h
+++ b/lib/core/include/scipp/core/element/sort.h
@@ -4,6 +4,7 @@
 /// @author Thibault Chatel
 #pragma once
 
+#include "scipp/common/numeric.h"
 #include "scipp/common/overloaded.h"
 #include "scipp/core/element/arg_list.h"
 #include "scipp/core/element/comparison.h"
@@ -15,6 +16,19 @@
 namespace scipp::core::element {
 
 namespace {
+/// NaN is considered greater than any other value.
+constexpr auto nan_sensitive_less = [](const auto &x, const auto &y) {
+  using T = std::decay_t<decltype(x)>;
+  if constexpr (is_ValueAndVariance_v<T>) {
+    if (numeric::isnan(y.value))
+      return !numeric::isnan(x.value);
+  } else if constexpr (std::is_floating_point_v<T>) {
+    if (numeric::isnan(y))
+      return !numeric::isnan(x);
+  }
+  return x < y;
+};
+
 template <class Compare> constexpr auto make_sort(Compare compare) {
   return overloaded{
       core::element::arg_list<scipp::span<int64_t>, scipp::span<int32_t>,
@@ -43,7 +57,8 @@ template <class Compare> constexpr auto make_sort(Compare compare) {
 }
 } // namespace
 
-auto sort_nonascending = make_sort(greater);
-auto sort_nondescending = make_sort(less);
+auto sort_nonascending = make_sort(
+    [](const auto &x, const auto &y) { return nan_sensitive_less(y, x); });
+auto sort_nondescending = make_sort(nan_sensitive_less);
 
 } // namespace scipp::core::element
-- 
2.43.0


From bde4ea61e8d68a012d91ae8ed232ea0bb4586fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 45/45] fix: in-place operations treat NaN in matching coords
 as equal, as other operations do

---
 lib/dataset/except.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/except.cpp b/lib/dataset/except.cpp
index 98affdd..a0ac6ed 100644
--- a/lib/dataset/except.cpp
+++ b/lib/dataset/except.cpp
@@ -68,7 +68,8 @@ void coords_are_superset(const Coords &a_coords, const Coords &b_coords,
         continue;
     }
     const auto &a_coord = a_coords[key];
-    if (a_coord.is_aligned() && b_coord.is_aligned() && a_coord != b_coord)
+    if (a_coord.is_aligned() && b_coord.is_aligned() &&
+        !equals_nan(a_coord, b_coord))
       throw except::CoordMismatchError(key, a_coord, b_coord, opname);
   }
 }
-- 
2.43.0

