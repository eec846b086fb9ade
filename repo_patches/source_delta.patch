From e33d07997195d18c66a95435d02b86f50443bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 01/11] fix: reject unsupported angular quadrature sizes
 instead of returning a zero grid

---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 4 ++++
 include/integratorxx/quadratures/s2/delley.hpp         | 4 ++++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 4 ++++
 include/integratorxx/quadratures/s2/womersley.hpp      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..64e904f 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -45,6 +46,9 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
   inline static std::tuple<point_container, weight_container>
   generate(size_t npts) {
 
+    if( algebraic_order_by_npts(npts) < 0 )
+      throw std::runtime_error("Unsupported Angular Quadrature Size");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..9381659 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -44,6 +45,9 @@ struct quadrature_traits<Delley<RealType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    if( algebraic_order_by_npts(npts) < 0 )
+      throw std::runtime_error("Unsupported Angular Quadrature Size");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..e22b7b9 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -40,6 +41,9 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts ) {
 
+    if( algebraic_order_by_npts(npts) < 0 )
+      throw std::runtime_error("Unsupported Angular Quadrature Size");
+
     point_container  points( npts );
     weight_container weights( npts );
 
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..f67a615 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -188,6 +189,9 @@ struct quadrature_traits<Womersley<RealType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    if( algebraic_order_by_npts(npts) < 0 )
+      throw std::runtime_error("Unsupported Angular Quadrature Size");
+
     point_container points(npts);
     weight_container weights(npts);
 
-- 
2.43.0


From 1ae0a8940884517c3ce473c2baddaf7f64bafd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 02/11] fix: positive Jacobian for the (-inf,b) interval map

---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From 53740182b864654895280c8dc52a1a416287d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 03/11] fix: drop empty pruning regions for small radial
 quadratures

---
 .../pruned_spherical_quadrature.hpp                      | 2 +-
 include/integratorxx/generators/impl/robust_pruning.hpp  | 9 +++++++++
 .../integratorxx/generators/impl/treutler_pruning.hpp    | 9 +++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..1ba9573 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -37,6 +39,13 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
     {r_div_2,     rsz, angular_quad, unp.angular_size}
   };
 
+  // Drop regions without radial points (small radial quadratures)
+  pruning_regions.erase(
+    std::remove_if( pruning_regions.begin(), pruning_regions.end(),
+      [](const auto& r) { return r.idx_st >= r.idx_en; } ),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..05baa03 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -29,6 +31,13 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
     {r_div_2, rsz,     angular_quad, unp.angular_size}
   };
 
+  // Drop regions without radial points (small radial quadratures)
+  pruning_regions.erase(
+    std::remove_if( pruning_regions.begin(), pruning_regions.end(),
+      [](const auto& r) { return r.idx_st >= r.idx_en; } ),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
-- 
2.43.0


From 04b38136a758f26dd645aea08d999be85c7cd372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 04/11] fix: terminate micro-batching when a batch cannot be
 split spatially

---
 .../integratorxx/batch/spherical_micro_batcher.hpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..dd90643 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -515,7 +515,8 @@ public:
 template <typename PointContainer, typename WeightContainer>
 std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::generate_batches() {
 
-
+  if( max_batch_sz_ == 0 )
+    throw std::runtime_error("Maximum batch size must be positive");
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
   for( size_t i = 0; i < quad_->npts(); ++i ) {
@@ -564,6 +565,14 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
       auto batch_part_its = 
         detail::partition_box( npart_batch, bbox_lo, bbox_up, batch_st, batch_en );
 
+      // No progress (e.g. coincident points): split the batch by size
+      if( batch_part_its.size() <= 2 ) {
+        batch_part_its = { batch_st };
+        while( check_max_batch( std::distance(batch_part_its.back(), batch_en) ) )
+          batch_part_its.emplace_back( batch_part_its.back() + max_batch_sz_ );
+        batch_part_its.emplace_back( batch_en );
+      }
+
       new_part_its.insert( new_part_its.end(), batch_part_its.begin(), 
         batch_part_its.end() );
     } 
-- 
2.43.0


From e348f64e423c66bc9d0a209337581a254bac6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 05/11] fix: sub-quadratures of rules whose points are not
 scalars store weights in the weight container

---
 include/integratorxx/composite_quadratures/sub_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..b19700f 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -55,8 +55,8 @@ struct quadrature_traits<
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-      point_container weights( quad.weights().begin() + begin_idx,
-                              quad.weights().begin() + end_idx );
+      weight_container weights( quad.weights().begin() + begin_idx,
+                                quad.weights().begin() + end_idx );
 
       return std::make_tuple( points, weights );
     }
-- 
2.43.0


From 70f0bb4543e5c6f85f59afafa63b3dddc6b758a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 06/11] fix: const iterators of batches and grid partitions
 compare with, and post-increment to, their own type

---
 include/integratorxx/batch/spherical_micro_batcher.hpp        | 4 ++--
 .../composite_quadratures/pruned_spherical_quadrature.hpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index dd90643..c7383b4 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -351,8 +351,8 @@ class SphericalMicroBatcher {
       return *this;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ){ return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ){ return !(*this == other);   }
 
 
 
diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7fcdc06..7d14d5e 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -98,7 +98,7 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
-- 
2.43.0


From f5c83221dd7f11e861c3692d0256e5ea5661c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 07/11] fix: make grid partitions copy-assignable

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7d14d5e..a200612 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -61,7 +61,8 @@ public:
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
     partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
+    // Quadratures are copy constructible but not copy assignable
+    quads_ = decltype(quads_)(other.quads_);
     return *this;
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
-- 
2.43.0


From 76a22a0628152d00187b45d11f7143928db47b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 08/11] fix: Newton iterations of single-precision
 Gauss-Legendre and Gauss-Lobatto rules converge

---
 include/integratorxx/quadratures/primitive/gausslegendre.hpp | 3 ++-
 include/integratorxx/quadratures/primitive/gausslobatto.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/quadratures/primitive/gausslegendre.hpp b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
index a5ea0d0..cc10cb9 100644
--- a/include/integratorxx/quadratures/primitive/gausslegendre.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
@@ -2,6 +2,7 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -46,7 +47,7 @@ struct quadrature_traits<
     weight_container weights( npts );
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // Since the rules are symmetric around the origin, we only need
     // to compute one half of the points
diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..8ef209b 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -2,6 +2,7 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <limits>
 #include <vector>
 
 namespace IntegratorXX {
@@ -36,7 +37,7 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
     weight_container weights(npts);
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // 2/(n(n-1)) appears in many expressions
     weight_type two_ov_nnm1 = 2.0 / (npts * (npts - 1.0));
-- 
2.43.0


From 364284ead14244ca8350c9a942d69ae42538b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 09/11] fix: reject Gauss-Lobatto and trapezoid rules with
 fewer than two points

---
 include/integratorxx/quadratures/primitive/gausslobatto.hpp | 4 ++++
 include/integratorxx/quadratures/primitive/uniform.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 8ef209b..7708e73 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
 #include <limits>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -33,6 +34,9 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    if(npts < 2)
+      throw std::runtime_error("Gauss-Lobatto requires at least two points");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/primitive/uniform.hpp b/include/integratorxx/quadratures/primitive/uniform.hpp
index 30c3372..5b0cf35 100644
--- a/include/integratorxx/quadratures/primitive/uniform.hpp
+++ b/include/integratorxx/quadratures/primitive/uniform.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -48,6 +49,9 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts, point_type lo, point_type up ) {
 
+    if(npts < 2)
+      throw std::runtime_error("Uniform trapezoid requires at least two points");
+
     const auto npts_use = npts - 1;
     const auto delta_x  = (up - lo) / npts_use;
     point_container  points( npts );
-- 
2.43.0


From ea857848b39e5f776fd91c714fac314d2bbc1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 10/11] fix: batching an empty grid yields no batches

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index c7383b4..9e29b89 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -518,6 +518,9 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
   if( max_batch_sz_ == 0 )
     throw std::runtime_error("Maximum batch size must be positive");
 
+  // An empty grid has no batches (and no bounding box)
+  if( quad_->npts() == 0 ) return { 0 };
+
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
   for( size_t i = 0; i < quad_->npts(); ++i ) {
     q[i] = { quad_->points()[i], quad_->weights()[i] };
-- 
2.43.0


From e34f114dd6ba65cbe91f899ff242cbe5b8420399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 11/11] fix: refuse pruned grids over an empty radial
 quadrature

---
 include/integratorxx/generators/impl/pruned_grid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..6d32abb 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -32,6 +32,8 @@ auto make_pruned_grid(const RadialQuadType& rq,
 
   if(pruning_regions.size() == 0)
     throw std::runtime_error("No Pruning Regions");
+  if(rq.npts() == 0)
+    throw std::runtime_error("Empty Radial Quadrature");
 
   auto angular_quad = pruning_regions[0].angular_quad;
   for(auto r : pruning_regions) {
-- 
2.43.0

