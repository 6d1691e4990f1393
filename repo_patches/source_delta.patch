From e4640069486c65a129f4509a43e2df4660cbf113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 01/13] fix: positive Jacobian for the (-inf,up) bound
 transform

---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From 952ebde6dbc4ca497a9096d77eb7d10040bca9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 02/13] fix: angular quadratures throw on unsupported grid
 sizes

---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..af209ca 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported AhrensBeylkin Grid Size");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..29b1d6e 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Delley Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..8815778 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported LebedevLaikov Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..b53d55c 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -319,6 +320,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From 607ab3cd710a2a298760ade41be3ed10898cbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 03/13] fix: allow a final radial partition region of a single
 point

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
-- 
2.43.0


From 12aa461d130465e923d09a74a1855b8f5d0bab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 04/13] fix: skip empty pruning regions in pruned grid
 generation

---
 include/integratorxx/generators/impl/pruned_grid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..ad25840 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -18,6 +18,7 @@ auto make_pruned_grid_impl(const RadialQuadType& rq,
 
   RadialGridPartition<AngularQuadType> rgp;
   for( auto& region : pruning_regions ) {
+    if( region.idx_st == region.idx_en ) continue; // Region has no radial points
     rgp.add_quad( rq, region.idx_st, AngularQuadType(region.angular_size) );
   }
   rgp.finalize(rq);
-- 
2.43.0


From e20f602c4aaf6a690f79899d46952335201a0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 05/13] fix: terminate batch refinement when oversized batches
 cannot be split

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..2a4d89b 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -581,6 +581,10 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
       new_part_its.begin(),  new_part_its.end(),
       std::back_inserter( union_part_its )
     );
+
+    // Large boxes which contain (numerically) coincident points cannot
+    // be split further
+    if( union_part_its.size() == partition_its.size() ) break;
     
     // Compute new partition sizes
     partition_its = std::move( union_part_its );
-- 
2.43.0


From ffe43f5643a2341f0e68b2f409c973e55776e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 06/13] fix: make batcher const_iterators comparable

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 2a4d89b..f2ef936 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -351,8 +351,8 @@ class SphericalMicroBatcher {
       return *this;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ){ return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ){ return !(*this == other);   }
 
 
 
-- 
2.43.0


From a33b4a2e45798c36de0dfe98f45bfba4da89bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 07/13] fix: reject unsupported Womersley sizes in the
 large-size dispatch

---
 include/integratorxx/quadratures/s2/womersley.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index b53d55c..a1e73a0 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -185,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
-- 
2.43.0


From 1b354eb031263de13e47aabeda01039acf675992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 08/13] fix: keep the weight type in sub-range quadratures

---
 include/integratorxx/composite_quadratures/sub_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..b19700f 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -55,8 +55,8 @@ struct quadrature_traits<
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-      point_container weights( quad.weights().begin() + begin_idx,
-                              quad.weights().begin() + end_idx );
+      weight_container weights( quad.weights().begin() + begin_idx,
+                                quad.weights().begin() + end_idx );
 
       return std::make_tuple( points, weights );
     }
-- 
2.43.0


From b926d40ad6caf3afd5b81a7f4b004bad3b5f90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 09/13] fix: make radial grid partitions copy-assignable

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7fcdc06..7cec1dc 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -60,9 +60,9 @@ public:
     quads_(std::move(other.quads_)){ };
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
-    partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
-    return *this;
+    // Quadratures are copy-constructible but not copy-assignable
+    RadialGridPartition tmp(other);
+    return *this = std::move(tmp);
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
     partition_idx_ = std::move(other.partition_idx_);
-- 
2.43.0


From 0fb0dda832868375b1e7f9b590ff70a7d8c48321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 10/13] fix: converge Gauss-Legendre and Gauss-Lobatto nodes to
 the precision of the point type

---
 include/integratorxx/quadratures/primitive/gausslegendre.hpp | 2 +-
 include/integratorxx/quadratures/primitive/gausslobatto.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/quadratures/primitive/gausslegendre.hpp b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
index a5ea0d0..91bde30 100644
--- a/include/integratorxx/quadratures/primitive/gausslegendre.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
@@ -46,7 +46,7 @@ struct quadrature_traits<
     weight_container weights( npts );
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // Since the rules are symmetric around the origin, we only need
     // to compute one half of the points
diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..0873b72 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -36,7 +36,7 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
     weight_container weights(npts);
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // 2/(n(n-1)) appears in many expressions
     weight_type two_ov_nnm1 = 2.0 / (npts * (npts - 1.0));
-- 
2.43.0


From 6a36af38cba4728f84ea846c9683282f2fb404ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 11/13] fix: make radial grid partition const_iterators
 post-incrementable

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7cec1dc..54e385b 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -98,7 +98,7 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
-- 
2.43.0


From e9302fcfc0a54a4023c6947efd01bb034d5cf8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:55 +0000
Subject: [PATCH 12/13] fix: batch point sets whose extent exceeds the
 floating-point range

---
 .../batch/spherical_micro_batcher.hpp         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index f2ef936..a0cccc7 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -148,20 +148,24 @@ auto partition_box(
   pw_iterator<T>           pw_batch_end
 ) {
 
-  const auto extent_x = bbox_up[0] - bbox_lo[0];
-  const auto extent_y = bbox_up[1] - bbox_lo[1];
-  const auto extent_z = bbox_up[2] - bbox_lo[2];
+  // Work with half of the box, as its extent may overflow
+  const auto half_extent_x = bbox_up[0] / 2 - bbox_lo[0] / 2;
+  const auto half_extent_y = bbox_up[1] / 2 - bbox_lo[1] / 2;
+  const auto half_extent_z = bbox_up[2] / 2 - bbox_lo[2] / 2;
 
   std::vector<T> x_part(npart+1), y_part(npart+1), z_part(npart+1);
 
-  const auto delta_x = extent_x / npart;
-  const auto delta_y = extent_y / npart;
-  const auto delta_z = extent_z / npart;
+  const auto half_delta_x = half_extent_x / npart;
+  const auto half_delta_y = half_extent_y / npart;
+  const auto half_delta_z = half_extent_z / npart;
   for( auto i = 0ul; i < npart; ++i ) {
-    x_part[i] = bbox_lo[0] + i * delta_x;
-    y_part[i] = bbox_lo[1] + i * delta_y;
-    z_part[i] = bbox_lo[2] + i * delta_z;
+    x_part[i] = 2 * (bbox_lo[0] / 2 + i * half_delta_x);
+    y_part[i] = 2 * (bbox_lo[1] / 2 + i * half_delta_y);
+    z_part[i] = 2 * (bbox_lo[2] / 2 + i * half_delta_z);
   }
+  x_part.front() = bbox_lo[0];
+  y_part.front() = bbox_lo[1];
+  z_part.front() = bbox_lo[2];
   x_part.back() = bbox_up[0];
   y_part.back() = bbox_up[1];
   z_part.back() = bbox_up[2];
-- 
2.43.0


From 2a641f991a2799840e7b31065c55e25fe6eb32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:55 +0000
Subject: [PATCH 13/13] fix: map nodes to finite intervals whose length exceeds
 the floating-point range

---
 include/integratorxx/util/bound_transform.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index ce4053c..6d1c407 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -19,13 +19,17 @@ constexpr inline auto transform_minus_one_to_one(
   // Both upper and lower bounds are finite: Map (-1,1) -> (lo,up)
   if( !up_is_inf && !lo_is_minf ) {
 
+    // (b-a) and (a+b) may overflow
+    const auto half_diff = up / 2. - lo / 2.;
+    const auto half_sum  = up / 2. + lo / 2.;
+
     // Factor jacobian into the weights
     // dx' = ((b-a)/2) * dx
-    wgt *= (up - lo) / 2.;
+    wgt *= half_diff;
 
     // Perform the coordinate shift
     // x' = ((b-a) / 2)*x + (a+b)/2
-    pt = (up - lo) * pt / 2. + (up + lo) / 2.;
+    pt = half_diff * pt + half_sum;
 
   // Lower bound is finite, upper is infinite: Map (-1,1) -> (lo,inf)
   } else if( !lo_is_minf ) {
-- 
2.43.0

