From 00524bea3efdc8ed04d1a3fe50e0176fd65ac95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 01/15] fix: RadialGridPartition::add_quad leaves the partition
 unchanged when it fails

The region start was appended before the angular quadrature was copied; if that
copy failed the two lists went out of step.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..6342192 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -38,8 +38,14 @@ public:
       (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
     (void)(rq);
 
-    partition_idx_.emplace_back(idx);
+    // Append both entries or, if memory runs out, neither
     quads_.emplace_back(q);
+    try {
+      partition_idx_.emplace_back(idx);
+    } catch(...) {
+      quads_.pop_back();
+      throw;
+    }
   }
 
 
-- 
2.43.0


From 605d822f44dd7289567a6e1649254bf4e0bedc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 02/15] fix: PrunedSphericalGridSpecification assignment leaves
 the target unchanged when it fails

The members were assigned one by one; running out of memory in between left a
mixture of the old and the new specification.
---
 include/integratorxx/generators/spherical_factory.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/generators/spherical_factory.hpp b/include/integratorxx/generators/spherical_factory.hpp
index 4937503..1aa8cd2 100644
--- a/include/integratorxx/generators/spherical_factory.hpp
+++ b/include/integratorxx/generators/spherical_factory.hpp
@@ -79,9 +79,13 @@ struct PrunedSphericalGridSpecification {
       other.pruning_regions) { }
 
   PrunedSphericalGridSpecification& operator=(const PrunedSphericalGridSpecification& other) {
+    // Make all copies before changing anything, so that a failure leaves
+    // this specification as it was
+    radial_traits_ptr new_traits = other.radial_traits ? other.radial_traits->clone() : nullptr;
+    auto new_regions = other.pruning_regions;
     radial_quad = other.radial_quad;
-    radial_traits = other.radial_traits ? other.radial_traits->clone() : nullptr;
-    pruning_regions = other.pruning_regions;
+    radial_traits = std::move(new_traits);
+    pruning_regions = std::move(new_regions);
     return *this;
   }
 
-- 
2.43.0


From e00c714840184c29d883a2e4021523e547c9a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 03/15] fix: a batcher that fails to build leaves the shared
 grid untouched

The grid was reordered before the last allocation; if that failed the caller's
shared grid had been changed although no batcher was made.
---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..ca7df0a 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -618,14 +618,14 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
   (void)(part_dur); // Unused pascification
 #endif
   
-  for( size_t i = 0; i < quad_->npts(); ++i )
-    std::tie( quad_->points()[i], quad_->weights()[i] ) = q[i];
-
-
   auto npart = partition_its.size();
   std::vector<size_t> partition_idx( partition_its.size() );
   for( size_t i = 0; i < npart; ++i )
     partition_idx[i] = std::distance( q.begin(), partition_its[i] );
+
+  // Reorder the (possibly shared) grid last, when nothing can fail any more
+  for( size_t i = 0; i < quad_->npts(); ++i )
+    std::tie( quad_->points()[i], quad_->weights()[i] ) = q[i];
   
   return partition_idx;
 
-- 
2.43.0


From ea57c8050190f0d72763693549b594031a68f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 04/15] fix: ProductQuadrature's noexcept move constructor must
 not allocate

It allocated new quadratures, so running out of memory terminated the process.
Take over the members instead, and let a moved-from product be copied.
---
 .../composite_quadratures/product_quadrature.hpp            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/product_quadrature.hpp b/include/integratorxx/composite_quadratures/product_quadrature.hpp
index 4268570..d45b030 100644
--- a/include/integratorxx/composite_quadratures/product_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/product_quadrature.hpp
@@ -33,9 +33,9 @@ public:
 
 
   ProductQuadrature( const ProductQuadrature& other ) :
-    ProductQuadrature( *other.quad1_, *other.quad2_ ) { }
-  ProductQuadrature( ProductQuadrature&& other ) noexcept :
-    ProductQuadrature( std::move(*other.quad1_), std::move(*other.quad2_) ) { }
+    quad1_( other.quad1_ ? std::make_unique<Quadrature<Quad1>>(*other.quad1_) : nullptr ),
+    quad2_( other.quad2_ ? std::make_unique<Quadrature<Quad2>>(*other.quad2_) : nullptr ) { }
+  ProductQuadrature( ProductQuadrature&& ) noexcept = default;
 
 };
 
-- 
2.43.0


From 81bf00f1b97c0a62ce4a957180aa9d4e1c1e4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 05/15] fix: SphericalMicroBatcher always finishes

Batches whose points no box can separate (coincident, an ulp apart, infinite or
not a number), and a maximum batch size of zero, made it refine forever; points
with not-a-number coordinates could be left out of all batches.
---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index ca7df0a..93154f0 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -189,6 +189,9 @@ auto partition_box(
     );
   }
 
+  // Points with not-a-number coordinates may lie in no box at all
+  partition_its.emplace_back( pw_batch_end );
+
   // Remove batches with no points
   auto uniq_end = std::unique( partition_its.begin(), partition_its.end() );
   partition_its.erase( uniq_end, partition_its.end() );
@@ -515,6 +518,8 @@ public:
 template <typename PointContainer, typename WeightContainer>
 std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::generate_batches() {
 
+  if( max_batch_sz_ == 0 )
+    throw std::runtime_error("Maximum batch size must be positive");
 
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
@@ -564,6 +569,10 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
       auto batch_part_its = 
         detail::partition_box( npart_batch, bbox_lo, bbox_up, batch_st, batch_en );
 
+      // No box separates these points (coincident or not finite): halve the batch
+      if( batch_part_its.size() <= 2 )
+        batch_part_its = { batch_st, batch_st + part_counts[ip] / 2, batch_en };
+
       new_part_its.insert( new_part_its.end(), batch_part_its.begin(), 
         batch_part_its.end() );
     } 
-- 
2.43.0


From 4101f529f4ad56ba40fd6a0291443e7db096f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 06/15] fix: SphericalMicroBatcher over an empty grid has no
 batches

The bounding box of no points was read through the end iterator.
---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 93154f0..6040d4d 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -521,6 +521,9 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
   if( max_batch_sz_ == 0 )
     throw std::runtime_error("Maximum batch size must be positive");
 
+  // An empty grid has no batches (and no bounding box)
+  if( quad_->npts() == 0 ) return { 0 };
+
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
   for( size_t i = 0; i < quad_->npts(); ++i ) {
-- 
2.43.0


From 96fddf63db0987ffb8b639bd9373bdfbb74ff624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 07/15] fix: scheme names do not depend on the locale

std::toupper follows the C locale in force; in a Turkish one 'i' does not map to
'I' and half of the documented names were refused in lower case.
---
 include/integratorxx/generators/impl/radial_factory.hpp | 3 ++-
 include/integratorxx/generators/impl/s2_factory.hpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/generators/impl/radial_factory.hpp b/include/integratorxx/generators/impl/radial_factory.hpp
index b1c01a1..577be30 100644
--- a/include/integratorxx/generators/impl/radial_factory.hpp
+++ b/include/integratorxx/generators/impl/radial_factory.hpp
@@ -8,8 +8,9 @@
 namespace IntegratorXX {
 
 RadialQuad radial_from_string(std::string name) {
+  // Scheme names are ASCII: do not depend on the locale in force
   std::transform(name.begin(), name.end(), name.begin(),
-    [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+    [](char c){ return (c >= 'a' && c <= 'z') ? static_cast<char>(c - 'a' + 'A') : c; });
   if(name == "BECKE")             return RadialQuad::Becke;
   if(name == "MURAKNOWLES")       return RadialQuad::MuraKnowles;
   if(name == "MK")                return RadialQuad::MuraKnowles;
diff --git a/include/integratorxx/generators/impl/s2_factory.hpp b/include/integratorxx/generators/impl/s2_factory.hpp
index 3e0363d..dc8aa14 100644
--- a/include/integratorxx/generators/impl/s2_factory.hpp
+++ b/include/integratorxx/generators/impl/s2_factory.hpp
@@ -8,8 +8,9 @@
 namespace IntegratorXX {
 
 AngularQuad angular_from_string(std::string name) {
+  // Scheme names are ASCII: do not depend on the locale in force
   std::transform(name.begin(), name.end(), name.begin(),
-    [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+    [](char c){ return (c >= 'a' && c <= 'z') ? static_cast<char>(c - 'a' + 'A') : c; });
   if(name == "AHRENSBEYLKIN") return AngularQuad::AhrensBeylkin;
   if(name == "AB")            return AngularQuad::AhrensBeylkin;
   if(name == "DELLEY")        return AngularQuad::Delley;
-- 
2.43.0


From 1aa752f8b9abe42a04a1269e6bbe561a6d772b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 08/15] fix: refuse angular sizes that a scheme does not
 tabulate

They silently gave a grid of the requested size with all points at the origin and
all weights zero.
---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..f3e47ed 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Ahrens-Beylkin Grid Size");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..29b1d6e 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Delley Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..21da1c1 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported Lebedev-Laikov Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..a1e73a0 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -184,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
@@ -319,6 +322,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From ee2414a3a375e13598d2cab80cef5757006cd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 09/15] fix: pruned grids with few radial points

The pruning schemes give regions without radial points for small radial sizes.
These were appended all the same, so that region boundaries decreased and the
radial quadrature was read past its end.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp     | 4 ++--
 include/integratorxx/generators/impl/pruned_grid.hpp          | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 6342192..a041541 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     // Append both entries or, if memory runs out, neither
@@ -51,7 +51,7 @@ public:
 
   template <typename RadialQuad>
   void finalize( const RadialQuad& rq ) {
-    if( partition_idx_.back() != rq.npts() )
+    if( partition_idx_.empty() || partition_idx_.back() != rq.npts() )
       partition_idx_.emplace_back( rq.npts() ); 
   }
 
diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..4e72096 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -18,6 +18,8 @@ auto make_pruned_grid_impl(const RadialQuadType& rq,
 
   RadialGridPartition<AngularQuadType> rgp;
   for( auto& region : pruning_regions ) {
+    // With few radial points the outer regions of a scheme can be empty
+    if( region.idx_st >= region.idx_en || region.idx_st >= rq.npts() ) continue;
     rgp.add_quad( rq, region.idx_st, AngularQuadType(region.angular_size) );
   }
   rgp.finalize(rq);
-- 
2.43.0


From ef536560a57b52c824cad4a99755658cdaef9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 10/15] fix: pruning schemes refuse a specification without
 radial traits

create_pruned_spec checks for this, the schemes called directly dereferenced null.
---
 include/integratorxx/generators/impl/robust_pruning.hpp   | 2 ++
 include/integratorxx/generators/impl/treutler_pruning.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..56a7ffd 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -49,6 +49,8 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
 PrunedSphericalGridSpecification robust_psi4_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
+
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   const auto asz = unp.angular_size;
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..25dc8cc 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -42,6 +42,8 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
 PrunedSphericalGridSpecification treutler_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
+
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   switch(angular_quad) {
-- 
2.43.0


From 9ba4c0fa52c166eee8a0d7594e968a590c53e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 11/15] fix: refuse pruning regions that do not tile the radial
 shells

A region list that starts late, leaves a gap, overlaps or ends early gave
a grid with shells missing or under another region's rule (or, with
assertions on, ended the process).
---
 include/integratorxx/generators/impl/pruned_grid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index 4e72096..7355ed7 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -17,11 +17,17 @@ auto make_pruned_grid_impl(const RadialQuadType& rq,
   const std::vector<PruningRegion>& pruning_regions) {
 
   RadialGridPartition<AngularQuadType> rgp;
+  size_t next = 0;
   for( auto& region : pruning_regions ) {
     // With few radial points the outer regions of a scheme can be empty
     if( region.idx_st >= region.idx_en || region.idx_st >= rq.npts() ) continue;
+    if( region.idx_st != next ) 
+      throw std::runtime_error("Pruning Regions Do Not Tile Radial Quadrature");
     rgp.add_quad( rq, region.idx_st, AngularQuadType(region.angular_size) );
+    next = region.idx_en;
   }
+  if( next < rq.npts() ) 
+    throw std::runtime_error("Pruning Regions Do Not Tile Radial Quadrature");
   rgp.finalize(rq);
 
   return SphericalGridFactory::generate_pruned_grid(rq, std::move(rgp));
-- 
2.43.0


From a9e1c21165da2aa65894455eb77d8858715925dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 12/15] fix: refuse a region list that is not finalized for the
 radial quadrature

Building a pruned grid from an empty or unfinished region list, or one
finalized for another radial quadrature, read past its ends.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index a041541..516018a 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -5,6 +5,7 @@
 #include <integratorxx/types.hpp>
 #include <integratorxx/type_traits.hpp>
 
+#include <stdexcept>
 #include <utility>
 
 namespace IntegratorXX {
@@ -83,6 +84,7 @@ public:
   }
 
   auto& partition_idx() { return partition_idx_; }
+  const auto& partition_idx() const { return partition_idx_; }
 
   template <typename index_iterator, typename quad_iterator>
   struct rgp_iterator {
@@ -272,6 +274,12 @@ struct quadrature_traits<
       const point_type&                       cen
     ) {
 
+    // The partition must have been finalized for this radial quadrature
+    const auto& idx = rgp.partition_idx();
+    if( idx.empty() || idx.back() != r.npts() || 
+        idx.size() - 1 != static_cast<size_t>(rgp.cend().quad_it - rgp.cbegin().quad_it) )
+      throw std::runtime_error("Radial Grid Partition Not Finalized");
+
     point_container  points;
     weight_container weights;
 
-- 
2.43.0


From 8853b7be9c944bd50eb96037bad6fde9d11a1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 13/15] fix: refuse Gauss-Lobatto and trapezoid rules of fewer
 than two points

Zero points wrote through a null pointer, one point gave infinite or
not-a-number weights.
---
 include/integratorxx/quadratures/primitive/gausslobatto.hpp | 5 +++++
 include/integratorxx/quadratures/primitive/uniform.hpp      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..c1c3614 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -2,6 +2,7 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -32,6 +33,10 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    // Both end points are nodes
+    if(npts < 2)
+      throw std::runtime_error("Gauss-Lobatto Needs At Least Two Points");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/primitive/uniform.hpp b/include/integratorxx/quadratures/primitive/uniform.hpp
index 30c3372..6e1f449 100644
--- a/include/integratorxx/quadratures/primitive/uniform.hpp
+++ b/include/integratorxx/quadratures/primitive/uniform.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -48,6 +49,9 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts, point_type lo, point_type up ) {
 
+    if( npts < 2 )
+      throw std::runtime_error("Uniform Trapezoid Rule Needs At Least Two Points");
+
     const auto npts_use = npts - 1;
     const auto delta_x  = (up - lo) / npts_use;
     point_container  points( npts );
-- 
2.43.0


From 5b77631349551b0c65f29d503073bf1d4486406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 14/15] fix: refuse subquadrature ranges and partition indices
 out of range

Only debug builds noticed; others read past the end of the quadrature.
---
 .../pruned_spherical_quadrature.hpp                      | 6 +++---
 .../composite_quadratures/sub_quadrature.hpp             | 9 +++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 516018a..b7ce421 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,9 +35,9 @@ public:
   template <typename RadialQuad>
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
-    assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
-    (void)(rq);
+    if( partition_idx_.size() ?
+      (idx <= partition_idx_.back() || idx >= rq.npts()) : (idx != 0) )
+      throw std::out_of_range("Invalid Radial Partition Index");
 
     // Append both entries or, if memory runs out, neither
     quads_.emplace_back(q);
diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..3f1626d 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -1,7 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
-#include <cassert>
+#include <stdexcept>
 
 namespace IntegratorXX {
 
@@ -47,11 +47,8 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( range_idx_type idx_range, const Quadrature<DerivedQuad>& quad ) {
       const auto [begin_idx, end_idx] = idx_range;
-      assert( begin_idx >= 0         );
-      assert( begin_idx <= quad.npts()  );
-      assert( end_idx >= 0           );
-      assert( end_idx <= quad.npts()    );
-      assert( begin_idx <  end_idx );
+      if( begin_idx >= end_idx || end_idx > quad.npts() )
+        throw std::out_of_range("Invalid SubQuadrature Range");
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-- 
2.43.0


From bb8c7984ce9f3b610c8aff2d2972dfd96860cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 15/15] fix: RadialGridPartition copy assignment

It could not be instantiated: quadratures can be copied but not assigned.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index b7ce421..7998688 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -67,9 +67,8 @@ public:
     quads_(std::move(other.quads_)){ };
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
-    partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
-    return *this;
+    // Quadratures can be copied but not assigned
+    return *this = RadialGridPartition(other);
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
     partition_idx_ = std::move(other.partition_idx_);
-- 
2.43.0

