From ffc90786235204e11ec472f2f1a5242e22b7b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:35 +0000
Subject: [PATCH 01/10] fix: turning the directions keeps the radiation

Every value was overwritten by the contribution of the last direction, so that nearly all radiation was lost.
---
 src/sweep/direction/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..c04dba8 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -197,9 +197,10 @@ fn remap(
         .map(|i| kernel_f(&old_dirs[i], &new_dirs))
         .collect::<Vec<_>>();
     let old_values = values.iter().cloned().collect::<Vec<_>>();
+    values.fill(<HydrogenOnly as Chemistry>::Photons::zero());
     for i in 0..num_dirs {
         for j in 0..num_dirs {
-            values[i] = old_values[j] * kernel[i][j];
+            values[j] += old_values[i] * kernel[i][j];
         }
     }
 }
-- 
2.43.0


From 6095a931d043f7a9c42217793baa975595d7eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:34 +0000
Subject: [PATCH 02/10] fix: wait for all pending messages of a sweep before
 their buffers are dropped

Only the first of the pending requests was awaited.
---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From 47fe0568c6ead2f03d782058051ea9ef725a47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:10 +0000
Subject: [PATCH 03/10] fix: the ionized fraction is kept within its bounds
 when cooling is prevented

With prevent_cooling, the floor was the initial ionized fraction. A cell that
starts fully neutral stayed at zero and never converged, one that starts fully
ionized panicked because the floor was above the upper bound.
---
 src/chemistry/hydrogen_only/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..3927faa 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -354,13 +354,14 @@ impl Solver {
     }
 
     fn clamp(&mut self) {
+        let xhii_min = IONIZED_HYDROGEN_FRACTION_EPSILON;
+        let xhii_max = 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON;
         let xhii_floor = self
             .floor
-            .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
-        self.ionized_hydrogen_fraction = self
-            .ionized_hydrogen_fraction
-            .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .map(|(_, xhii)| *xhii.clamp(xhii_min, xhii_max))
+            .unwrap_or(xhii_min);
+        self.ionized_hydrogen_fraction =
+            self.ionized_hydrogen_fraction.clamp(xhii_floor, xhii_max);
         if let Some((temp_floor, _)) = self.floor {
             if self.temperature < temp_floor {
                 self.temperature = temp_floor;
-- 
2.43.0


From 272be4f66e21c31914d394ac26477aacf0a0f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:38 +0000
Subject: [PATCH 04/10] fix: a particle at the very end of the curve is owned
 by the last rank

With keys that use all bits (two dimensions), the key after the largest one does
not exist, and the particle was assigned to a rank that does not exist.
---
 src/domain/decomposition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..80bb9ea 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -94,7 +94,10 @@ impl<K: Key> Decomposition<K> {
         self.cuts
             .binary_search(&key)
             .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+            .unwrap_or_else(|e| e)
+            // The last cut comes after the last key, unless that is
+            // the largest key there is.
+            .min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From 26e635b83a3d64aed8b6ee6c2b557aa79f34ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:55 +0000
Subject: [PATCH 05/10] fix: count particles with equal keys in the domain
 decomposition

The binary search ends at any of several equal keys, so that the load of a range
was too low, and below zero for a range that ends before it starts.
---
 src/domain/decomposition.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index 80bb9ea..3fac5f6 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -238,13 +238,10 @@ impl<K: Key> KeyCounter<K> {
 
 impl<K: Key> LoadCounter<K> for KeyCounter<K> {
     fn load_in_range(&mut self, start: K, end: K) -> Work {
-        let start = self.keys.binary_search(&start).unwrap_or_else(|e| e);
-        let end = self
-            .keys
-            .binary_search(&end)
-            .map(|x| x + 1)
-            .unwrap_or_else(|e| e);
-        end as u64 - start as u64
+        // Keys need not be unique, so a binary search could end at any of the equal ones.
+        let start = self.keys.partition_point(|key| *key < start);
+        let end = self.keys.partition_point(|key| *key <= end);
+        end.saturating_sub(start) as u64
     }
 
     fn min_key(&mut self) -> K {
-- 
2.43.0


From 72993191ed0a8f321aca075012bd3f4b5b0fe917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:54 +0000
Subject: [PATCH 06/10] fix: search for domain cuts with the resolution of the
 keys

The search stopped after as many steps as a key has bits per dimension, so that
particles within a small part of the box could not be divided between ranks.
---
 src/domain/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..6df80b8 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -26,7 +26,7 @@ pub trait Key: PartialOrd + Ord + Copy + Clone + Debug + Equivalence {
 
 impl Key for PeanoKey2d {
     type Dimension = TwoD;
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
+    const MAX_DEPTH: usize = 2 * NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
@@ -40,7 +40,7 @@ impl Key for PeanoKey2d {
 impl Key for PeanoKey3d {
     type Dimension = ThreeD;
 
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
+    const MAX_DEPTH: usize = 3 * NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
-- 
2.43.0


From ce694eee00795fc6788e497e13e9db9136366c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:35 +0000
Subject: [PATCH 07/10] fix: a rank without particles keeps its place in the
 list of extents

---
 src/domain/decomposition.rs | 10 +++++++---
 src/domain/mod.rs           |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index 3fac5f6..4dfd951 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -65,7 +65,8 @@ pub struct Decomposition<K> {
     num_ranks: usize,
     cuts: Vec<K>,
     loads: Vec<Work>,
-    extents: Vec<Extent<VecLength>>,
+    /// The extents of the particles of each rank, if it has any.
+    extents: Vec<Option<Extent<VecLength>>>,
 }
 
 impl<K: Key> Decomposition<K> {
@@ -130,7 +131,7 @@ impl<K: Key> Decomposition<K> {
         }
     }
 
-    pub(super) fn set_extents(&mut self, extents: Vec<Extent<VecLength>>) {
+    pub(super) fn set_extents(&mut self, extents: Vec<Option<Extent<VecLength>>>) {
         self.extents = extents;
     }
 }
@@ -142,7 +143,10 @@ impl Decomposition<DomainKey> {
         extent: &Extent<MVec>,
         box_: &SimulationBox,
     ) -> bool {
-        let rank_extent = &self.extents[rank as usize];
+        let rank_extent = match &self.extents[rank as usize] {
+            Some(extent) => extent,
+            None => return false,
+        };
         bounding_boxes_overlap_periodic(
             box_,
             &VecLength::new_unchecked(extent.center()),
diff --git a/src/domain/mod.rs b/src/domain/mod.rs
index 2e390b2..f3ab965 100644
--- a/src/domain/mod.rs
+++ b/src/domain/mod.rs
@@ -89,11 +89,11 @@ pub fn construct_quad_tree_system(
     commands.insert_resource(QuadTree::new(&config, particles, &box_));
 }
 
-fn communicate_extents(particles: &Particles<&Position>) -> Vec<Extent> {
+fn communicate_extents(particles: &Particles<&Position>) -> Vec<Option<Extent>> {
     let mut extent_communicator = MpiWorld::<CommunicatedOption<Extent>>::new();
     let extent = Extent::from_positions(particles.iter().map(|x| &x.0));
     let all_extents = extent_communicator.all_gather(&extent.into());
-    all_extents.into_iter().filter_map(|x| x.into()).collect()
+    all_extents.into_iter().map(|x| x.into()).collect()
 }
 
 pub(super) fn check_particle_extent_system(
@@ -101,7 +101,7 @@ pub(super) fn check_particle_extent_system(
     box_: Res<SimulationBox>,
 ) {
     let all_extents = communicate_extents(&particles);
-    let extent = Extent::get_all_encompassing(all_extents.iter())
+    let extent = Extent::get_all_encompassing(all_extents.iter().flatten())
         .expect("Failed to find simulation extent - are there no particles?");
     let volume_ratio = extent.volume() / box_.volume();
     if volume_ratio.value() < 0.8 {
-- 
2.43.0


From 6a486be827f3eabb704bee739eb7de93b847dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:42 +0000
Subject: [PATCH 08/10] fix: scale all dimensions alike when remapping points
 for the geometric predicates

Scaling each side of the extent to one separately turns circles and
spheres into ellipses, so the triangulation of points in a box with
different side lengths was not a Delaunay triangulation.
---
 src/dimension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..1bee26f 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
@@ -55,7 +55,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
-- 
2.43.0


From 8f960295276bc0d110980441e09cdd510f0fc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 09/10] fix: message tags are not negative and do not overflow
 for any type

---
 src/communication/mpi_world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication/mpi_world.rs b/src/communication/mpi_world.rs
index 21907c7..990ef06 100644
--- a/src/communication/mpi_world.rs
+++ b/src/communication/mpi_world.rs
@@ -79,7 +79,7 @@ fn get_tag_for_type<T: 'static>() -> Tag {
     let hash: u64 = get_hash_for_type::<T>();
     // Silently truncate 3/4 of the bits in the integer and then take the absolute value to make sure we have no negative values.
     // This is hacky but feels better than not having tags at all. Collision chance should still be negligible.
-    (hash as i16).abs() as i32
+    (hash as i16).saturating_abs() as i32
 }
 
 pub struct MpiWorld<T> {
-- 
2.43.0


From 361a1183d0c588def32875ef8145dd16b2f6108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 10/10] fix: round to the nearest number of cells in a
 cartesian grid

Sides that are multiples of the cell size except for rounding (0.3 and
0.1, say) lost a layer of cells.
---
 src/sweep/grid/cartesian.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..1257fbb 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -143,16 +143,16 @@ impl IntegerPosition {
         #[cfg(feature = "2d")]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
             }
         }
         #[cfg(not(feature = "2d"))]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
-                z: float.z.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
+                z: float.z.round() as i32,
             }
         }
     }
-- 
2.43.0

