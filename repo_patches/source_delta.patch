From 1318530131e0e92ce177f44e7508755f90bc52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 01/17] hook: settable thread spawn threshold under
 cfg(rtbvh_sim)

---
 src/lib.rs   | 5 +++++
 src/utils.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6518d1d..48fc996 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,11 @@ pub use mbvh_node::*;
 pub use morton::*;
 pub use ray::*;
 
+/// Simulation hook: size of a sub task above which a builder starts a new thread for it.
+#[cfg(rtbvh_sim)]
+pub static SIM_WORK_SIZE_THRESHOLD: std::sync::atomic::AtomicUsize =
+    std::sync::atomic::AtomicUsize::new(1024);
+
 #[cfg(test)]
 mod tests {
     use std::num::NonZeroUsize;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..f631ebc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -209,7 +209,10 @@ impl TaskSpawner {
     pub fn new() -> Self {
         Self {
             config: TaskConfig {
+                #[cfg(not(rtbvh_sim))]
                 work_size_threshold: 1024,
+                #[cfg(rtbvh_sim)]
+                work_size_threshold: crate::SIM_WORK_SIZE_THRESHOLD.load(Ordering::Relaxed),
                 max_depth: 64,
                 max_leaf_size: 16,
             },
-- 
2.43.0


From cbb317ec5d59ab45e905945f5d85dbad8bb45c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 02/17] fix: keep computed primitive bounds in primitive order

par_bridge() yields items in completion order, so bounds[i] could belong to another primitive.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..0fc96a0 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From de4be8204afdd9d1007ee43342293f53ef8f1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 03/17] fix: let the right child of a split use its moved
 reference range

The references of the right child are moved to make room for the left child, but the child kept reading the old range.
---
 src/builders/spatial_sah.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..ad467b8 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -427,15 +427,15 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             new_nodes.left,
             self.work_item.begin,
             left_end,
-            right_begin,
+            right_begin + left_split_count,
             self.work_item.depth + 1,
             is_sorted,
         );
 
         let right_item = WorkItem::new(
             new_nodes.right,
-            right_begin,
-            right_end ,
+            right_begin + left_split_count,
+            right_end + left_split_count,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From 184f7db198cc2a8f1c8b7de70a0331b4a4f2ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 04/17] fix: interpolate along the edge when clipping a
 triangle

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index ad467b8..6d089cd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From 44a50309c897417bae76cccea119fa3476b2a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 05/17] fix: compute the left bounds from the bins that
 actually went left

With the median fallback split_index differs from the best SAH split.
---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From b119abb3365e6d49307d983f01d85def0f761af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 06/17] fix: sort references with a total order

The tolerance made the comparator inconsistent, which sort_by answers with a panic or an arbitrary order.
---
 src/builders/spatial_sah.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 6d089cd..710b09b 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -317,16 +317,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             for axis in 0..3 {
                 let slice = self.references[axis].range(begin, end);
                 slice.sort_by(|a, b| {
-                    let a_center = a.center[axis];
-                    let b_center = b.center[axis];
-
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a.center[axis]
+                        .partial_cmp(&b.center[axis])
+                        .unwrap_or(Ordering::Equal)
                 });
             }
         }
-- 
2.43.0


From 2da4ebadb7dd38ab0420ff2fcb845b96187b7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 07/17] fix: halve one-sided spatial splits relative to the
 start of their range

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 710b09b..7bbdfe7 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -640,7 +640,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From d7a6aba0cceb0243f9dc2fc230d2a8f5ff03e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 08/17] fix: keep child index and count of a node when
 refitting it

Both live in the bounds record, which refit replaced as a whole.
---
 src/bvh.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 0fc96a0..18492d6 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -197,7 +197,8 @@ impl Bvh {
             }
 
             // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From e1b715862e8f157fa3e6e532826c4690e3fedcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 09/17] fix: let packets hit boxes without thickness, as single
 rays do

---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From daa2c7381ed8b2018dcf0972d10db3572e76b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 10/17] fix: derive the ray signs from the sign bit

A direction component of -0.0 has the inverse -inf, so near and far planes swap.
---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From c0a0bc46191dc42ae2226fe2bd7df631299a04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 11/17] fix: load wide node bounds unaligned

MbvhNode is only aligned to 4 bytes.
---
 src/mbvh_node.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..8f4dff3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -84,12 +84,12 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -115,9 +115,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -140,9 +140,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
-- 
2.43.0


From 67a7dcfc2661be14e6925fd86a926cd861c79f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 12/17] fix: let traversal stacks grow with the depth of the
 tree

Trees can be deeper than 32 levels; binary traversal then panicked and four-wide traversal wrote past the stack.
---
 src/bvh_node.rs     |  5 +++--
 src/iter.rs         | 37 +++++++++++++++++--------------------
 src/iter_indices.rs | 37 +++++++++++++++++--------------------
 src/utils.rs        | 45 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 42 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..5277a51 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,6 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
+use crate::utils::TraversalStack;
 use crate::{Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
@@ -150,7 +151,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -180,7 +181,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..7a89eb2 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -131,7 +132,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -158,7 +159,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -188,7 +189,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -208,7 +209,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -249,7 +250,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -271,7 +272,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -293,7 +294,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -343,9 +344,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -361,7 +360,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -383,7 +382,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -405,7 +404,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -457,9 +456,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..da8b713 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -301,9 +302,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -319,7 +318,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -340,7 +339,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -356,7 +355,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -403,9 +402,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index f631ebc..5eae843 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -186,6 +186,51 @@ unsafe impl<'a, T> Send for UnsafeSliceWrapper<'a, T> {}
 
 unsafe impl<'a, T> Sync for UnsafeSliceWrapper<'a, T> {}
 
+/// Nodes left to visit by a traversal. The first entries are stored inline, a deeper stack spills to the heap.
+#[derive(Debug, Clone)]
+pub(crate) struct TraversalStack {
+    inline: [i32; 32],
+    spill: Vec<i32>,
+}
+
+impl TraversalStack {
+    pub fn new() -> Self {
+        Self {
+            inline: [0; 32],
+            spill: Vec::new(),
+        }
+    }
+}
+
+impl Index<usize> for TraversalStack {
+    type Output = i32;
+
+    #[inline(always)]
+    fn index(&self, index: usize) -> &Self::Output {
+        match self.inline.get(index) {
+            Some(node) => node,
+            None => &self.spill[index - self.inline.len()],
+        }
+    }
+}
+
+impl IndexMut<usize> for TraversalStack {
+    #[inline(always)]
+    fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        let inline_len = self.inline.len();
+        match self.inline.get_mut(index) {
+            Some(node) => node,
+            None => {
+                let index = index - inline_len;
+                if index >= self.spill.len() {
+                    self.spill.resize(index + 1, 0);
+                }
+                &mut self.spill[index]
+            }
+        }
+    }
+}
+
 pub struct TaskSpawner {
     pub threads_in_flight: Arc<AtomicUsize>,
     config: TaskConfig,
-- 
2.43.0


From 79eddffe46496066f96e868725caf8ab7ba13cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 13/17] fix: do not read a node of an empty four-wide tree

---
 src/iter.rs         | 6 ++----
 src/iter_indices.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7a89eb2..f9e4680 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -308,8 +308,6 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -326,6 +324,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
@@ -418,8 +417,6 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -436,6 +433,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index da8b713..1aae147 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -267,8 +267,6 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -285,6 +283,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
@@ -368,8 +367,6 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -386,6 +383,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
-- 
2.43.0


From 4c9ce0ad69d2f7a7f025c1cbb0a7eb29201f9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 14/17] fix: compute triangle bounds from the vertices of the
 triangle

vertex0_offset and vertex_stride already count floats.
---
 rtbvh_ffi/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..38c5087 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -281,11 +281,9 @@ impl Primitive for RTTriangleWrapper {
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
         unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
+            let ptr0 = self.vertices.add(self.vertex0_offset as usize);
+            let ptr1 = ptr0.add(self.vertex_stride as usize);
+            let ptr2 = ptr0.add(self.vertex_stride as usize * 2);
 
             aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
             aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-- 
2.43.0


From ef8d420af0aeca91691936ca566b943bcd86a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 15/17] fix: accept boxes that are aligned like RTAabb

Aabb is aligned to 16 bytes, RTAabb to 4. Refitting also assumed one box per stored index, which spatial trees have more of.
---
 rtbvh_ffi/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 38c5087..1431fae 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -172,6 +172,14 @@ impl From<RTAabb> for Aabb {
     }
 }
 
+/// Copies boxes into aligned storage, C callers only have to align them to 4 bytes.
+unsafe fn copy_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|bb| Aabb::from(*bb))
+        .collect()
+}
+
 #[derive(Debug, Copy, Clone)]
 #[repr(C)]
 pub struct RTBvhNode {
@@ -354,7 +362,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -372,7 +380,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .collect();
 
     match (Builder {
-        aabbs,
+        aabbs: aabbs.as_deref(),
         primitives: primitives.as_slice(),
         primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
     })
@@ -447,7 +455,7 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -456,7 +464,7 @@ pub unsafe extern "C" fn create_bvh(
         12 => {
             let primitives = slice::from_raw_parts(centers as *const Vector3, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -468,7 +476,7 @@ pub unsafe extern "C" fn create_bvh(
         16 => {
             let primitives = slice::from_raw_parts(centers as *const Vector4, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -521,10 +529,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            // Spatial trees store more indices than there are primitives
+            let prim_count = bvh.indices().iter().max().map_or(0, |i| *i as usize + 1);
+            bvh.refit(&copy_aabbs(aabbs, prim_count));
         })
         .is_some();
 
-- 
2.43.0


From 3ad8361e8fe2475f1bca9e028e81b3a7d4a13ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 16/17] fix: write packet distances back without assuming 16
 byte alignment

---
 rtbvh_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 1431fae..792e049 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -685,7 +685,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -834,7 +834,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From a8b646316d59a89b5c557b956dd38ada3f4dbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 17/17] fix: iterators over primitives go on past a primitive
 the slice does not have

The iterators over a binary tree offered the leaf again from its start, so that a
traversal with a slice lacking one of a leaf's primitives never ended; those over a
four-wide tree dropped the rest of the leaf.
---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index f9e4680..30905de 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -112,6 +112,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -227,6 +228,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -339,6 +341,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -450,6 +453,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0

