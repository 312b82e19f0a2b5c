From c266392cecb9ae293452ee3d45343c76f40584d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 01/12] fix: AABB contains a point when it lies between min and
 max

The comparison was inverted, so a box contained a point only when both of
its corners were equal to it. Queries with a point as the space (whose
bounds test is AABB::contains) therefore missed entries.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..36c5b44 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From 71945f58b0e9b7616b003f562597814c6c610338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 02/12] fix: AABB contains another AABB only when it covers all
 of it

The test was the one for intersection, so ContainsFilter matched keys that
merely overlap the box.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36c5b44..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From 61f2d9d5d51f40be1162fe6c57f4784b4ed41df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 03/12] fix: removal leaves no root with a single child

With min_children = 1, removing the last entry below one child of the root
promotes the other child, which may itself have only one child, leaving
the tree taller than needed (an inner root with one child).
---
 src/node.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..16a40f3 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -795,6 +795,11 @@ where
                 }
             }
 
+            // With `min_children` of 1, the new root may itself have only one
+            // child. The tree is only shortened further after reinserting, so
+            // that there are nodes at the levels to reinsert into.
+            while self.try_unbranch() {}
+
             Some(value)
         } else {
             None
@@ -841,7 +846,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces the root with its child if it is an inner node with only one
+    /// child. Returns `true` if the root was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -857,6 +864,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From ab0dcb43d5ca6f8bd8a4a5c7dd346e958f2af44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 04/12] fix: queries do not evaluate the bounds of an empty
 tree

The bounds of an empty root are the inverted box spanning the whole
coordinate range. Filters, rankings and joins that subtract coordinates
overflowed on it, so querying an empty tree could panic.
---
 src/iter.rs      | 56 +++++++++++++++++++++++++++---------------------
 src/join.rs      |  5 ++++-
 src/left_join.rs | 12 +++++++----
 src/node.rs      |  4 ++++
 4 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..991e78d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,7 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +278,7 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +361,12 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +435,14 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,11 +508,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItem { node: root.node() },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItem { node: root.node() },
+                });
+            }
         }
         Self {
             ranking,
@@ -580,13 +586,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItemMut {
-                    node: root.into_node(),
-                },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItemMut {
+                        node: root.into_node(),
+                    },
+                });
+            }
         }
         Self {
             ranking,
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..08e1073 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,10 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..a15912f 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,19 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index 16a40f3..1d9dc85 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -633,6 +633,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         }
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     fn shallow_len(&self) -> usize {
         if self.level > 0 {
             // SAFETY: The node is an inner node, so the children are
-- 
2.43.0


From 870f64b6bca5355abd7b64b4209f7f3154e366c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 05/12] fix: remove removes the first of the entries with the
 same key

The children of inner nodes were searched in reverse, so the removed entry
was not the one that get returns and that the documentation promises.
---
 src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 1d9dc85..ceeb7a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,7 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From f6f0fc154ed9521185d3f0193c7875e3bbcf2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 06/12] fix: reject a tree configuration with max_children less
 than 2

A new root gets the two halves of the old one, so with a smaller capacity
the second insertion panicked half way, losing entries and leaving the tree
in an invalid state where it is dropped twice.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d53c388..c5d1a82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,6 +105,10 @@ impl<B, Key, Value> RTree<B, Key, Value> {
     where
         B: Bounds,
     {
+        assert!(
+            config.max_children >= 2,
+            "max_children must be at least 2, because a split root has two children"
+        );
         let ops = Alloc::new_alloc(config.min_children, config.max_children);
         RTree {
             root: ops.new_leaf(),
-- 
2.43.0


From 94a9e950e22c6421aeef1d4787686facdb09a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 07/12] fix: entries of zero size are allocated, moved and
 dropped correctly

The vector of a leaf asked the global allocator for zero bytes, and its
IntoIter, whose start and end pointers coincide for items of zero size,
yielded none of them, so removing from a tree lost the entries to reinsert.
---
 src/fc_vec.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..e8b9949 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -128,9 +128,14 @@ impl Alloc {
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
+        let buf = if layout.size() == 0 {
+            // The allocator must not be called with a zero-size layout
+            NonNull::dangling()
+        } else {
+            match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+                Some(ptr) => ptr,
+                None => alloc::handle_alloc_error(layout),
+            }
         };
         FCVecContainer {
             data: FCVec { buf, len: 0 },
@@ -334,7 +339,9 @@ impl<'a, T> FCVecRefMut<'a, T> {
         while self.pop().is_some() {}
 
         let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        }
     }
 }
 
@@ -441,13 +448,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +505,10 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    /// The range of the items that have not been yielded. These are indices
+    /// rather than pointers to also be able to count zero-size items.
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +519,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +538,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -543,8 +550,10 @@ impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            unsafe {
+                alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+            }
         }
     }
 }
-- 
2.43.0


From c76751a025d2d28cb437d25335b6ff967e344d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 08/12] fix: the volume of a box wider than its coordinate type
 does not overflow

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 8cb220f..f62ea1a 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,7 +140,7 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64((max.clone() - min.clone()).into()))
+            .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
-- 
2.43.0


From e80020bf00d2e3ee139db5aed0a3de7d21858399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 09/12] fix: the distance of boxes does not overflow, or
 underflow for unsigned coordinates

---
 src/bounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index f62ea1a..86058c4 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -159,9 +159,9 @@ where
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
             // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64((rhs_min.clone() - lhs_max.clone()).into());
+            let lhs_then_rhs = n64(rhs_min.clone().into() - lhs_max.clone().into());
             // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64((lhs_min.clone() - rhs_max.clone()).into());
+            let rhs_then_lhs = n64(lhs_min.clone().into() - rhs_max.clone().into());
 
             // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
             let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
-- 
2.43.0


From 2b986bccbbf2445ecf858bf4bb6771edd0cca563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 10/12] fix: a sphere is tested against points with unsigned or
 distant coordinates

---
 src/geom/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geom/sphere.rs b/src/geom/sphere.rs
index c45a4f8..ca2a627 100644
--- a/src/geom/sphere.rs
+++ b/src/geom/sphere.rs
@@ -34,7 +34,8 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     fn intersects(&self, rhs: &SVec<N, D>) -> bool {
-        let delta: SVec<f64, D> = (rhs.clone() - self.center.clone()).into_map(|n| n.into());
+        let rhs: SVec<f64, D> = rhs.clone().into_map(|n| n.into());
+        let delta = rhs - self.center.clone().into_map(|n| n.into());
         let radius: f64 = (self.radius.clone()).into();
         delta.sq_mag() <= radius * radius
     }
-- 
2.43.0


From c925ee18a9058f627d6e084145a92ba90503ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 11/12] fix: lines and rays are tested against boxes far from
 their origin

---
 src/intersects.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..d02ccbf 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -39,16 +39,16 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
+    let t1 = (b.min[0].clone().into() - origin[0].clone().into()) * n_inv;
+    let t2 = (b.max[0].clone().into() - origin[0].clone().into()) * n_inv;
 
     let mut tmin = f64_min(t1, t2);
     let mut tmax = f64_max(t1, t2);
 
     for dim in 1..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        let t1 = (b.min[dim].clone().into() - origin[dim].clone().into()) * n_inv;
+        let t2 = (b.max[dim].clone().into() - origin[dim].clone().into()) * n_inv;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
@@ -70,8 +70,8 @@ where
 
     for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
-        let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
-        let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
+        let t1 = (b.min[dim].clone().into() - origin[dim].clone().into()) * n_inv;
+        let t2 = (b.max[dim].clone().into() - origin[dim].clone().into()) * n_inv;
 
         tmin = f64_min(f64_max(t1, tmin), f64_max(t2, tmin));
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
-- 
2.43.0


From 1ca1ab3a94a00f16381014b3c2862d5cafa6fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 12/12] fix: boxes with infinite coordinates, or of infinite
 volume, are inserted and compared

---
 src/bounds.rs | 30 ++++++++++++++++++++++--------
 src/select.rs | 14 ++++++++++++--
 src/split.rs  |  8 +++++++-
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 86058c4..034d435 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,8 +140,19 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64(max.clone().into() - min.clone().into()))
-            .reduce(|acc, length| acc * length)
+            .map(|(min, max)| {
+                let (min, max): (f64, f64) = (min.clone().into(), max.clone().into());
+                // The difference of equal infinite coordinates would be NaN
+                n64(if min == max { 0.0 } else { max - min })
+            })
+            .reduce(|acc, length| {
+                // The product of a zero and an infinite length would be NaN
+                if acc == 0.0 || length == 0.0 {
+                    n64(0.0)
+                } else {
+                    acc * length
+                }
+            })
             .unwrap()
     }
 }
@@ -158,13 +169,16 @@ where
             other.max.0.iter()
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
-            // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64(rhs_min.clone().into() - lhs_max.clone().into());
-            // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64(lhs_min.clone().into() - rhs_max.clone().into());
+            let (lhs_min, lhs_max): (f64, f64) = (lhs_min.clone().into(), lhs_max.clone().into());
+            let (rhs_min, rhs_max): (f64, f64) = (rhs_min.clone().into(), rhs_max.clone().into());
 
-            // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
-            let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
+            // The difference of equal infinite coordinates would be NaN, so only the coordinates at a
+            // gap are subtracted
+            let gap = |max: f64, min: f64| n64(if max < min { min - max } else { 0.0 });
+
+            // The distance between the two bounds is the length of the gap between them, or 0 if
+            // they overlap
+            let dist = cmp::max(gap(lhs_max, rhs_min), gap(rhs_max, lhs_min));
             dist * dist
         })
         .reduce(|acc, dist| acc + dist)
diff --git a/src/select.rs b/src/select.rs
index e73d244..713c9b0 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -1,6 +1,6 @@
 use std::cmp::Ordering;
 
-use noisy_float::types::N64;
+use noisy_float::types::{n64, N64};
 
 use crate::bounds::{Bounded, Bounds, Volume};
 
@@ -14,11 +14,21 @@ pub trait Selector<B> {
         Value: Bounded<B>;
 }
 
+/// Returns how much greater the volume of a union of bounds is than the volume
+/// of one of the bounds. The volumes may both be infinite.
+pub(crate) fn volume_increase(union: N64, volume: N64) -> N64 {
+    if union == volume {
+        n64(0.0)
+    } else {
+        union - volume
+    }
+}
+
 fn volume_increase_of_min_bounds<B>(lhs: &B, rhs: &B) -> N64
 where
     B: Bounds + Volume,
 {
-    Bounds::union(lhs, rhs).volume() - lhs.volume()
+    volume_increase(Bounds::union(lhs, rhs).volume(), lhs.volume())
 }
 
 pub struct MinimalVolumeIncreaseSelector;
diff --git a/src/split.rs b/src/split.rs
index 747e697..67e6f8a 100644
--- a/src/split.rs
+++ b/src/split.rs
@@ -6,6 +6,7 @@ use num_traits::Float;
 use crate::{
     bounds::{Bounded, Bounds, Volume},
     fc_vec::{FCVecContainer, FCVecRefMut},
+    select::volume_increase,
 };
 
 /// Returns a pair of indices (a, b) where a < b. b is therefore also never zero.
@@ -70,7 +71,12 @@ where
     let bounds_volume = bounds.volume();
     children
         .iter()
-        .map(|value| Bounds::union(&value.bounds(), bounds).volume() - bounds_volume)
+        .map(|value| {
+            volume_increase(
+                Bounds::union(&value.bounds(), bounds).volume(),
+                bounds_volume,
+            )
+        })
         .enumerate()
         .min_by_key(|(_, volume)| *volume)
 }
-- 
2.43.0

