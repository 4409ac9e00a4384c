From a872d41607219c5938e034a173e2847de7cec7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:46 +0000
Subject: [PATCH 01/12] Add cfg-guarded verification hooks (narrow width,
 height, invariant check)

---
 src/lib.rs    |  7 +++++++
 src/vector.rs | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..a82925c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,6 +28,7 @@
 //! operations are easier to be implement. The aim is that this translates to a faster data
 //! structure.
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(debug_assertions, allow(missing_docs))]
 #![cfg_attr(feature = "may_dangle", feature(dropck_eyepatch))]
 
@@ -51,8 +52,14 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(librrb_verif_width = "4"))]
 pub const RRB_WIDTH: usize = 64;
 
+/// Verification hook: a narrow tree, so that symbolic checks reach trees of several levels. Only
+/// present when built with `--cfg librrb_verif_width="4"`.
+#[cfg(librrb_verif_width = "4")]
+pub const RRB_WIDTH: usize = 4;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..24d365b 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2158,6 +2158,18 @@ where
         }
     }
 
+    /// Verification hook: the number of levels of nodes in the tree.
+    #[cfg(librrb_verif)]
+    pub fn verif_height(&self) -> usize {
+        self.height()
+    }
+
+    /// Verification hook: runs the internal invariant checks.
+    #[cfg(librrb_verif)]
+    pub fn verif_assert_invariants(&self) -> bool {
+        self.assert_invariants()
+    }
+
     /// Checks the internal invariants that are required by the Vector.
     #[allow(dead_code)]
     pub(crate) fn assert_invariants(&self) -> bool {
-- 
2.43.0


From 117dddd79f6976bc1425841ccd15226bdff7a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 02/12] fix: FocusMut forgets the range of a root leaf when it
 drops its path

After a read past the end the focus kept the range of the leaf it had left but
not its root, so the next read of that leaf panicked.
---
 src/focus.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..0121490 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -704,10 +704,8 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        self.leaf = None;
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From 1ca640ccd67271ba7e3892838a3733613e8833ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 03/12] fix: a Focus can be narrowed to an empty range when the
 root is empty

---
 src/focus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0121490..61e09ab 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -179,7 +179,8 @@ where
             let range_start = range_end;
             range_end = range_start + node.len();
 
-            if range.start < range_end && range.end > range_start {
+            // An empty root cannot be focused on, any other node can stand in for it.
+            if range.start < range_end && range.end > range_start || focus_node.is_empty() {
                 focus_range = range_start..range_end;
                 spine_position = node_position;
                 focus_node = node;
-- 
2.43.0


From 64769ee9d45661585671250e6c8ad28df79fb378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 04/12] fix: Focus::split_at takes its index relative to the
 focus

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 61e09ab..03c9924 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -365,8 +365,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split = self.range.start + idx;
+        let first_range = self.range.start..split;
+        let second_range = split..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From 1ec90d0d824e79cf2f4c0691ec5ebfd336f1e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 05/12] fix: Focus::narrow compares like with like when it
 checks its range

The range is relative to the focus but was checked against an absolute end, so
a narrowed focus could be widened beyond its own range.
---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 03c9924..de4fa50 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -335,7 +335,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 635c64d86b8ad9465179ab44b30f2bc735076c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 06/12] fix: Focus::get answers None for any index past its
 range

idx + range.start overflowed for indices near usize::MAX.
---
 src/focus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index de4fa50..bd9110e 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -261,8 +261,8 @@ where
     /// assert_eq!(focus.get(3), None);
     /// ```
     pub fn get(&mut self, idx: usize) -> Option<&<Internal::Leaf as LeafTrait>::Item> {
-        let new_idx = idx + self.range.start;
-        if self.range.contains(&new_idx) {
+        if idx < self.len() {
+            let new_idx = idx + self.range.start;
             if !self.focus_range.contains(&new_idx) {
                 self.refocus(new_idx);
             }
-- 
2.43.0


From 448dbd422ae88045ff83eab611fcadfc6b7712ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 07/12] fix: inclusive range ends include their last element in
 equal_range

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 24d365b..e355c01 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 98233000636fa8dde6d4a5803c80230788edb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 08/12] fix: searching an empty range finds nothing instead of
 panicking

---
 src/vector.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e355c01..3575a7e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1592,6 +1592,11 @@ where
             Bound::Unbounded => self.len,
         };
 
+        // Nothing can be equal in an empty range.
+        if start >= end {
+            return Err(start);
+        }
+
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
-- 
2.43.0


From a815f555ea724ef6d9872cd8a322db48a1d31c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 09/12] fix: sorting equal elements does not recurse once for
 each of them

A few thousand equal elements overflowed the stack, and took quadratic time.
---
 src/sort.rs | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..0c51d49 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,10 +102,23 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we move everything equal to it to
+    // the beginning and just call sort again with the rest of the vector. Leaving the equal items
+    // in would recurse once for each of them.
     if less_count == 0 {
-        do_single_sort(&mut rest, rng, comparator);
+        let (mut equal, mut greater) = rest.split_at(equal_count);
+        let mut greater_position = 0;
+        for index in 0..equal.len() {
+            if comparator(equal.index(index), first.index(0)) != cmp::Ordering::Equal {
+                while comparator(greater.index(greater_position), first.index(0))
+                    != cmp::Ordering::Equal
+                {
+                    greater_position += 1;
+                }
+                mem::swap(equal.index(index), greater.index(greater_position));
+            }
+        }
+        do_single_sort(&mut greater, rng, comparator);
         return;
     }
 
@@ -280,10 +293,31 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we move everything equal to it to
+    // the beginning and just call sort again with the rest of the vector. Leaving the equal items
+    // in would recurse once for each of them.
     if less_count == 0 {
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
+        let (mut equal_focus, mut greater_focus) = rest_focus.split_at(equal_count);
+        let (mut equal_dual, mut greater_dual) = rest_dual.split_at(equal_count);
+        let mut greater_position = 0;
+        for index in 0..equal_focus.len() {
+            if comparator(equal_focus.index(index), first_focus.index(0)) != cmp::Ordering::Equal {
+                while comparator(greater_focus.index(greater_position), first_focus.index(0))
+                    != cmp::Ordering::Equal
+                {
+                    greater_position += 1;
+                }
+                mem::swap(
+                    equal_focus.index(index),
+                    greater_focus.index(greater_position),
+                );
+                mem::swap(
+                    equal_dual.index(index),
+                    greater_dual.index(greater_position),
+                );
+            }
+        }
+        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
         return;
     }
 
-- 
2.43.0


From e02c00cfb626c6db71be489308d4119cd0ff7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 10/12] fix: FocusMut leaked the size table of every node it
 borrowed

Dropping a FocusMut forgot its borrowed nodes, and with them a reference to
each one's table of sizes, so every focus_mut, iter_mut, reverse and sort of
a vector with internal nodes leaked memory.
---
 src/focus.rs                      | 5 ++++-
 src/node_impls/annotated_basic.rs | 6 ++++++
 src/node_impls/basic.rs           | 4 ++++
 src/node_traits.rs                | 4 ++++
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index bd9110e..4b366fa 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -648,7 +648,10 @@ where
         self.drop_path_nodes();
         self.drop_borrowed_nodes();
         while let Some(node) = self.nodes.pop() {
-            std::mem::forget(node);
+            match node {
+                BorrowedNode::Internal(internal) => internal.release(),
+                BorrowedNode::Leaf(leaf) => std::mem::forget(leaf),
+            }
         }
         unsafe {
             ManuallyDrop::drop(&mut self.nodes);
diff --git a/src/node_impls/annotated_basic.rs b/src/node_impls/annotated_basic.rs
index 124b56d..60e3467 100644
--- a/src/node_impls/annotated_basic.rs
+++ b/src/node_impls/annotated_basic.rs
@@ -471,6 +471,12 @@ impl<
         self.get_child_mut_at_slot(index)
     }
 
+    fn release(self) {
+        // Dropping would also recompute the annotation, the table of sizes is all that is owned.
+        let this = std::mem::ManuallyDrop::new(self);
+        drop(unsafe { std::ptr::read(&this.sizes) });
+    }
+
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>> {
         let child = self.get_child_mut_at_side(side)?.0.borrow_node();
         if side == Side::Front {
diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..f5634e8 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -318,6 +318,10 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         self.get_child_mut_at_slot(index)
     }
 
+    fn release(self) {
+        drop(self);
+    }
+
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>> {
         let child = self.get_child_mut_at_side(side)?.0.borrow_node();
         if side == Side::Front {
diff --git a/src/node_traits.rs b/src/node_traits.rs
index 2223114..4910f48 100644
--- a/src/node_traits.rs
+++ b/src/node_traits.rs
@@ -178,6 +178,10 @@ pub trait BorrowedInternalTrait: Clone + std::fmt::Debug {
     /// Logically pops a child from the node. The child is then returned.
     fn pop_child(&mut self, side: Side) -> Option<BorrowedNode<Self::Concrete>>;
 
+    /// Gives up the borrow without any of the effects that dropping it has on the borrowed node,
+    /// but still releases what the borrow itself owns.
+    fn release(self);
+
     /// Undoes the popping that has occurred via a call to `pop_child`.
     fn unpop_child(&mut self, side: Side);
 
-- 
2.43.0


From bb68090094869d304b8f519ecd4a35de33d6f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:12 +0000
Subject: [PATCH 11/12] fix: the parts of a split FocusMut shared
 non-atomically counted size tables

---
 src/node_impls/basic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index f5634e8..a67aade 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -341,15 +341,17 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
     }
 
     fn split_at_child(&mut self, index: usize) -> (Self, Self) {
+        // The parts may be sent to different threads, so they cannot share a table: the pointer kind
+        // need not be thread safe.
         let (left, right) = self.children.split_at(index);
         (
             BorrowedInternal {
                 children: left,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: SharedPointer::new(SizeTable::clone(&self.sizes)),
             },
             BorrowedInternal {
                 children: right,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: SharedPointer::new(SizeTable::clone(&self.sizes)),
             },
         )
     }
-- 
2.43.0


From 7b5a6fa66525734a3573de954a10ca71f0bba802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:44 +0000
Subject: [PATCH 12/12] fix: a FocusMut could be sent to another thread though
 its elements may not be read from there

---
 src/focus.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 4b366fa..2be0e25 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -401,10 +401,12 @@ where
     },
 }
 
+// A focus copies the nodes it shares with other vectors, so it reads elements that other threads may
+// be reading too.
 unsafe impl<'a, Internal> Send for FocusMut<'a, Internal>
 where
     Internal: InternalTrait,
-    <Internal::Leaf as LeafTrait>::Item: Send,
+    <Internal::Leaf as LeafTrait>::Item: Send + Sync,
 {
 }
 
-- 
2.43.0

