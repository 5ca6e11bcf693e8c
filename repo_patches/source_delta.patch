From b7fea505ea218e39b529e8a08037128ec8bec108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 1/4] fix: bulk loading no longer creates leaves at different
 depths

Clusters of a partition may differ in size by one, so one of them could fit
into a single node while a sibling had to be partitioned further. Insertion
assumes that all leaves have the same depth: on such trees, reinserting nodes
mixed leaves and parents in one node and later insertions panicked with
'This is a bug in rstar.'. Pad shallower subtrees with single-child parents.
---
 .../bulk_load/bulk_load_sequential.rs         | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..34f1f9b 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -38,7 +38,36 @@ where
         }],
         _params: Default::default(),
     };
-    ParentNode::new_parent(iterator.collect())
+    let mut children: Vec<_> = iterator.collect();
+    equalize_heights(&mut children);
+    ParentNode::new_parent(children)
+}
+
+/// Wraps shallow nodes into additional parents until all nodes have the same height.
+///
+/// The clusters of a partition may differ in size, hence the subtrees created from them may differ
+/// in height. However, insertion relies on all leaves having the same depth.
+fn equalize_heights<T: RTreeObject>(nodes: &mut [RTreeNode<T>]) {
+    let max_height = nodes.iter().map(height).max().unwrap_or(0);
+    for node in nodes {
+        for _ in height(node)..max_height {
+            let inner = core::mem::replace(node, RTreeNode::Parent(ParentNode::new_parent(vec![])));
+            *node = RTreeNode::Parent(ParentNode::new_parent(vec![inner]));
+        }
+    }
+}
+
+/// Returns the height of a node whose leaves are already known to have the same depth.
+fn height<T: RTreeObject>(mut node: &RTreeNode<T>) -> usize {
+    let mut result = 0;
+    while let RTreeNode::Parent(parent) = node {
+        result += 1;
+        match parent.children.first() {
+            Some(child) => node = child,
+            None => break,
+        }
+    }
+    result
 }
 
 /// Represents a partitioning task that still needs to be done.
-- 
2.43.0


From 6a658853559ff392011b5e763e435023f06111dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 2/4] fix: draining an empty tree no longer examines its empty
 envelope

drain_within_distance on an empty tree with integer coordinates calculated the
distance to the empty envelope and panicked due to an arithmetic overflow. The
locate_* methods already guard against this.
---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..6bfab8b 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // Childless nodes are skipped as their (empty) envelope is not meant to be examined.
+            if *idx > 0
+                || (!node.children.is_empty()
+                    && self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From 5d2ce3e26e5f5f59f8079bc4ee9486da995bd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:13 +0000
Subject: [PATCH 3/4] fix: nearest point on a zero-length line no longer
 divides by zero

With integer coordinates, querying the distance to a line whose start and end
point coincide panicked.
---
 rstar/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rstar/src/primitives/line.rs b/rstar/src/primitives/line.rs
index ea5f078..bfef7e6 100644
--- a/rstar/src/primitives/line.rs
+++ b/rstar/src/primitives/line.rs
@@ -91,6 +91,10 @@ where
     /// ```
     pub fn nearest_point(&self, query_point: &P) -> P {
         let (p1, p2) = (self.from.clone(), self.to.clone());
+        if p1 == p2 {
+            // Projecting onto a line without any length would divide by zero
+            return p1;
+        }
         let dir = p2.sub(&p1);
         let s = self.project_point(query_point);
         if P::Scalar::zero() < s && s < One::one() {
-- 
2.43.0


From 5ba5a1cc05e0ffa622977927b8cb5722ff44bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 4/4] fix: nearest_neighbor no longer skips the nearest element
 due to rounding

---
 rstar/src/algorithm/nearest_neighbor.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/rstar/src/algorithm/nearest_neighbor.rs b/rstar/src/algorithm/nearest_neighbor.rs
index 20283f5..52ab63d 100644
--- a/rstar/src/algorithm/nearest_neighbor.rs
+++ b/rstar/src/algorithm/nearest_neighbor.rs
@@ -241,6 +241,7 @@ where
         node: &'a ParentNode<T>,
         query_point: &<T::Envelope as Envelope>::Point,
         min_max_distance: &mut Distance<T>,
+        min_leaf_distance: &mut Distance<T>,
     ) where
         T: PointDistance + 'a,
     {
@@ -254,11 +255,16 @@ where
                         None
                     }
                 }
+                // Due to rounding, the distance of a leaf may exceed the min-max distance of
+                // an envelope around it. Thus, only the distances of other leaves rule out a leaf.
                 RTreeNode::Leaf(ref t) => {
-                    t.distance_2_if_less_or_equal(query_point, *min_max_distance)
+                    t.distance_2_if_less_or_equal(query_point, *min_leaf_distance)
                 }
             };
             if let Some(distance) = distance_if_less_or_equal {
+                if let RTreeNode::Leaf(_) = child {
+                    *min_leaf_distance = distance;
+                }
                 *min_max_distance = min_inline(
                     *min_max_distance,
                     child.envelope().min_max_dist_2(query_point),
@@ -273,15 +279,28 @@ where
 
     // Calculate smallest minmax-distance
     let mut smallest_min_max: Distance<T> = Bounded::max_value();
+    let mut smallest_leaf_distance: Distance<T> = Bounded::max_value();
     let mut nodes = SmallHeap::new();
-    extend_heap(&mut nodes, node, &query_point, &mut smallest_min_max);
+    extend_heap(
+        &mut nodes,
+        node,
+        &query_point,
+        &mut smallest_min_max,
+        &mut smallest_leaf_distance,
+    );
     while let Some(current) = nodes.pop() {
         match current {
             RTreeNodeDistanceWrapper {
                 node: RTreeNode::Parent(ref data),
                 ..
             } => {
-                extend_heap(&mut nodes, data, &query_point, &mut smallest_min_max);
+                extend_heap(
+                    &mut nodes,
+                    data,
+                    &query_point,
+                    &mut smallest_min_max,
+                    &mut smallest_leaf_distance,
+                );
             }
             RTreeNodeDistanceWrapper {
                 node: RTreeNode::Leaf(ref t),
-- 
2.43.0

