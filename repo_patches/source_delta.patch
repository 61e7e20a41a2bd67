From d5718d92dbaad076d9c706197c2ab7539773be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 01/18] fix: keep the last sibling link valid when the last
 child is unlinked

Unlinking the last of several children left the first child's
`prev_sibling_cyclic` referring to the detached node, so
`last_child()` returned a node of another tree and later appends were
attached to it.
---
 src/node/edit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..19e79e5 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -95,6 +95,10 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) = parent.and_then(|parent| parent.first_child_link()) {
+            // `node_to_unlink` was the last sibling, and the previous sibling is the new last
+            // sibling. The first sibling must refer to it.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From d8a6f9103c1147debe9a84c158ab16f621cb2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/18] fix: keep the last sibling link valid when a last leaf
 is replaced with its children

`replace_with_children()` for a childless last sibling left the first
sibling's `prev_sibling_cyclic` referring to the detached node.
---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 19e79e5..e02068f 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -679,6 +679,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    // `prev_sibling_link` is the new last sibling.
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From 71aa6f062c7d4307cfa5ec3ed13225a24bc591e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 03/18] fix: validate the destination before moving a subtree
 inside a tree

Moving a node under itself or its descendant created a cycle and
returned `Ok`, since the loop detection was skipped. Moving a node beside
the root or beside itself returned an error after the node had already
been unlinked, leaving it in no tree at all. Moving the root returned
`Ok` without doing anything while the documentation says it fails.
Validate first, and then unlink.
---
 src/node/edit.rs  | 50 +++++++++++++++++++++++++++++++++++++++++------
 src/node/plain.rs | 14 +++++++++++--
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index e02068f..9b5072f 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -1,6 +1,7 @@
 //! Node edit algorithms.
 
 use core::cmp::Ordering;
+use core::iter;
 
 use alloc::rc::Rc;
 
@@ -337,17 +338,53 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Returns the parent of the destination.
+///
+/// # Failures
+///
+/// Returns [`HierarchyError::SiblingsWithoutParent`] as an error if the
+/// destination is a sibling of a root node.
+fn dest_parent_link<T>(
+    dest: &InsertAs<&NodeCoreLink<T>>,
+) -> Result<NodeCoreLink<T>, HierarchyError> {
+    match *dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => Ok(parent.clone()),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent),
+    }
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
-#[inline]
+///
+/// # Failures
+///
+/// Fails without modifying the hierarchy if:
+///
+/// * the destination is a sibling of the root node, or
+///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+/// * the destination is inside the subtree being moved.
+///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
 pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
-        return Ok(());
+    // The destination must be validated before the node is unlinked, in order not to leave the
+    // node unlinked on failure.
+    let dest_parent = dest_parent_link(&dest)?;
+    match dest {
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor)
+            if anchor.ptr_eq(this) =>
+        {
+            // The node is already at the destination.
+            return Ok(());
+        }
+        _ => {}
+    }
+    if iter::successors(Some(dest_parent), |link| link.parent_link()).any(|link| link.ptr_eq(this))
+    {
+        return Err(HierarchyError::AncestorDescendantLoop);
     }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
@@ -537,7 +574,8 @@ pub(super) fn create_as_interrupting_parent<T>(this: &NodeCoreLink<T>, data: T)
                     .expect("[validity] newly created node won't make no loop");
             }
             // Move `this` and its subtree under the new node.
-            detach_and_move_inside_same_tree(this, InsertAs::LastChildOf(new_link))
+            OrphanRoot::new_by_unlink(this)
+                .insert_as_last_child_of(new_link)
                 .expect("[validity] the new node is neither ancestor nor descendant of `this`");
         } else {
             let new_downgraded = new.link.downgrade();
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..fa851c4 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2523,13 +2523,23 @@ impl<T> Node<T> {
 
     /// Detaches the node with its subtree, and inserts it to the given destination.
     ///
-    /// This is O(1) operation if the destination is inside the same tree, or
+    /// This is O(1) operation (except for checking the ancestors of the
+    /// destination) if the destination is inside the same tree, or
     /// O(N) if the destination is different tree than `this` (where N is the
     /// number of nodes under `this`.
     ///
+    /// If the destination is a sibling of the node itself, nothing is changed.
+    ///
     /// # Failures
     ///
-    /// Fails if the node (being moved) is an ancestor of the destination.
+    /// Fails if:
+    ///
+    /// * the node (being moved) is an ancestor of the destination, or
+    ///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
+    /// * the destination is a sibling of a root node.
+    ///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+    ///
+    /// The hierarchy is not modified on failure.
     ///
     /// # Panics
     ///
-- 
2.43.0


From ea40a5886abf908da19baa18e8df3c7a264a2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 04/18] fix: refuse to move a root node to another tree

The old tree kept referring to the moved node as its root, so dropping
the last reference to the old tree dismantled the nodes of the destination
tree. Moving a root would make the old tree empty, so return
`HierarchyError::EmptyTree`. Also validate the destination before unlinking
the node, so that a failure leaves both trees untouched.
---
 src/node/edit.rs  | 18 ++++++++++++++++++
 src/node/plain.rs |  4 +++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 9b5072f..f30e447 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -401,11 +401,29 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
 ///
 /// * `dest_tree_core` must be the tree core for the anchor nod of the destination.
 /// * The anchor node of the destination must be granted to be edited.
+///
+/// # Failures
+///
+/// Fails without modifying the hierarchies if:
+///
+/// * the destination is a sibling of the root node, or
+///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+/// * `this` is the root of the current tree.
+///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
 pub(super) fn detach_and_move_to_another_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    // The destination must be validated before the node is unlinked, in order not to leave the
+    // node unlinked on failure.
+    dest_parent_link(&dest)?;
+    if this.is_root() {
+        // The current tree would lose its root, but a tree must have at least one node. If this
+        // was allowed, the current tree would dismantle the nodes of the destination tree on drop.
+        return Err(HierarchyError::EmptyTree);
+    }
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
diff --git a/src/node/plain.rs b/src/node/plain.rs
index fa851c4..7d35d39 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2536,8 +2536,10 @@ impl<T> Node<T> {
     ///
     /// * the node (being moved) is an ancestor of the destination, or
     ///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
-    /// * the destination is a sibling of a root node.
+    /// * the destination is a sibling of a root node, or
     ///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+    /// * the node (being moved) is the root, and the destination is in another tree.
+    ///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
     ///
     /// The hierarchy is not modified on failure.
     ///
-- 
2.43.0


From caea4103961a935c2b440a4708e6f212b118e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/18] fix: stop the stable siblings traverser where both ends
 meet

`next()` and `next_back()` ignored the opposite end, so items were emitted
twice when iterated from both sides, and
`preceding_siblings_or_self_stable()` ran over the node itself.
---
 src/traverse/siblings.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..6e623ac 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,6 +168,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // The last item. The both ends have met.
+            return Some(next);
+        }
         self.next = next
             .next_sibling()
             .map(|next_of_next| (next_of_next, next_back));
@@ -186,6 +190,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // The last item. The both ends have met.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev_sibling()
             .map(|next_of_next_back| (next, next_of_next_back));
-- 
2.43.0


From 12d6b438eb707427f4731416e7f8a87d9dd10d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/18] fix: exclude the node itself from
 `preceding_siblings_stable`

The first sibling was skipped instead of the node itself.
---
 src/node/frozen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..740666d 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,7 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        iter.next_back();
         iter
     }
 
-- 
2.43.0


From aaf35143326cdafca3ef2e081034685382657db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/18] fix: stop the stable depth-first traverser where both
 ends meet

`next()` and `next_back()` ignored the opposite end, so events were emitted
twice when iterated from both sides, and traversals of a subtree ran over
the subtree into its following (or preceding) siblings and ancestors.
---
 src/traverse/depth_first.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..cec762c 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -315,6 +315,16 @@ impl<T> Iterator for ReverseDepthFirstTraverser<T> {
 
 impl<T> iter::FusedIterator for ReverseDepthFirstTraverser<T> {}
 
+/// Returns true if the two events are the identical event for the identical node.
+fn is_same_event<T>(a: &DftEvent<FrozenNode<T>>, b: &DftEvent<FrozenNode<T>>) -> bool {
+    match (a, b) {
+        (DftEvent::Open(a), DftEvent::Open(b)) | (DftEvent::Close(a), DftEvent::Close(b)) => {
+            FrozenNode::ptr_eq(a, b)
+        }
+        _ => false,
+    }
+}
+
 /// Stable depth first traversal iterator.
 #[derive(Debug)]
 pub struct StableDepthFirstTraverser<T> {
@@ -391,6 +401,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if is_same_event(&next, &next_back) {
+            // The last event. The both ends have met.
+            return Some(next);
+        }
         self.next = next.next().map(|next_of_next| (next_of_next, next_back));
         Some(next)
     }
@@ -413,6 +427,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if is_same_event(&next, &next_back) {
+            // The last event. The both ends have met.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev()
             .map(|prev_of_next_back| (next, prev_of_next_back));
-- 
2.43.0


From 50589d4f9f135c7382ad1b7e2a1642757cd11b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/18] fix: make `DftEvent::close_current` advance

The loop called `self.next()` repeatedly without advancing the event, so it
never returned when the next event was an opening.
---
 src/traverse/depth_first.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index cec762c..277ce47 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,14 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut current = self.next()?;
                 loop {
-                    match self.next()? {
+                    match &current {
                         Self::Open(_) => depth += 1,
-                        Self::Close(node) if depth == 0 => return Some(node),
+                        Self::Close(node) if depth == 0 => return Some(node.clone()),
                         Self::Close(_) => depth -= 1,
                     }
+                    current = current.next()?;
                 }
             }
 
-- 
2.43.0


From 40c7683161b668b04d40d864955e7f29b8bfb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/18] fix: don't ignore descendants in
 `StableShallowDepthFirstTraverser::size_hint`

The upper bound was 2 even if events for descendants remained, so that the
iterator emitted more items than the upper bound.
---
 src/traverse/depth_first.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 277ce47..9a14e55 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -669,8 +669,16 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                 let min = match depth.cmp(depth_back) {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
-                    // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        return if *depth == self.max_depth() || !next.has_children() {
+                            // `Open` and `Close` for `depth`.
+                            (2, Some(2))
+                        } else {
+                            // `Open` for `depth`, events for the descendants (at least `Open`
+                            // and `Close` for a child), and `Close` for `depth`.
+                            (4, None)
+                        };
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From f54bb9c086cf4aa371d8500d7369bb3deb8e4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 10/18] fix: don't overflow the depth in
 `NonAllocatingBreadthFirstTraverser`

Starting from the depth `usize::MAX` panicked (or restarted from the depth
zero if overflow checks are disabled) instead of emitting nothing.
---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..20559e3 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper than `usize::MAX`.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 6097da4b40dc96930c00acb84f30018904d308cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 11/18] fix: make `TreeBuilder::close` stop at the root of the
 subtree

Closing the root passed to `TreeBuilder::with_root()` moved the builder to
the parent of that root, so that the root was not considered as closed and
following nodes were added outside of the subtree. Also, a failing
`close()` left some of the nodes closed.
---
 src/serial.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..7247d04 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -564,21 +564,24 @@ impl<T> TreeBuilder<T> {
             // Close zero nodes, i.e. do nothing.
             return Ok(());
         }
-        if let Some(current) = &mut self.current {
-            let parent_level = level - 1;
-            for _ in 0..parent_level {
-                let root = self
-                    .root
-                    .as_ref()
-                    .expect("[validity] `root` should be set when some node is tracked");
-                if current.ptr_eq_plain(root) {
+        if let Some(current) = &self.current {
+            let root = self
+                .root
+                .as_ref()
+                .expect("[validity] `root` should be set when some node is tracked");
+            // Don't update `self.current` until all closings turned out to be valid, in order to
+            // leave the builder unchanged on failure.
+            let mut next = Some(current.clone());
+            for _ in 0..level {
+                let closing = next.ok_or(TreeBuildError::RootClosed)?;
+                next = if closing.ptr_eq_plain(root) {
                     // This is the root of the subtree, even if it has a parent.
-                    return Err(TreeBuildError::RootClosed);
-                }
-                *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
+                    None
+                } else {
+                    closing.parent()
+                };
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            self.current = next;
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From 767d51f417c26f7a02eddcd06b89b8dd2c2e2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 12/18] fix: return `None` from `NodeWeak::upgrade` while the
 tree is being dropped

Destructors of node data run while the tree is dismantled. At that time
the other nodes might still be allocated but the tree is already dead, and
upgrading a weak reference to them panicked.
---
 src/node/plain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/plain.rs b/src/node/plain.rs
index 7d35d39..13632c6 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2954,6 +2954,7 @@ impl<T> NodeWeak<T> {
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
         let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The node can be alive while the tree is already dead, if the tree is being dropped.
+        NodeLink::new(link).map(Node::with_node_link)
     }
 }
-- 
2.43.0


From c69e4e1ef7207303c5c3de4a2a57a7ce8b306418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 13/18] fix: don't keep the membership borrowed while the tree
 is dropped

Dropping the last node of a tree ran destructors of node data while the
membership of the node was exclusively borrowed, so destructors which use
a weak reference to the node panicked.
---
 src/node/membership.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..b43c7d2 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let old_core = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // This might be the last reference to the tree. Dropping the tree runs
+                        // destructors of user data, so `self` should not be kept borrowed then.
+                        drop(core);
+                        drop(old_core);
                     }
                 }
             }
-- 
2.43.0


From 7acdf7c7c4cc5b39785ef1b76729dc1a1df02092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 14/18] fix: don't drop the old tree in the middle of an edit

When the subtree being detached or moved had the last references to the
old tree, the old tree was dropped (and destructors of user data were run)
while a membership was exclusively borrowed and the subtree belonged to no
tree. Drop it after the edit completed.
---
 src/node/edit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index f30e447..66a4cd3 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -334,6 +334,10 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // `this` and its descendants may be the last users of the current tree. Keep the tree alive
+    // until the edit completes, since destructors of user data run when the tree is dropped.
+    let _old_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
@@ -424,6 +428,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
         return Err(HierarchyError::EmptyTree);
     }
 
+    // `this` and its descendants may be the last users of the current tree. Keep the tree alive
+    // until the edit completes, since destructors of user data run when the tree is dropped.
+    let _old_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From 1b6326a4b6393a3dad294c5dfc2f70de20dc81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 15/18] fix: clone all the data before inserting a cloned
 subtree

`try_clone_insert_subtree()` inserted nodes while traversing the source. It
never finished if the destination was inside the source subtree, and it
left a partially cloned subtree in the destination when some data was not
borrowable (or when `T::clone` panicked).
---
 src/node/edit.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 66a4cd3..3d600de 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -4,10 +4,11 @@ use core::cmp::Ordering;
 use core::iter;
 
 use alloc::rc::Rc;
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
+use crate::serial::{Event, TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -831,25 +832,22 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
-    events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
-        .and_then(|builder| builder.finish())
+    // Clone all the data before modifying the destination, in order to leave the destination
+    // unchanged on failure, and to avoid visiting nodes being inserted even if the destination is
+    // inside the source.
+    let mut events = source
+        .to_events()
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(HierarchyError::BorrowNodeData)?
+        .into_iter();
+    let subtree_root = match events.next() {
+        Some(Event::Open(data)) => dest.try_create_node(data)?,
+        _ => unreachable!("[validity] the first event must be the opening of the root"),
+    };
+    let mut builder = TreeBuilder::with_root(subtree_root);
+    builder
+        .push_events(events)
+        .and_then(|()| builder.finish())
         .map(|node| {
             node.bundle_new_hierarchy_edit_grant()
                 .expect("[consistency] the hierarchy of the destination tree is already editable")
-- 
2.43.0


From 3b80790732f605c81f460eb1a92a7f50b651207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 16/18] sim: count link accesses under cfg(dendron_sim)

Off by default; used by the deterministic simulator only.
---
 src/lib.rs           |  6 ++++++
 src/node/internal.rs |  4 ++++
 src/sim.rs           | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index fc4235f..d5561a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,6 +217,9 @@
 #![warn(clippy::must_use_candidate)]
 #![warn(clippy::unwrap_used)]
 #![cfg_attr(not(feature = "std"), no_std)]
+// `dendron_sim` is set only by the simulator.
+#![allow(unknown_lints)]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
@@ -226,6 +229,9 @@ mod macros;
 mod anchor;
 pub mod node;
 pub mod serial;
+#[cfg(dendron_sim)]
+#[doc(hidden)]
+pub mod sim;
 pub mod traverse;
 pub mod tree;
 
diff --git a/src/node/internal.rs b/src/node/internal.rs
index 838d31b..a26bd0e 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -109,6 +109,8 @@ impl<T> NodeCoreLink<T> {
     /// Returns the neighbors.
     #[must_use]
     fn neighbors(&self) -> Ref<'_, Neighbors<T>> {
+        #[cfg(dendron_sim)]
+        crate::sim::step();
         self.core
             .neighbors
             .try_borrow()
@@ -118,6 +120,8 @@ impl<T> NodeCoreLink<T> {
     /// Returns the mutable neighbors.
     #[must_use]
     fn neighbors_mut(&self) -> RefMut<'_, Neighbors<T>> {
+        #[cfg(dendron_sim)]
+        crate::sim::step();
         self.core
             .neighbors
             .try_borrow_mut()
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..9da1439
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,38 @@
+//! Step counter for deterministic simulation.
+//!
+//! This module exists only when the crate is compiled with `--cfg dendron_sim`.
+
+use core::sync::atomic::{AtomicU64, Ordering};
+
+/// The number of elementary link accesses so far.
+static STEPS: AtomicU64 = AtomicU64::new(0);
+
+/// The limit of the number of elementary link accesses.
+static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
+
+/// Returns the number of elementary link accesses so far.
+#[must_use]
+pub fn steps() -> u64 {
+    STEPS.load(Ordering::Relaxed)
+}
+
+/// Sets the number of elementary link accesses at which the crate panics, and returns the old one.
+pub fn set_limit(limit: u64) -> u64 {
+    LIMIT.swap(limit, Ordering::Relaxed)
+}
+
+/// Counts an elementary link access.
+///
+/// # Panics
+///
+/// Panics if the number of elementary link accesses exceeds the limit.
+#[inline]
+pub(crate) fn step() {
+    let steps = STEPS.load(Ordering::Relaxed) + 1;
+    STEPS.store(steps, Ordering::Relaxed);
+    if steps > LIMIT.load(Ordering::Relaxed) {
+        // Let the unwinding (and destructors) go ahead.
+        LIMIT.store(u64::MAX, Ordering::Relaxed);
+        panic!("[simulation] step budget exhausted");
+    }
+}
-- 
2.43.0


From b113784fa1dd9592a6386a43913cf692005ed2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 17/18] fix: print a line for a node whose data print nothing

---
 src/node/debug_print/pretty.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..07850c8 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -80,6 +80,8 @@ struct IndentWriter<'a, 'b> {
     indents: Vec<IndentedBlockState>,
     /// The number of pending whitespace-only indents.
     pending_ws_only_indent_level: usize,
+    /// True if nothing is written yet for the current item.
+    is_item_empty: bool,
 }
 
 impl<'a, 'b> IndentWriter<'a, 'b> {
@@ -91,6 +93,7 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             line_state: LineState::BeforeIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
+            is_item_empty: true,
         }
     }
 
@@ -112,6 +115,20 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        self.is_item_empty = true;
+
+        Ok(())
+    }
+
+    /// Finishes the content of the current item.
+    ///
+    /// An item has its own line even if its content is empty.
+    fn finish_item_content(&mut self) -> fmt::Result {
+        if self.is_item_empty {
+            self.write_indent_partial()?;
+            self.line_state = LineState::PartialIndent;
+            self.is_item_empty = false;
+        }
 
         Ok(())
     }
@@ -172,6 +189,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
     fn write_str(&mut self, mut s: &str) -> fmt::Result {
         while !s.is_empty() {
             // There remains something to print.
+            self.is_item_empty = false;
 
             if self.line_state == LineState::BeforeIndent {
                 self.write_indent_partial()?;
@@ -313,6 +331,7 @@ fn prepare_next_node_printing<T>(
     writer: &mut IndentWriter<'_, '_>,
     traverser: &mut DepthFirstLinkTraverser<'_, T>,
 ) -> Result<Option<NodeCoreLink<T>>, fmt::Error> {
+    writer.finish_item_content()?;
     for ev in traverser {
         let link = match ev {
             DftEvent::Open(link) => link,
-- 
2.43.0


From 58533a31b479abee501e4493c4b161d521aad765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 18/18] fix: don't drop the nodes recursively when a destructor
 of data panics

---
 src/tree.rs | 62 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..39e6639 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,30 +88,48 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
-        // Not using `DepthFirstLinkTraverser` here is intentional.
-        // The links would be in inconsistent states before being dropped, so
-        // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
         let mut next = Some(DftEvent::Open(root_link));
-        while let Some(current) = next.take() {
-            next = current.next();
-            let close_link = match current {
-                DftEvent::Open(_) => continue,
-                DftEvent::Close(v) => v,
-            };
-
-            // Drop the leaf node.
-            // It is safe to leave `prev_sibling_cyclic` inconsistent, since
-            // `DftEvent<NodeCoreLink<T>>` is guaranteed to use only
-            // `first_child`, `next_sibling`, and `parent` fields, and use once
-            // respectively.
-            if let Some(parent_link) = close_link.parent_link() {
-                // This panic should never happen (unless there are a bug).
-                let next_sibling = close_link.replace_next_sibling(None);
-                // This panic should never happen (unless there are a bug).
-                parent_link.replace_first_child(next_sibling);
-            }
-            drop(close_link);
+        // Destructors of user data can panic. The rest of the nodes should be dropped without
+        // recursion even in such case.
+        let guard = DismantleGuard(&mut next);
+        dismantle(guard.0);
+    }
+}
+
+/// Drops the nodes one by one.
+fn dismantle<T>(next: &mut Option<DftEvent<NodeCoreLink<T>>>) {
+    // Not using `DepthFirstLinkTraverser` here is intentional.
+    // The links would be in inconsistent states before being dropped, so
+    // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
+    while let Some(current) = next.take() {
+        *next = current.next();
+        let close_link = match current {
+            DftEvent::Open(_) => continue,
+            DftEvent::Close(v) => v,
+        };
+
+        // Drop the leaf node.
+        // It is safe to leave `prev_sibling_cyclic` inconsistent, since
+        // `DftEvent<NodeCoreLink<T>>` is guaranteed to use only
+        // `first_child`, `next_sibling`, and `parent` fields, and use once
+        // respectively.
+        if let Some(parent_link) = close_link.parent_link() {
+            // This panic should never happen (unless there are a bug).
+            let next_sibling = close_link.replace_next_sibling(None);
+            // This panic should never happen (unless there are a bug).
+            parent_link.replace_first_child(next_sibling);
         }
+        drop(close_link);
+    }
+}
+
+/// Guard object to drop the rest of the nodes on unwinding.
+struct DismantleGuard<'a, T>(&'a mut Option<DftEvent<NodeCoreLink<T>>>);
+
+impl<T> Drop for DismantleGuard<'_, T> {
+    #[inline]
+    fn drop(&mut self) {
+        dismantle(self.0);
     }
 }
 
-- 
2.43.0

