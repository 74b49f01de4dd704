From b8482e3595ec77ba3d216e560e25bc120572ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:06 +0000
Subject: [PATCH 01/12] fix: look up keys by their full path

Looking up a key that is a prefix or an extension of a stored leaf key
returned the value of that leaf. Looking up a key that ends inside an
extension node panicked.
---
 src/trie_ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..4df1976 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,12 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // A key that ends inside of an extension can not be in the trie.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
@@ -320,7 +326,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 9cc75d304d5a05712a72e3e9d68e526ab52532dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:06 +0000
Subject: [PATCH 02/12] fix: split an extension when an inserted key ends
 inside it

A key that is a proper prefix of an extension's path was stored in the
branch below the extension, under a longer key than the one given.
---
 src/trie_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 4df1976..39e6478 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,9 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            if nibbles.count <= new_node.nibbles.count
+                && nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles)
+            {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 71a4eb871e46859c9319c9119ad97b1a2fb30413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:06 +0000
Subject: [PATCH 03/12] fix: keep branch values and canonical form when
 deleting

- Deleting a key that ends inside an extension removed the value of the
  branch below the extension.
- Deleting a key that ends at a branch without a value reported an empty
  value instead of nothing.
- Deleting one of two children dropped the value of their branch, and
  deleting the only child of a branch with a value panicked.
- Deleting the value of a branch with one child left the branch in
  place, which gave the trie the wrong root hash.
---
 src/trie_ops.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 39e6478..d8fab91 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -470,7 +470,15 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                return (!value.is_empty()).then(|| {
+                    // Removing the value may leave a branch with a single child.
+                    let updated_node = match get_num_non_empty_children(children) {
+                        1 => only_child_as_extension(children),
+                        _ => branch(children.clone(), Vec::new()),
+                    };
+
+                    (updated_node, value.clone())
+                });
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -481,7 +489,8 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
+                        && get_num_non_empty_children(children) + usize::from(!value.is_empty())
+                            <= 2
                     {
                         false => {
                             // Branch stays.
@@ -490,6 +499,8 @@ fn delete_intern<N: PartialTrie>(
                                 try_collapse_if_extension(updated_child);
                             branch(updated_children, value.clone())
                         }
+                        // Only the value of the branch is left.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         true => {
                             let (child_nibble, non_empty_node) =
                                 get_other_non_empty_child_and_nibble_in_two_elem_branch(
@@ -515,6 +526,11 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            // A key that ends inside of an extension can not be in the trie.
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
@@ -709,6 +725,17 @@ fn get_other_non_empty_child_and_nibble_in_two_elem_branch<N: PartialTrie>(
         .expect("Expected to find a non-empty node in the branch's children")
 }
 
+fn only_child_as_extension<N: PartialTrie>(children: &[WrappedNode<N>; 16]) -> WrappedNode<N> {
+    let (nibble, child) = children
+        .iter()
+        .enumerate()
+        .find(|(_, c)| !node_is_empty(c))
+        .expect("Expected to find a non-empty node in the branch's children");
+
+    // Extension may be collapsed one level above.
+    extension(Nibbles::from_nibble(nibble as Nibble), child.clone())
+}
+
 fn node_is_empty<N: PartialTrie>(node: &WrappedNode<N>) -> bool {
     matches!(node.as_ref(), Node::Empty)
 }
-- 
2.43.0


From b18079d47ec7b199644e1e927345edde86e8aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:07 +0000
Subject: [PATCH 04/12] fix: size trie values made from integers by their own
 type

Converting a U512 to a trie value panicked and converting a U128 gave
the wrong number of bytes, since the buffer was always 32 bytes.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index d8fab91..2440071 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From 2b300b010c7ad965645746563102e53276c820ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:07 +0000
Subject: [PATCH 05/12] fix: create subsets for keys that end inside an
 extension

Asking for a key shorter than the path of an extension on its way
panicked.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..44b825b 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // A key that ends inside of an extension needs nothing below it.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 4dae82180ca3ca494bcbadecf1120f0b0ed93de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:07 +0000
Subject: [PATCH 06/12] fix: reset the whole tracked trie between subsets of a
 batch

Only one level of the tracked trie was reset, so later subsets of a
batch also contained nodes that earlier subsets asked for.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 44b825b..f7aa5e2 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -336,14 +336,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From 0ccb18ba6ae43fb166d4425952709611b5900a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:07 +0000
Subject: [PATCH 07/12] fix: never share or keep the cached hash of changed
 nodes

Clones of a HashedPartialTrie kept sharing one cached hash after one of
them was changed, so either could report the hash of the other. Changing
a node through DerefMut kept the hash cached before the change.
---
 src/partial_trie.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..6cdcfa5 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -306,6 +306,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Forgets the cached hash. Clones share the cell that holds the hash, so
+    /// we can not write to it once the nodes of the clones may differ.
+    fn invalidate_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -322,7 +328,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v);
-        self.set_hash(None);
+        self.invalidate_hash();
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -332,7 +338,7 @@ impl PartialTrie for HashedPartialTrie {
         I: IntoIterator<Item = (K, V)>,
     {
         self.node.trie_extend(nodes);
-        self.set_hash(None);
+        self.invalidate_hash();
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -347,7 +353,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k);
-        self.set_hash(None);
+        self.invalidate_hash();
 
         res
     }
@@ -396,6 +402,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The caller may change the node in any way.
+        self.invalidate_hash();
         &mut self.node
     }
 }
-- 
2.43.0


From 475e04f4f5dbf9c2ae6d253fbc31d12ef91a7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:08 +0000
Subject: [PATCH 08/12] fix: descend into matching nodes when diffing tries

The comparison of node types was inverted, so tries of different shape
hit an unreachable!() and matching nodes were reported as structural
differences. A difference in the value of a branch went unreported.
---
 src/debug_tools/diff.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..0435686 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -62,7 +62,7 @@ enum DiffDetectionState {
 
 impl DiffDetectionState {
     fn pick_most_significant_state(&self, other: &Self) -> Self {
-        match self.get_int_repr() > other.get_int_repr() {
+        match self.get_int_repr() < other.get_int_repr() {
             false => *other,
             true => *self,
         }
@@ -297,19 +297,14 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
         match (&state.a.node, &state.b.node) {
             (Node::Empty, Node::Empty) => DiffDetectionState::NoDiffDetected,
             (Node::Hash(a_hash), Node::Hash(b_hash)) => {
-                create_diff_detection_state_based_from_hashes(
-                    a_hash,
-                    b_hash,
-                    &state.new_from_parent(state.a, state.b, &Nibbles::default()),
-                    depth_state,
-                )
+                create_diff_detection_state_based_from_hashes(a_hash, b_hash, state, depth_state)
             }
             (
                 Node::Branch {
@@ -340,10 +335,10 @@ fn find_latest_diff_point_between_tries_rec(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-                    most_significant_diff_found
-                } else {
                     // Also run a hash check if we haven't picked anything up yet.
                     create_diff_detection_state_based_from_hash_and_gen_hashes(state, depth_state)
+                } else {
+                    most_significant_diff_found
                 }
             }
             (
-- 
2.43.0


From e4c94240df99e564191733ecd32b7e2bcf0cd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:08 +0000
Subject: [PATCH 09/12] fix: report the depth of a trie difference

The depth of every reported difference was 0.
---
 src/debug_tools/diff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 0435686..fa837a9 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -90,12 +90,13 @@ impl DiffPoint {
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
         path: NodePath,
+        depth: usize,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -196,6 +197,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -206,6 +208,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -215,12 +218,13 @@ impl DepthNodeDiffState {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         path: NodePath,
+        depth: usize,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path, depth));
         }
     }
 }
-- 
2.43.0


From d2845475b657350f704e45e9a98de31de58964e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:08 +0000
Subject: [PATCH 10/12] fix: follow the path of a lookup in trie queries

- A query for a key that ends at a branch panicked.
- Extensions were passed without consuming or comparing their part of
  the key, so queries took paths that lookups do not take.
- A node was reported as found when the key ended at an empty slot.
---
 src/debug_tools/common.rs | 14 +++++++++-----
 src/debug_tools/query.rs  | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..f235534 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// `None` if the key ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -41,7 +43,7 @@ impl PathSegment {
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
             PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Branch(nib) => nib.map(Nibbles::from_nibble),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +77,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..83a9f67 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,28 +276,28 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
-        Node::Branch { children, value: _ } => {
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
+        Node::Branch { children, value } => {
+            if curr_key.is_empty() {
+                query_out.node_found = !value.is_empty();
+                return;
+            }
+
             let nib = curr_key.pop_next_nibble_front();
 
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
-        }
-        Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
             if *nibbles == curr_key_next_nibs {
                 curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = nibbles == curr_key,
     }
 }
 
-- 
2.43.0


From b0fa784b4ee91972454a9479aa6a1aa3fb561012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:59 +0000
Subject: [PATCH 11/12] fix: refuse out-of-range nibble requests in every build

Without overflow checks, asking for a nibble, range or split point beyond the
sequence returned a wrong result instead of panicking as documented.
---
 src/nibbles.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..cd99be3 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -260,6 +260,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -368,6 +370,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.start <= range.end && range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -456,6 +460,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -479,6 +485,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
@@ -493,6 +501,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From 434c867d534330752aa4e391ea5bccc8f5480ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:17:07 +0000
Subject: [PATCH 12/12] fix: name length and bytes of an overlong hex-prefix
 path correctly

The error message for a hex-prefix byte string that is too long printed
the bytes where the length belongs and the length where the bytes belong.
---
 src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index cd99be3..cb4a64c 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -59,7 +59,7 @@ pub enum FromHexPrefixError {
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
-    #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {0}, bytes: {1})")]
+    #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {1}, bytes: {0})")]
     TooLong(String, usize),
 }
 
-- 
2.43.0

