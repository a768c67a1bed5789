From 68095373ef674debd5f11b2420c6a94957d56ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 01/15] fix: only return a value from `get` for the exact key

`get` compared a leaf's key with the remaining query key only up to the
shorter of the two. A query for a prefix or an extension of a stored key
therefore returned the value of that other key. A query that ended inside
of an extension node panicked.
---
 src/trie_ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..4a16be5 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,12 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // A key that ends inside of the extension can not be below it.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
@@ -320,7 +326,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 959a7f9d166c1d282d7d6dd74d96af97856919a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 02/15] fix: split an extension when an inserted key ends
 inside of it

The value was placed in the branch below the extension, so it ended up
stored under a longer key than the one it was inserted with.
---
 src/trie_ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 4a16be5..93e6e87 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,10 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // A key that ends inside of the extension must split it instead.
+            if nibbles.count <= new_node.nibbles.count
+                && nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles)
+            {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From eb24ce97026ac20e3bf8c2e15dcf53a791f7c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 03/15] fix: do not delete another key when a deleted key ends
 inside an extension

Deleting a key that is a proper prefix of an extension's path removed the
value of the branch below the extension, which belongs to a longer key.
---
 src/trie_ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 93e6e87..a5fad2d 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -516,6 +516,11 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            // A key that ends inside of the extension can not be below it.
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
-- 
2.43.0


From 0eb2a1cc0bdb155fbbcf0a40adb273c8d3f76ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 04/15] fix: return `None` when deleting a branch value that
 does not exist

Deleting the key of a branch without a value returned `Some(vec![])` even
though no such key is in the trie.
---
 src/trie_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index a5fad2d..825aeaa 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -471,7 +471,9 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                // An empty value field means that nothing is stored at this key.
+                return (!value.is_empty())
+                    .then(|| (branch(children.clone(), Vec::new()), value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
-- 
2.43.0


From 7cfd0ec0fd8820425441a74fcfb0793852b7836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 05/15] fix: keep the branch value when a delete collapses the
 branch

A branch with a value and two children was replaced by an extension to the
remaining child, which dropped the branch's own value from the trie. With a
value and a single child the delete panicked. A branch is now only collapsed
into an extension when it has no value, and becomes a leaf when the value is
all that remains.
---
 src/trie_ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 825aeaa..a8ebddc 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -484,8 +484,12 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
+                        && get_num_non_empty_children(children) + !value.is_empty() as usize <= 2
                     {
+                        true if !value.is_empty() => {
+                            // Only the branch value remains.
+                            leaf(Nibbles::default(), value.clone())
+                        }
                         false => {
                             // Branch stays.
                             let mut updated_children = children.clone();
-- 
2.43.0


From c3918dd3b4927fd4ef208663a4b1efc40375c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 06/15] fix: collapse a branch that is left with one child
 after deleting its value

Deleting the value of a branch always kept the branch, even when only one
child remained. The trie then had a different structure and root hash than a
trie with the same contents that never held the value, and deleting the last
child of such a branch panicked.
---
 src/partial_trie.rs |  9 +++------
 src/trie_ops.rs     | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..ae5b6a0 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,12 +76,9 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
-    /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// To agree with Ethereum specs, nodes that are redundant after a deletion
+    /// are removed from the trie. For example, a `Branch` node that only has a
+    /// single child left (and no value) is merged with this child.
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index a8ebddc..edc7b67 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -473,7 +473,7 @@ fn delete_intern<N: PartialTrie>(
             if curr_k.is_empty() {
                 // An empty value field means that nothing is stored at this key.
                 return (!value.is_empty())
-                    .then(|| (branch(children.clone(), Vec::new()), value.clone()));
+                    .then(|| (branch_without_value(children), value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -548,6 +548,23 @@ fn delete_intern<N: PartialTrie>(
     }
 }
 
+/// Creates the node that remains once the value of a branch is deleted.
+fn branch_without_value<N: PartialTrie>(children: &[WrappedNode<N>; 16]) -> WrappedNode<N> {
+    let mut non_empty_children = children
+        .iter()
+        .enumerate()
+        .filter(|(_, c)| !node_is_empty(c));
+
+    match (non_empty_children.next(), non_empty_children.next()) {
+        (None, _) => Node::Empty.into(),
+        // Extension may be collapsed one level above.
+        (Some((nibble, child)), None) => {
+            extension(Nibbles::from_nibble(nibble as Nibble), child.clone())
+        }
+        _ => branch(children.clone(), Vec::new()),
+    }
+}
+
 fn try_collapse_if_extension<N: PartialTrie>(node: WrappedNode<N>) -> WrappedNode<N> {
     match node.as_ref() {
         Node::Extension { nibbles, child } => collapse_ext_node_if_needed(nibbles, child),
-- 
2.43.0


From 09db800bf4b5994ac2d619a632b08c12d92021b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 07/15] fix: use the size of the integer when converting it to
 a trie value

The buffer was always 32 bytes long. Converting a `U128` or `U512` to a
`ValOrHash` panicked, or for `U128` produced misaligned bytes in release
builds.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index edc7b67..2d58bed 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From abd6e4953f783c760167ddd9960365e90febfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 08/15] fix: never share or keep a stale cached hash in
 `HashedPartialTrie`

Clones shared one hash cache, also after one of them was modified. Hashing
the modified clone as part of a subset then changed the hash reported for the
other clones. Each trie now gets a new cache when it is modified, including
through `DerefMut`, and before the modification starts so that a panic in
`extend` can not leave a stale hash behind.
---
 src/partial_trie.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index ae5b6a0..1b7ccf3 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -303,6 +303,14 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash before the node is modified.
+    ///
+    /// The cache may be shared with clones of this trie, so it must be replaced
+    /// rather than written to.
+    fn reset_hash(&mut self) {
+        self.hash = Arc::default();
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -318,8 +326,8 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
         V: Into<crate::trie_ops::ValOrHash>,
     {
+        self.reset_hash();
         self.node.trie_insert(k, v);
-        self.set_hash(None);
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -328,8 +336,8 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
+        self.reset_hash();
         self.node.trie_extend(nodes);
-        self.set_hash(None);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -343,10 +351,8 @@ impl PartialTrie for HashedPartialTrie {
     where
         K: Into<crate::nibbles::Nibbles>,
     {
-        let res = self.node.trie_delete(k);
-        self.set_hash(None);
-
-        res
+        self.reset_hash();
+        self.node.trie_delete(k)
     }
 
     fn hash(&self) -> H256 {
@@ -393,6 +399,7 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        self.reset_hash();
         &mut self.node
     }
 }
-- 
2.43.0


From e119331faf3884ba23e967a138998135f05dec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 09/15] fix: reset the whole tracked trie between subsets

Only the root or its direct children were reset. Nodes marked for one subset
were therefore also included in later subsets of the same
`create_trie_subsets` call.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..7ce0d24 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -330,14 +330,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From e030c41b40717da1af1457b5037b27e9bfec65c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 10/15] fix: do not panic on subset keys that end inside an
 extension

Keys that do not exist in the trie are not an error, but a key shorter than
the extension it leads to caused an overflow panic.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 7ce0d24..592ae12 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // A key that ends inside of the extension does not reach its child.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 2014352fc18b5d5f9a5fc88fb94adb0f8c3a2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 11/15] fix: descend into equal nodes instead of differing ones
 when diffing tries

The node comparison was inverted. Two tries with different node types at the
same position caused a panic, and all other differences were reported at the
root. With that corrected, the checks after a branch's children also have to
be swapped for differing branch values to be reported.
---
 src/debug_tools/diff.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..40fed9b 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -55,9 +55,9 @@ impl Display for TrieDiff {
 
 #[derive(Copy, Clone, Debug)]
 enum DiffDetectionState {
-    NodeTypesDiffer = 0, // Also implies that hashes differ.
+    NoDiffDetected = 0,
     HashDiffDetected,
-    NoDiffDetected,
+    NodeTypesDiffer, // Also implies that hashes differ.
 }
 
 impl DiffDetectionState {
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
@@ -340,10 +340,10 @@ fn find_latest_diff_point_between_tries_rec(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-                    most_significant_diff_found
-                } else {
                     // Also run a hash check if we haven't picked anything up yet.
                     create_diff_detection_state_based_from_hash_and_gen_hashes(state, depth_state)
+                } else {
+                    most_significant_diff_found
                 }
             }
             (
-- 
2.43.0


From 470034f24e572ad458c9098688c77c7ed83199f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 12/15] fix: report the actual depth of a diff point

The depth was tracked during the search but every reported point had a depth
of 0. Two differing hash nodes are also no longer treated as a child of
themselves, which added an extra element to the reported path.
---
 src/debug_tools/diff.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 40fed9b..9f94a80 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -90,12 +90,13 @@ impl DiffPoint {
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
         path: NodePath,
+        depth: usize,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -196,6 +197,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -206,6 +208,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -215,12 +218,13 @@ impl DepthNodeDiffState {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         path: NodePath,
+        depth: usize,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path, depth));
         }
     }
 }
@@ -304,12 +308,7 @@ fn find_latest_diff_point_between_tries_rec(
         match (&state.a.node, &state.b.node) {
             (Node::Empty, Node::Empty) => DiffDetectionState::NoDiffDetected,
             (Node::Hash(a_hash), Node::Hash(b_hash)) => {
-                create_diff_detection_state_based_from_hashes(
-                    a_hash,
-                    b_hash,
-                    &state.new_from_parent(state.a, state.b, &Nibbles::default()),
-                    depth_state,
-                )
+                create_diff_detection_state_based_from_hashes(a_hash, b_hash, state, depth_state)
             }
             (
                 Node::Branch {
-- 
2.43.0


From 6c9d2c28f6b938d53ff0f24cba9765f7d87dde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:39 +0000
Subject: [PATCH 13/15] fix: follow the queried key when reporting the path of
 a query

Extension nodes did not consume the nibbles they match, so every node below
an extension was looked up with the wrong nibble, and a mismatch with an
extension was ignored. A key ending at a branch caused a panic. A key that
ended early was reported as found even if the trie has no such key.
---
 src/debug_tools/common.rs | 14 +++++++++-----
 src/debug_tools/query.rs  | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..e1dfcf4 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// Contains no nibble if the key ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -41,7 +43,7 @@ impl PathSegment {
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
             PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Branch(nib) => nib.map(Nibbles::from_nibble),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +77,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..83a9f67 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,28 +276,28 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
-        Node::Branch { children, value: _ } => {
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
+        Node::Branch { children, value } => {
+            if curr_key.is_empty() {
+                query_out.node_found = !value.is_empty();
+                return;
+            }
+
             let nib = curr_key.pop_next_nibble_front();
 
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
-        }
-        Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
             if *nibbles == curr_key_next_nibs {
                 curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = nibbles == curr_key,
     }
 }
 
-- 
2.43.0


From 704f1e578abb07c7419144f587115ca723d252d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:39 +0000
Subject: [PATCH 14/15] fix: panic on out of range nibble accesses in release
 builds too

The documented panics of `Nibbles` relied on integer overflow checks. Without
them, reading past the end returned zero nibbles instead.
---
 src/nibbles.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..6814570 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -260,6 +260,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -285,6 +287,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -314,6 +318,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `n` is larger than the number of nibbles contained.
     pub fn pop_nibbles_back(&mut self, n: usize) -> Nibbles {
+        assert!(n <= self.count);
+
         let r = self
             .get_nibble_range((self.count - n)..self.count)
             .reverse();
@@ -368,6 +374,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -456,6 +464,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -479,6 +489,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
@@ -493,6 +505,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From 6bd4f456a1661451d0b688c5b15a4037a5d21fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:39 +0000
Subject: [PATCH 15/15] fix: return an error when decoding an empty hex prefix
 byte string

---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 6814570..e089186 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -56,6 +56,9 @@ pub enum BytesToNibblesError {
 
 #[derive(Debug, Error)]
 pub enum FromHexPrefixError {
+    #[error("Tried to convert an empty hex prefix byte string into `Nibbles`")]
+    Empty,
+
     #[error("Tried to convert a hex prefix byte string into `Nibbles` with invalid flags at the start: {0:#04b}")]
     InvalidFlags(Nibble),
 
@@ -670,6 +673,10 @@ impl Nibbles {
             ));
         }
 
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::Empty);
+        }
+
         let flag_bits = (hex_prefix_bytes[0] & 0b11110000) >> 4;
 
         // is_odd --> 0b01
-- 
2.43.0

