From e092100245d707ebf6e8b7a9c24929e9e94edfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 01/11] fix: sparse tree files every node under its own digest
 only

A leaf was also stored under its raw key, and delete() looked it up there.
The entry was never removed, so deleting a key twice removed whatever leaf the
path led to, and a key equal to the digest of a stored node overwrote that
node. Find the leaf to delete on its path from the root instead.
---
 src/sparse/merkle_tree.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..aaa72d9 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -86,8 +86,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
@@ -106,13 +104,12 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
+        // Only the leaf's key is needed to find its path from the root. The key
+        // is set if and only if this path ends at the leaf with the same key.
+        let leaf_node = Node::create_leaf(key, &[]);
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+        let actual_leaf_node = &path_nodes[0];
+        if !actual_leaf_node.is_placeholder() && actual_leaf_node.leaf_key() == key {
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From 32b43f7c5abbe13d2caae3ba30718f66d9a35466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 02/11] fix: sparse tree can be loaded at the root of the empty
 tree

root() reports the zero sum for a tree without leaves, for which there is no
node in storage, and load() refused it.
---
 src/sparse/merkle_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index aaa72d9..d639f1a 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,11 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        // The empty tree has no nodes in storage.
+        if root == zero_sum() {
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 0f50a9b53143c1593e79bf5c801bc23c5bb70dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 03/11] fix: sparse delete keeps the old path until the new
 root is set

When a storage error interrupted a delete, nodes of the current root had
already been removed and the tree was left unusable.
---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index d639f1a..4f242c0 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -232,10 +232,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -288,6 +284,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the nodes of the previous path last: until the new root is set,
+        // they are still part of the tree.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From dd09644ad4ef904ca185b6b770f04d8c4531f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 04/11] fix: binary prove refuses the largest index without
 overflowing

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From 26e0e8ffd86a0c54fb0fe9ec1e17ff1efd75a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 05/11] fix: binary prove reports the storage key of a missing
 leaf

The load error names the key that is not found in storage, but for the leaf
itself it carried the proof index.
---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index f8c250c..c6150bb 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -93,7 +93,7 @@ where
         let primitive = self
             .storage
             .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .ok_or(MerkleTreeError::LoadError(leaf_position.in_order_index()))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


From 3b550e38162d5315134e895ec435576736fcfba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 06/11] fix: binary load refuses leaf counts beyond the index
 space

Counts from 2^63 overflowed the position arithmetic: a panic with overflow
checks, and a bogus tree without.
---
 src/binary/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index c6150bb..eb13f81 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         leaves_count: u64,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        // A tree has at most 2^63 - 1 leaves; the position following a greater
+        // number of leaves is not a 64-bit index.
+        if leaves_count > u64::MAX / 2 {
+            return Err(MerkleTreeError::LoadError(leaves_count));
+        }
+
         let mut tree = Self {
             storage,
             head: None,
-- 
2.43.0


From 250a86c3b9ba6d6daad5ed3688c53e213025613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 07/11] fix: binary push leaves the tree unchanged when it
 fails

join_all_subtrees() takes the head before storing the joined node. When
storing it failed, the subtrees were lost: the tree reported another root and
later pushes built on the remainder.
---
 src/binary/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index eb13f81..7acbe21 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -301,10 +301,15 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Leave the tree as it was without the leaf.
+            self.head = previous_head;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
-- 
2.43.0


From 34cd1a86829ef46d5d25c050956486661061621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 08/11] fix: sum push leaves the tree unchanged when it fails

join_all_subtrees() takes the head before storing the joined node. When
storing it failed, the subtrees were lost: the tree reported another root and
later pushes built on the remainder.
---
 src/sum/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..ef1b3f1 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,15 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // Leave the tree as it was without the leaf.
+            self.head = previous_head;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From aad0e869c13e5cb52b281aa0f1fd0c37c100ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 09/11] fix: position arithmetic wraps instead of overflowing
 signed integers

Indices are unsigned 64-bit numbers, but relations are computed on signed
ones: with overflow checks, positions at heights 61 to 63 panicked.
---
 src/common/position.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/position.rs b/src/common/position.rs
index 7b9ba75..2681f4c 100644
--- a/src/common/position.rs
+++ b/src/common/position.rs
@@ -110,16 +110,18 @@ impl Position {
     /// The sibling position.
     /// A position shares the same parent and height as its sibling.
     pub fn sibling(self) -> Self {
-        let shift = 1 << (self.height() + 1);
-        let index = self.in_order_index() as i64 + shift * self.direction();
+        let shift = 1i64 << (self.height() + 1);
+        let index =
+            (self.in_order_index() as i64).wrapping_add(shift.wrapping_mul(self.direction()));
         Self::from_in_order_index(index as u64)
     }
 
     /// The parent position.
     /// The parent position has a height less 1 relative to this position.
     pub fn parent(self) -> Self {
-        let shift = 1 << self.height();
-        let index = self.in_order_index() as i64 + shift * self.direction();
+        let shift = 1i64 << self.height();
+        let index =
+            (self.in_order_index() as i64).wrapping_add(shift.wrapping_mul(self.direction()));
         Self::from_in_order_index(index as u64)
     }
 
@@ -208,8 +210,8 @@ impl Position {
     /// current index.
     fn child(self, direction: i64) -> Self {
         assert!(self.is_node());
-        let shift = 1 << (self.height() - 1);
-        let index = self.in_order_index() as i64 + shift * direction;
+        let shift = 1i64 << (self.height() - 1);
+        let index = (self.in_order_index() as i64).wrapping_add(shift.wrapping_mul(direction));
         Self::from_in_order_index(index as u64)
     }
 
-- 
2.43.0


From 04041e8b41f708981fde6f00c299721ee33117f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 10/11] fix: sum tree refuses a fee total beyond 64 bits in
 every build

Without overflow checks the total wrapped around silently.
---
 src/sum/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sum/node.rs b/src/sum/node.rs
index 59cb079..2ea9883 100644
--- a/src/sum/node.rs
+++ b/src/sum/node.rs
@@ -32,7 +32,9 @@ impl Node {
         Self {
             height,
             hash: node_sum(lhs_fee, lhs_key, rhs_fee, rhs_key),
-            fee: lhs_fee + rhs_fee,
+            fee: lhs_fee
+                .checked_add(rhs_fee)
+                .expect("the sum of all fees must fit in 64 bits"),
             left_child_key: Some(*lhs_key),
             right_child_key: Some(*rhs_key),
         }
-- 
2.43.0


From 678d3e8c77cfe6029b219c433ef148aba2889053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 11/11] fix: sparse tree errors are standard errors: print the
 key of a missing child

---
 src/common/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/node.rs b/src/common/node.rs
index aed1f56..ee585db 100644
--- a/src/common/node.rs
+++ b/src/common/node.rs
@@ -29,7 +29,7 @@ pub type ChildResult<T: ParentNode> = Result<T, ChildError<T::Key, T::Error>>;
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ChildError<Key, E> {
-    #[cfg_attr(feature = "std", error("Child with key {0} was not found in storage"))]
+    #[cfg_attr(feature = "std", error("Child with key {0:?} was not found in storage"))]
     ChildNotFound(Key),
     #[cfg_attr(feature = "std", error("Node is a leaf with no children"))]
     NodeIsLeaf,
-- 
2.43.0

