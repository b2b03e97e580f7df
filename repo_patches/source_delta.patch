From b46ae9815f65a722189f38d530e6a292f4feae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:21 +0000
Subject: [PATCH 01/18] verif hook: export ExclusionProof under
 cfg(patriecia_verif)

---
 jmt/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jmt/src/lib.rs b/jmt/src/lib.rs
index a864c12..88eace5 100644
--- a/jmt/src/lib.rs
+++ b/jmt/src/lib.rs
@@ -100,6 +100,9 @@ pub use sha2::Sha256;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
 pub use tree::{H256Jmt, JellyfishMerkleTree, Sha256Jmt};
+// Lets the verification harness name the error type of exclusion proofs.
+#[cfg(patriecia_verif)]
+pub use tree::ExclusionProof;
 use types::nibble::ROOT_NIBBLE_HEIGHT;
 pub use types::proof;
 pub use types::Version;
-- 
2.43.0


From 027c4fb5e9bb5321f4f19140a650fffe340261d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:46 +0000
Subject: [PATCH 02/18] fix: look up exclusion-proof neighbours at the version
 they were written

---
 jmt/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..d93e651 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +956,15 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        // The neighbor may have been written at an earlier version than the one queried.
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From c35b079fb4151c839be3785e6456821a772108c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:17 +0000
Subject: [PATCH 03/18] fix: record an empty first tree at the version being
 written

---
 jmt/src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..f384543 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -264,7 +264,10 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The null node belongs to the version being frozen,
+            // whose predecessor may never have been written.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From e129a534ff3ff8b917a9c06fa12c2378720d8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:27 +0000
Subject: [PATCH 04/18] fix: refuse range proofs with more siblings than key
 bits instead of panicking

---
 jmt/src/types/proof/definition.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..165ed9f 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,13 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({} + {}) siblings.",
+            256,
+            left_siblings.len(),
+            self.right_siblings.len(),
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From f4faa4314dd5109235e0f0c0afe1d9bee859aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 05/18] fix: recompute an interrupted update without reading
 its leftovers

---
 jmt/src/tree.rs       | 11 +++++++++--
 jmt/src/tree_cache.rs |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index d93e651..a05ffe8 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -552,8 +552,15 @@ where
         // and if it doesn't exist, we synthesize a `Null` node, noting that it hasn't yet been
         // committed anywhere (we need to track this because the tree cache will panic if we try to
         // delete a node that it doesn't know about).
-        let (node, node_already_exists) = tree_cache
-            .get_node_option(&node_key)?
+        //
+        // Nodes of the version being written can only come from the cache: whatever the storage
+        // holds under their keys was left there by an interrupted write of the same version.
+        let existing_node = if node_key.version() == version {
+            tree_cache.get_cached_node(&node_key)
+        } else {
+            tree_cache.get_node_option(&node_key)?
+        };
+        let (node, node_already_exists) = existing_node
             .map(|node| (node, true))
             .unwrap_or((Node::Null, false));
         match node {
diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index f384543..70c5b15 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -211,6 +211,14 @@ where
         })
     }
 
+    /// Gets the node with the given node key if this cache holds it, without asking the storage.
+    pub fn get_cached_node(&self, node_key: &NodeKey) -> Option<Node> {
+        self.node_cache
+            .get(node_key)
+            .or_else(|| self.frozen_cache.node_cache.nodes().get(node_key))
+            .cloned()
+    }
+
     /// Gets the current root node key.
     pub fn get_root_node_key(&self) -> &NodeKey {
         &self.root_node_key
-- 
2.43.0


From acb788eb5528af5867967e8aa146f96375f7b9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 06/18] fix: refuse accounts out of place in a resumed restore
 instead of panicking

---
 jmt/src/restore.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..11291d4 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -323,9 +323,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
-            self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
+            self.frozen_nodes.insert_value(self.version, key, value);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -341,14 +341,18 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // When resuming, the rightmost leaf in storage may be below a completed node.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "No more accounts are expected in a completed subtree.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -373,6 +377,13 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     }
                 }
                 None => {
+                    // When resuming, the rightmost leaf in storage may still miss the sibling it
+                    // was split from, which must be the first account we receive.
+                    ensure!(
+                        self.partial_nodes.len() == i + 1 || !self.lowest_node_has_single_leaf(),
+                        "Accounts are missing before the new one.",
+                    );
+
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
                     self.freeze(i + 1);
@@ -391,6 +402,21 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
+    }
+
+    /// Whether the lowest partial node has nothing but a single leaf child.
+    fn lowest_node_has_single_leaf(&self) -> bool {
+        let lowest_node = self
+            .partial_nodes
+            .last()
+            .expect("Must have at least one partial node.");
+        let mut children = lowest_node.children.iter().flatten();
+        matches!(
+            (children.next(), children.next()),
+            (Some(ChildInfo::Leaf { .. }), None)
+        )
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
-- 
2.43.0


From 776c2e149b04518c1f54928d4aa1f3262afc9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 07/18] fix: finish a restore only with the expected root hash

---
 jmt/src/restore.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 11291d4..7c3fccc 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The restoration process has already completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
@@ -696,6 +700,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
+        // The last account is only ever stored below, so a complete restoration received it.
+        ensure!(self.num_keys_received > 0, "No account has been added.");
+
         // Deal with the special case when the entire tree has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
@@ -712,7 +719,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
+                    self.verify_root(node.hash())?;
                     self.frozen_nodes.insert_node(node_key, node.into());
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
@@ -721,8 +728,22 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         }
 
         self.freeze(0);
+        let root_node = &self.frozen_nodes.nodes()[&NodeKey::new_empty_path(self.version)];
+        self.verify_root(root_node.hash())?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    /// Verifies that the restored tree is the expected one. The chunks only prove that the accounts
+    /// added so far belong to it, not that none is missing.
+    fn verify_root(&self, root_hash: [u8; 32]) -> Result<()> {
+        ensure!(
+            root_hash == self.expected_root_hash.0,
+            "Root hashes do not match. Actual root hash: {:?}. Expected root hash: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 361ab67dc8f3e5c284bc91a9775753292a02d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 08/18] fix: remove of a branch value reports presence and
 normalises the branch

---
 pmt/src/inner.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..6ce3f4e 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -527,18 +527,18 @@ where
             Node::Branch(branch) => {
                 let borrow_branch = branch.borrow_mut();
 
-                if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
-
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                let deleted = if partial.at(0) == 0x10 {
+                    borrow_branch.value.take().is_some()
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
-                }
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
+                    deleted
+                };
 
                 Ok((Node::Branch(branch.clone()), deleted))
             }
-- 
2.43.0


From dacffd908f9dbcf86e355b999b18f0f52c07e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:26 +0000
Subject: [PATCH 09/18] fix: commit never removes a small root node it has just
 written

---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 6ce3f4e..adf5ce2 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -282,6 +282,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From 9390fdc23338e57d431edd67f03e02c965e27acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:37 +0000
Subject: [PATCH 10/18] fix: do not prune nodes passed by an operation that
 changed nothing

---
 pmt/src/inner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index adf5ce2..d8fcc19 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,10 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        // The nodes passed are only superseded if the insertion succeeds.
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        let passed = std::mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -172,6 +175,7 @@ where
         }
 
         self.root = result?;
+        self.passing_keys.extend(passed);
 
         Ok(())
     }
@@ -180,7 +184,10 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        // The nodes passed are only superseded if a value was removed.
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        let passed = std::mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -199,6 +206,9 @@ where
 
         let (n, removed) = result?;
         self.root = n;
+        if removed {
+            self.passing_keys.extend(passed);
+        }
 
         Ok(removed)
     }
-- 
2.43.0


From 66e222a46249966a6a92f44718317299603d003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:47 +0000
Subject: [PATCH 11/18] fix: iterate over a value stored under the empty key of
 a branch

---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From b13b143b1cd64d23c6f1b5d138c5e705a15ebc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:49 +0000
Subject: [PATCH 12/18] fix: prove keys of pending, reopened and empty tries

---
 pmt/src/inner.rs | 56 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index d8fcc19..e7112a2 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -248,16 +248,26 @@ where
         }
 
         let mut path = result?;
-        match self.root {
-            Node::Empty => {}
-            _ => path.push(self.root.clone()),
+        // The root proves the absence of any key from an empty trie, too.
+        if path.is_empty() {
+            path.push(Node::Empty);
         }
 
-        Ok(path
+        // Nodes smaller than a hash are part of their parent, except for the root.
+        let proof = path
             .into_iter()
             .rev()
             .map(|n| self.encode_raw(&n))
-            .collect())
+            .enumerate()
+            .filter(|(i, data)| *i == 0 || data.len() >= HASHED_LENGTH)
+            .map(|(_, data)| data)
+            .collect();
+
+        // Pending nodes were encoded for the proof only, they are not to be written.
+        self.cache.clear();
+        self.gen_keys.clear();
+
+        Ok(proof)
     }
 
     /// return value if key exists, None if key not exist, Error if proof is
@@ -670,13 +680,8 @@ where
         }
     }
 
-    // Get nodes path along the key, only the nodes whose encode length is greater
-    // than hash length are added.
-    // For embedded nodes whose data are already contained in their parent node, we
-    // don't need to add them in the path.
-    // In the code below, we only add the nodes get by `get_node_from_hash`, because
-    // they contains all data stored in db, including nodes whose encoded data
-    // is less than hash length.
+    // Get nodes path along the key, from the last one up to the source node, including
+    // the nodes in memory that are not written to the db yet.
     fn get_path_at(
         &self,
         source_node: &Node,
@@ -685,16 +690,19 @@ where
     ) -> Result<Vec<Node>> {
         let partial = &path.offset(path_index);
         match source_node {
-            Node::Empty | Node::Leaf(_) => Ok(vec![]),
+            Node::Empty => Ok(vec![]),
+            Node::Leaf(_) => Ok(vec![source_node.clone()]),
             Node::Branch(branch) => {
                 let borrow_branch = branch;
 
-                if partial.is_empty() || partial.at(0) == 16 {
-                    Ok(vec![])
+                let mut rest = if partial.is_empty() || partial.at(0) == 16 {
+                    vec![]
                 } else {
                     let node = &borrow_branch.children[partial.at(0)];
-                    self.get_path_at(node, path, path_index + 1)
-                }
+                    self.get_path_at(node, path, path_index + 1)?
+                };
+                rest.push(source_node.clone());
+                Ok(rest)
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext;
@@ -702,11 +710,13 @@ where
                 let prefix = &borrow_ext.prefix;
                 let match_len = partial.common_prefix(prefix);
 
-                if match_len == prefix.len() {
-                    self.get_path_at(&borrow_ext.node, path, path_index + match_len)
+                let mut rest = if match_len == prefix.len() {
+                    self.get_path_at(&borrow_ext.node, path, path_index + match_len)?
                 } else {
-                    Ok(vec![])
-                }
+                    vec![]
+                };
+                rest.push(source_node.clone());
+                Ok(rest)
             }
             Node::Hash(hash_node) => {
                 let node_hash = hash_node.hash;
@@ -718,9 +728,7 @@ where
                         root_hash: Some(self.root_hash),
                         err_key: None,
                     })?;
-                let mut rest = self.get_path_at(&n, path, path_index)?;
-                rest.push(n);
-                Ok(rest)
+                self.get_path_at(&n, path, path_index)
             }
         }
     }
-- 
2.43.0


From cc7a68bac7319a707f89b5f58cf4605e490b2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 13/18] fix: commit reports a root lost by the database instead
 of panicking

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index e7112a2..3c8dbf6 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -335,7 +335,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From 2415ab1c2207f6fa3ce393fdd5627be4e7669cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 14/18] fix: decode malformed nodes to an error instead of
 panicking

---
 pmt/src/inner.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 3c8dbf6..634f8c5 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -807,12 +807,22 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                // The first nibble only holds the leaf and parity flags.
+                if !matches!(key.first(), Some(flag) if flag >> 4 < 4) {
+                    return Err(TrieError::InvalidData(
+                        "path of a node is not hex prefix encoded".to_string(),
+                    ));
+                }
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                } else if key.is_empty() {
+                    Err(TrieError::InvalidData(
+                        "extension node has an empty path".to_string(),
+                    ))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(&r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -821,9 +831,7 @@ where
                 let mut nodes: [Box<Node>; 16] = Default::default();
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
-                    let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
-                    *nodes[i] = n;
+                    *nodes[i] = self.decode_child(&r.at(i)?)?;
                 }
 
                 // The last element is a value node.
@@ -849,6 +857,16 @@ where
         }
     }
 
+    // Only nodes smaller than a hash are embedded in their parent.
+    fn decode_child(&self, r: &Rlp) -> Result<Node> {
+        if r.is_list() && r.as_raw().len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "embedded node is not smaller than a hash".to_string(),
+            ));
+        }
+        self.decode_node(r.as_raw())
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
@@ -858,6 +876,11 @@ where
             Some(value) => Some(self.decode_node(&value)?),
             None => None,
         };
+        if let Some(Node::Hash(_)) = node {
+            return Err(TrieError::InvalidData(
+                "a hash is stored in place of a node".to_string(),
+            ));
+        }
         Ok(node)
     }
 }
-- 
2.43.0


From bcda4556838f96ddfa8d78ddd512122b7414b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/18] fix: MemoryDB size and listing wait for writers instead
 of panicking or lying

---
 pmt/src/db.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..4117af7 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,23 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
-        let mut values = Vec::new();
+        let handle = self.storage.read();
+        let values = handle.iter().map(|(k, v)| (k.clone(), v.clone()));
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
-        }
-
-        Ok(values)
+        Ok(values.collect())
     }
 }
 
-- 
2.43.0


From 895bd960f5f07dee907bbd7e1239c25faf53c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 16/18] fix: record the root of a version 0 that changes
 nothing in a restored tree

---
 jmt/src/tree_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index 70c5b15..4c9dc0c 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -292,7 +292,8 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // This is as true of version 0 when it is built on top of a restored pre-genesis tree.
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From 8f30d3fb1c0da74a589b983c116163fd1a26135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 17/18] fix: listing a trie's values reports unreadable nodes
 instead of leaving pairs out

---
 pmt/src/inner.rs         |  2 +-
 pmt/src/trie_iterator.rs | 50 +++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 634f8c5..c2ce0b5 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -96,7 +96,7 @@ where
 
     /// Returns all values stored on the trie.
     pub fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>> {
-        Ok(self.iter().collect())
+        self.iter().try_collect()
     }
 
     pub fn is_empty(&self) -> bool {
diff --git a/pmt/src/trie_iterator.rs b/pmt/src/trie_iterator.rs
index 7dd6445..1567ec2 100644
--- a/pmt/src/trie_iterator.rs
+++ b/pmt/src/trie_iterator.rs
@@ -2,7 +2,9 @@
 /// Beware there's a significant amount of TODOs scattered around the file,
 /// these will be addressed in due time.
 ///
-use crate::{db::Database, inner::InnerTrie, nibbles::Nibbles, node::Node};
+use crate::{
+    db::Database, error::TrieError, inner::InnerTrie, nibbles::Nibbles, node::Node, result::Result,
+};
 
 #[derive(Clone, Debug)]
 enum TraceStatus {
@@ -49,6 +51,8 @@ where
     trie: &'a InnerTrie<D>,
     nibble: Nibbles,
     nodes: Vec<TraceNode>,
+    /// Why the pairs below the first node that could not be read were left out.
+    failure: Option<TrieError>,
 }
 
 impl<'a, D> TrieIterator<'a, D>
@@ -62,6 +66,16 @@ where
             trie,
             nibble: Nibbles::from_raw(&[], false),
             nodes,
+            failure: None,
+        }
+    }
+
+    /// Collects the remaining pairs, or fails if any of them cannot be read.
+    pub(crate) fn try_collect(mut self) -> Result<Vec<(Vec<u8>, Vec<u8>)>> {
+        let pairs = self.by_ref().collect();
+        match self.failure {
+            Some(err) => Err(err),
+            None => Ok(pairs),
         }
     }
 }
@@ -120,20 +134,30 @@ where
 
                     (TraceStatus::Doing, Node::Hash(ref hash_node)) => {
                         let node_hash = hash_node.hash;
-                        if let Ok(n) = self.trie.recover_from_db(node_hash) {
-                            self.nodes.pop();
-                            match n {
-                                Some(node) => self.nodes.push(node.into()),
-                                None => {
-                                    // TODO: add proper instrumentation
-                                    // warn!("Trie node with hash {:?} is missing from the database.
-                                    // Skipping...", &node_hash);
-                                    continue;
+                        match self.trie.recover_from_db(node_hash) {
+                            Ok(n) => {
+                                self.nodes.pop();
+                                match n {
+                                    Some(node) => self.nodes.push(node.into()),
+                                    None => {
+                                        // TODO: add proper instrumentation
+                                        // warn!("Trie node with hash {:?} is missing from the database.
+                                        // Skipping...", &node_hash);
+                                        self.failure.get_or_insert(TrieError::MissingTrieNode {
+                                            node_hash,
+                                            traversed: Some(self.nibble.clone()),
+                                            root_hash: None,
+                                            err_key: None,
+                                        });
+                                        continue;
+                                    }
                                 }
                             }
-                        } else {
-                            //error!();
-                            return None;
+                            Err(err) => {
+                                //error!();
+                                self.failure.get_or_insert(err);
+                                return None;
+                            }
                         }
                     }
 
-- 
2.43.0


From 242c0f5fe572e03df32ed745a75f5fd86fdf7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 18/18] fix: iterator over a single leaf repeats a failed read

---
 jmt/src/iterator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jmt/src/iterator.rs b/jmt/src/iterator.rs
index 06a0d43..c1839e7 100644
--- a/jmt/src/iterator.rs
+++ b/jmt/src/iterator.rs
@@ -294,12 +294,14 @@ where
                     // is greater or equal to `starting_key` (otherwise we would have set `done` to
                     // true in `new`). Return the node and mark `self.done` so next time we return
                     // None.
-                    self.done = true;
                     return match self
                         .reader
                         .get_value(root_node_key.version().into(), leaf_node.key_hash())
                     {
-                        Ok(value) => Some(Ok((leaf_node.key_hash(), value))),
+                        Ok(value) => {
+                            self.done = true;
+                            Some(Ok((leaf_node.key_hash(), value)))
+                        }
                         Err(e) => Some(Err(e)),
                     };
                 }
-- 
2.43.0

