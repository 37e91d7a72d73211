From 04046d54e1e78ba3b8b129f3fe3c87cbc9da97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 1/6] fix: compare every prefix byte when checking for
 descendants

---
 src/utils/tree_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..0d3cac5 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,7 +86,9 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
+        // Start at the byte boundary so that the byte holding the last bit before the split is reached
+        let first_bit = min_split_index & !7_usize;
+        for j in (first_bit..branch_split_index).step_by(8) {
             let byte = j >> 3_usize;
             if branch_key[byte] == key[byte] {
                 continue;
-- 
2.43.0


From 8350ef4ed133a2066eea01db30f6c297c6ba1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 2/6] fix: allow single lookups and proofs at the depth limit
 like get

---
 src/merkle_bit.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..77303ae 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -673,10 +673,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut found_leaf = false;
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
-                return Err(Exception::new("Depth limit exceeded"));
+            // The data node shares the level of its leaf
+            if !found_leaf {
+                if depth > self.depth {
+                    return Err(Exception::new("Depth limit exceeded"));
+                }
+                depth += 1;
             }
-            depth += 1;
 
             if let Some(node) = self.db.get_node(location)? {
                 match node.get_variant() {
@@ -818,10 +821,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
 
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
-                return Err(Exception::new("Depth limit exceeded"));
+            // The data node shares the level of its leaf
+            if !found_leaf {
+                if depth > self.depth {
+                    return Err(Exception::new("Depth limit exceeded"));
+                }
+                depth += 1;
             }
-            depth += 1;
 
             if let Some(node) = self.db.get_node(location)? {
                 match node.get_variant() {
-- 
2.43.0


From 6b3e068ed5818ce57fd5c6c68530faf97d7db564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 3/6] fix: let every serializer decode the arrays it encoded

---
 src/lib.rs | 535 +++++++++++++++++++++++++++--------------------------
 1 file changed, 275 insertions(+), 260 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..22c9cd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,260 +1,275 @@
-// Clippy configurations
-#![warn(
-    clippy::all,
-    clippy::restriction,
-    clippy::pedantic,
-    clippy::nursery,
-    clippy::cargo
-)]
-#![allow(clippy::integer_arithmetic)]
-#![allow(clippy::indexing_slicing)]
-#![allow(clippy::cast_possible_truncation)]
-#![allow(clippy::implicit_return)]
-#![allow(clippy::else_if_without_else)]
-#![allow(clippy::module_name_repetitions)]
-#![allow(clippy::mod_module_files)]
-#![allow(clippy::separated_literal_suffix)]
-#![allow(clippy::blanket_clippy_restriction_lints)]
-#![forbid(unsafe_code)]
-
-//! # Merkle Binary Indexed Tree
-//! ## Introduction
-//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
-//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
-//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
-//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
-//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
-//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
-//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
-//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
-//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
-//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
-//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
-//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
-//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
-//!
-//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
-//! later used to access the inserted items.
-//!
-//! ## Internal Structure
-//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
-//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
-//!
-//! A `Branch` node contains first a `split_index`
-//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
-//! that makes this a *sparse* merkle tree.  It then contains pointers
-//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
-//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
-//! a `count` of the nodes under that branch.
-//!
-//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
-//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
-//! accessing data information if data should be retrieved.
-//!
-//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
-//! and the only restriction is that the data must be serializable and deserializable.
-//!
-//! To illustrate these concepts, please refer to the diagram below:
-//!
-//! ```text
-//!                                                 ----------------------
-//!                                 branch  --->    | split_index: usize |
-//!                                   |             | zero: [u8]         |
-//!       ----------------           / \            | one:  [u8]         |
-//!       | key: [u8]    |          /   \           | count: u64         |
-//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
-//!       ----------------         |                ----------------------
-//!                                |
-//!                                V
-//!                              data
-//!                                |
-//!                                V
-//!                         ------------------
-//!                         | value: Vec<u8> |
-//!                         ------------------
-//! ```
-//!
-//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
-//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
-
-#[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
-#[cfg(feature = "serde")]
-use serde::ser::SerializeSeq;
-#[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer};
-#[cfg(feature = "serde")]
-use serde::{Serialize, Serializer};
-#[cfg(feature = "serde")]
-use std::array::IntoIter;
-#[cfg(feature = "serde")]
-use std::cmp::min;
-#[cfg(feature = "serde")]
-use std::fmt::Formatter;
-#[cfg(feature = "serde")]
-use std::ops::{Deref, DerefMut, Index, IndexMut};
-#[cfg(feature = "serde")]
-use std::slice::{Iter, SliceIndex};
-
-/// Defines constants for the tree.
-pub mod constants;
-/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
-pub mod hash_tree;
-/// Contains the actual operations of inserting, getting, and removing items from a tree.
-pub mod merkle_bit;
-/// Contains the traits necessary for tree operations
-pub mod traits;
-/// Contains a collection of structs for representing locations within the tree.
-pub mod tree;
-/// Contains a collection of structs for implementing tree databases.
-pub mod tree_db;
-/// Contains a collection of structs for implementing hashing functions in the tree.
-pub mod tree_hasher;
-/// Contains a collection of useful structs and functions for tree operations.
-pub mod utils;
-
-#[cfg(feature = "rocksdb")]
-/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
-pub mod rocks_tree;
-
-/// Alias for a fixed sized array
-#[cfg(not(any(feature = "serde")))]
-pub type Array<const N: usize> = [u8; N];
-
-/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
-/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
-#[cfg(feature = "serde")]
-#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
-pub struct Array<const N: usize>([u8; N]);
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Array<N> {
-    /// Produces an iterator through the underlying array.
-    #[inline]
-    pub fn iter(&self) -> Iter<u8> {
-        self.0.iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Default for Array<N> {
-    #[inline]
-    fn default() -> Self {
-        Self([0; N])
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<[u8; N]> for Array<N> {
-    #[inline]
-    fn from(array: [u8; N]) -> Self {
-        Self(array)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<Array<N>> for [u8; N] {
-    #[inline]
-    fn from(array: Array<N>) -> Self {
-        array.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> IntoIterator for Array<N> {
-    type Item = u8;
-    type IntoIter = IntoIter<u8, N>;
-
-    #[inline]
-    fn into_iter(self) -> Self::IntoIter {
-        self.0.into_iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> AsRef<[u8]> for Array<N> {
-    #[inline]
-    fn as_ref(&self) -> &[u8] {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Deref for Array<N> {
-    type Target = [u8; N];
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> DerefMut for Array<N> {
-    #[inline]
-    fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
-    type Output = Idx::Output;
-
-    #[inline]
-    fn index(&self, index: Idx) -> &Self::Output {
-        &self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
-    #[inline]
-    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
-        &mut self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Serialize for Array<N> {
-    #[inline]
-    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(N))?;
-        for e in self.iter() {
-            seq.serialize_element(e)?;
-        }
-        seq.end()
-    }
-}
-
-#[cfg(feature = "serde")]
-/// Visitor for deserializing `Array<N>`s.
-struct ArrayVisitor<const N: usize>;
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
-    type Value = Array<N>;
-
-    #[inline]
-    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
-    }
-
-    #[inline]
-    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
-        let mut value = Array::default();
-        for i in 0..(min(N, v.len())) {
-            value[i] = v[i];
-        }
-
-        Ok(value)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Deserialize<'de> for Array<N> {
-    #[inline]
-    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
-    }
-}
+// Clippy configurations
+#![warn(
+    clippy::all,
+    clippy::restriction,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::cargo
+)]
+#![allow(clippy::integer_arithmetic)]
+#![allow(clippy::indexing_slicing)]
+#![allow(clippy::cast_possible_truncation)]
+#![allow(clippy::implicit_return)]
+#![allow(clippy::else_if_without_else)]
+#![allow(clippy::module_name_repetitions)]
+#![allow(clippy::mod_module_files)]
+#![allow(clippy::separated_literal_suffix)]
+#![allow(clippy::blanket_clippy_restriction_lints)]
+#![forbid(unsafe_code)]
+
+//! # Merkle Binary Indexed Tree
+//! ## Introduction
+//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
+//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
+//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
+//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
+//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
+//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
+//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
+//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
+//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
+//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
+//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
+//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
+//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
+//!
+//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
+//! later used to access the inserted items.
+//!
+//! ## Internal Structure
+//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
+//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
+//!
+//! A `Branch` node contains first a `split_index`
+//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
+//! that makes this a *sparse* merkle tree.  It then contains pointers
+//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
+//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
+//! a `count` of the nodes under that branch.
+//!
+//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
+//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
+//! accessing data information if data should be retrieved.
+//!
+//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
+//! and the only restriction is that the data must be serializable and deserializable.
+//!
+//! To illustrate these concepts, please refer to the diagram below:
+//!
+//! ```text
+//!                                                 ----------------------
+//!                                 branch  --->    | split_index: usize |
+//!                                   |             | zero: [u8]         |
+//!       ----------------           / \            | one:  [u8]         |
+//!       | key: [u8]    |          /   \           | count: u64         |
+//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
+//!       ----------------         |                ----------------------
+//!                                |
+//!                                V
+//!                              data
+//!                                |
+//!                                V
+//!                         ------------------
+//!                         | value: Vec<u8> |
+//!                         ------------------
+//! ```
+//!
+//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
+//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
+
+#[cfg(feature = "serde")]
+use serde::de::{Error, SeqAccess, Visitor};
+#[cfg(feature = "serde")]
+use serde::ser::SerializeSeq;
+#[cfg(feature = "serde")]
+use serde::{Deserialize, Deserializer};
+#[cfg(feature = "serde")]
+use serde::{Serialize, Serializer};
+#[cfg(feature = "serde")]
+use std::array::IntoIter;
+#[cfg(feature = "serde")]
+use std::cmp::min;
+#[cfg(feature = "serde")]
+use std::fmt::Formatter;
+#[cfg(feature = "serde")]
+use std::ops::{Deref, DerefMut, Index, IndexMut};
+#[cfg(feature = "serde")]
+use std::slice::{Iter, SliceIndex};
+
+/// Defines constants for the tree.
+pub mod constants;
+/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
+pub mod hash_tree;
+/// Contains the actual operations of inserting, getting, and removing items from a tree.
+pub mod merkle_bit;
+/// Contains the traits necessary for tree operations
+pub mod traits;
+/// Contains a collection of structs for representing locations within the tree.
+pub mod tree;
+/// Contains a collection of structs for implementing tree databases.
+pub mod tree_db;
+/// Contains a collection of structs for implementing hashing functions in the tree.
+pub mod tree_hasher;
+/// Contains a collection of useful structs and functions for tree operations.
+pub mod utils;
+
+#[cfg(feature = "rocksdb")]
+/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
+pub mod rocks_tree;
+
+/// Alias for a fixed sized array
+#[cfg(not(any(feature = "serde")))]
+pub type Array<const N: usize> = [u8; N];
+
+/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
+/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
+#[cfg(feature = "serde")]
+#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
+pub struct Array<const N: usize>([u8; N]);
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Array<N> {
+    /// Produces an iterator through the underlying array.
+    #[inline]
+    pub fn iter(&self) -> Iter<u8> {
+        self.0.iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Default for Array<N> {
+    #[inline]
+    fn default() -> Self {
+        Self([0; N])
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<[u8; N]> for Array<N> {
+    #[inline]
+    fn from(array: [u8; N]) -> Self {
+        Self(array)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<Array<N>> for [u8; N] {
+    #[inline]
+    fn from(array: Array<N>) -> Self {
+        array.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> IntoIterator for Array<N> {
+    type Item = u8;
+    type IntoIter = IntoIter<u8, N>;
+
+    #[inline]
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> AsRef<[u8]> for Array<N> {
+    #[inline]
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Deref for Array<N> {
+    type Target = [u8; N];
+
+    #[inline]
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> DerefMut for Array<N> {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
+    type Output = Idx::Output;
+
+    #[inline]
+    fn index(&self, index: Idx) -> &Self::Output {
+        &self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
+    #[inline]
+    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
+        &mut self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Serialize for Array<N> {
+    #[inline]
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut seq = serializer.serialize_seq(Some(N))?;
+        for e in self.iter() {
+            seq.serialize_element(e)?;
+        }
+        seq.end()
+    }
+}
+
+#[cfg(feature = "serde")]
+/// Visitor for deserializing `Array<N>`s.
+struct ArrayVisitor<const N: usize>;
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
+    type Value = Array<N>;
+
+    #[inline]
+    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
+        formatter.write_str("an unsigned integer from 0 to 255")
+    }
+
+    #[inline]
+    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        let mut value = Array::default();
+        for i in 0..(min(N, v.len())) {
+            value[i] = v[i];
+        }
+
+        Ok(value)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = seq
+                .next_element()?
+                .ok_or_else(|| A::Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(A::Error::invalid_length(N + 1, &self));
+        }
+
+        Ok(value)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Deserialize<'de> for Array<N> {
+    #[inline]
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_seq(ArrayVisitor)
+    }
+}
-- 
2.43.0


From d29bbd17856c37f22f2ffb9dcc6739c44eaee680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 4/6] fix: reject duplicate keys and unknown roots before
 writing anything

---
 src/merkle_bit.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 77303ae..a181cf8 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -202,6 +202,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         keys.sort_unstable();
 
+        if keys.windows(2).any(|pair| pair[0] == pair[1]) {
+            return Err(Exception::new(
+                "Attempted to insert item with duplicate keys",
+            ));
+        }
+        self.check_root(previous_root)?;
+
         let nodes = self.insert_leaves(keys, &value_map)?;
 
         let mut tree_refs = Vec::with_capacity(keys.len());
@@ -221,6 +228,16 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(new_root)
     }
 
+    /// Checks that the previous root exists before anything is written.
+    fn check_root(&self, previous_root: Option<&Array<N>>) -> BinaryMerkleTreeResult<()> {
+        if let Some(root) = previous_root {
+            if self.db.get_node(*root)?.is_none() {
+                return Err(Exception::new("Could not find root"));
+            }
+        }
+        Ok(())
+    }
+
     /// Traverses the tree and searches for nodes to include in the merkle proof.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
@@ -891,6 +908,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
+        self.check_root(previous_root)?;
+
         let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
 
         let mut tree_refs = Vec::with_capacity(1);
-- 
2.43.0


From c805858483c8839d10a18bafcd3df3238ebb6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 5/6] fix: count one reference per link when a key is
 reinserted unchanged

---
 src/merkle_bit.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index a181cf8..d6d9558 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -296,12 +296,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                         }
                     }
 
-                    self.insert_leaf(&location)?;
-
+                    // `insert_leaves` already added the reference to an unchanged leaf
                     if update {
                         continue;
                     }
 
+                    self.insert_leaf(&location)?;
+
                     let tree_ref = TreeRef::new(*key, location, 1, 1);
                     proof_nodes.push(tree_ref);
                     continue;
@@ -464,12 +465,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
             leaf_node.set_references(1);
 
+            let existing_leaf = self.db.get_node(leaf_node_location)?;
+
             if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
+                // A leaf that is already stored already holds its reference to the data
+                let references = n.get_references() + u64::from(existing_leaf.is_none());
                 data_node.set_references(references);
             }
 
-            if let Some(n) = self.db.get_node(leaf_node_location)? {
+            if let Some(n) = existing_leaf {
                 let references = n.get_references() + 1;
                 leaf_node.set_references(references);
             }
-- 
2.43.0


From 97fe32320e2f1e7e4d5d135d783289d42e1fc806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 6/6] fix: keep the references of a branch that is already
 stored

---
 src/merkle_bit.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index d6d9558..65b7b65 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -378,6 +378,19 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         ))
     }
 
+    /// Gives back a reference to a node that is still referenced by another
+    fn release(&mut self, location: Array<N>) -> BinaryMerkleTreeResult<()> {
+        if let Some(mut n) = self.db.get_node(location)? {
+            let refs = n.get_references().saturating_sub(1);
+            n.set_references(refs);
+            self.db.insert(location, n)?;
+            return Ok(());
+        }
+        Err(Exception::new(
+            "Corrupt merkle tree: Failed to release node reference",
+        ))
+    }
+
     /// Splits nodes during tree traversal into either zeros or ones, depending on the selected bit
     /// from the index
     /// # Errors
@@ -595,6 +608,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
             branch_node.set_references(1);
 
+            if let Some(n) = self.db.get_node(branch_node_location)? {
+                // The stored branch already holds its references to its children, so only the
+                // branch gains one.  Flush first, as pending writes may not be visible to reads.
+                branch_node.set_references(n.get_references() + 1);
+                self.db.batch_write()?;
+                self.release(tree_ref_location)?;
+                self.release(next_tree_ref_location)?;
+            }
+
             self.db.insert(branch_node_location, branch_node)?;
 
             {
-- 
2.43.0

