From 3afc800de90bc4df928b85b1c4bf79a157e50b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 1/6] fix: do not drop an element twice when its destructor
 panics in Truncate

---
 src/vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..8c74ddb 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,7 +625,7 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
+            // Keep the length up to date at every step, keeping in mind that
             // dropping an element might panic. Works around a missed
             // optimization, as seen in the following issue:
             // https://github.com/rust-lang/rust/issues/51802
@@ -634,9 +634,11 @@ impl<T> Truncate for Vec<T> {
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
+                // Decrement the length before dropping, so that the element is not
+                // dropped a second time if its destructor panics
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From d0f0579714e25393a27e7e9525c9c99035fdc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 2/6] fix: report an allocation failure as io::Error without
 allocating

---
 src/vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 8c74ddb..55b8c4f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -257,8 +257,10 @@ pub mod std_io {
         let additional = limit
             .try_into()
             .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+        // NB converting from `ErrorKind` doesn't allocate, whereas `io::Error::new` does and
+        // would abort when memory is exhausted
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +268,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From b3f6449f9eb31d3048d545b46eb1c906fb3db4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 3/6] fix: FallibleRc::try_new reports an allocation failure
 instead of aborting

---
 src/rc.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..c2af929 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,25 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            // doesn't work as the reference counts are also stored in the allocation
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<Rc<T>>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From 97a71c8f1014e48ad921ebefee763f8ff5f72c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 4/6] fix: a failed allocation leaves the BTreeMap as it was

VacantEntry::try_insert counted the new entry before the allocations that
can fail, and a failure above the leaf lost the right half of the nodes
split so far.
---
 src/btree/map.rs  |  11 +++-
 src/btree/node.rs | 150 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 116 insertions(+), 45 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..e4ab33a 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,10 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // Every allocation happens here, before anything is modified: if one fails, the map is
+        // left as it was.
+        let mut spare = self.handle.try_spare_nodes()?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2380,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spare) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2393,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spare) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2403,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_level_spare(&mut spare)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..4f5e6c4 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -40,6 +40,7 @@ use crate::boxed::FallibleBox;
 use crate::TryReserveError;
 use alloc::alloc::{Allocator, Global, Layout};
 use alloc::boxed::Box;
+use alloc::vec::Vec;
 
 const B: usize = 6;
 pub const MIN_LEN: usize = B - 1;
@@ -266,8 +267,23 @@ impl<K, V> Root<K, V> {
     pub fn push_level(
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_into(new_node))
+    }
+
+    /// Same as `push_level`, but uses a node allocated ahead of time.
+    pub fn push_level_spare(
+        &mut self,
+        spare: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_into(spare.take_internal())
+    }
+
+    fn push_level_into(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +300,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -319,6 +335,34 @@ impl<K, V> Root<K, V> {
     }
 }
 
+/// The nodes an insertion is going to need, allocated before the tree is modified so that running
+/// out of memory cannot leave an insertion half done.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    internals: Vec<Box<InternalNode<K, V>>>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    fn add_internal(&mut self) -> Result<(), TryReserveError> {
+        self.internals.try_reserve(1)?;
+        self.internals
+            .push(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+                InternalNode::new()
+            })?);
+        Ok(())
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().expect("a leaf was set aside")
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        self.internals
+            .pop()
+            .expect("an internal node was set aside")
+    }
+}
+
 // N.B. `NodeRef` is always covariant in `K` and `V`, even when the `BorrowType`
 // is `Mut`. This is technically wrong, but cannot result in any unsafety due to
 // internal use of `NodeRef` because we stay completely generic over `K` and `V`.
@@ -1009,21 +1053,51 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         }
     }
 
+    /// Allocates all the nodes needed to insert at this edge: one for this leaf if it is full,
+    /// one for each of its full ancestors up to the first that isn't, and one for a new root if
+    /// they are all full.
+    pub fn try_spare_nodes(&self) -> Result<SpareNodes<K, V>, TryReserveError> {
+        let mut spare = SpareNodes {
+            leaf: None,
+            internals: Vec::new(),
+        };
+        if self.node.len() < CAPACITY {
+            return Ok(spare);
+        }
+        spare.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+
+        let mut node = self.node.reborrow().forget_type();
+        while let Ok(parent) = node.ascend() {
+            let parent = parent.into_node();
+            if parent.len() < CAPACITY {
+                return Ok(spare);
+            }
+            spare.add_internal()?;
+            node = parent.forget_type();
+        }
+        spare.add_internal()?;
+        Ok(spare)
+    }
+
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
-    /// this edge. This method splits the node if there isn't enough room.
+    /// this edge. This method splits the node if there isn't enough room, using the nodes
+    /// allocated by `try_spare_nodes`.
     ///
     /// The returned pointer points to the inserted value.
     pub fn insert(
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_leaf());
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1035,7 +1109,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1090,22 +1164,23 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
 
     /// Inserts a new key/value pair and an edge that will go to the right of that new pair
     /// between this edge and the key/value pair to the right of this edge. This method splits
-    /// the node if there isn't enough room.
+    /// the node if there isn't enough room, using the nodes allocated by `try_spare_nodes`.
     pub fn insert(
         mut self,
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare.take_internal());
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1119,7 +1194,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1184,23 +1259,18 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
-    pub fn split(
+    /// - All the key/value pairs to the right of this handle are put into `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1220,7 +1290,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1228,7 +1298,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1258,21 +1328,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
-    pub fn split(
+    ///   `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1307,7 +1373,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 99917d1d0764ea08ef53e165fc6b4d492436a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 5/6] fix: TryVec::concat reports an overflowing total length
 as an error instead of panicking

---
 src/vec.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 55b8c4f..22b0947 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,7 +175,11 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
+        // NB the total length can overflow when the elements are zero-sized
+        let size = self
+            .iter()
+            .try_fold(0usize, |size, v| size.checked_add(v.inner.len()))
+            .ok_or_else(capacity_overflow)?;
         let mut result = TryVec::with_capacity(size)?;
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
@@ -433,6 +437,13 @@ impl<'a, T> Iterator for IterMut<'a, T> {
     }
 }
 
+#[cold]
+fn capacity_overflow() -> TryReserveError {
+    let mut v: Vec<u8> = Vec::new();
+    // this will always overflow capacity
+    v.try_reserve(core::usize::MAX).unwrap_err()
+}
+
 fn needs_to_grow<T>(v: &Vec<T>, len: usize) -> bool {
     v.len()
         .checked_add(len)
-- 
2.43.0


From 7f637878f2b2abda618de2d717716bdb5ee88326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:41 +0000
Subject: [PATCH 6/6] fix: look-ups in a BTreeMap whose keys are aligned to
 more than 16 bytes panicked

into_key_slice asserted that a node header aligned for the keys is as large
as one that is not, which fails for such keys although the node is not the
shared root. Use the leaf's own key array there, as into_key_slice_mut does.
---
 src/btree/node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index 4f5e6c4..5f64216 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -611,8 +611,14 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                return &[];
+            }
+            // This is not the shared root, so `as_leaf` is okay
+            unsafe {
+                slice::from_raw_parts(MaybeUninit::slice_as_ptr(&self.as_leaf().keys), self.len())
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0

