From a9c2c040c9b721d465355faf814c976cb9abcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 1/9] fix: do not drop an element twice when its destructor
 panics in Truncate::truncate

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..bb8bc6e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -634,9 +634,11 @@ impl<T> Truncate for Vec<T> {
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
+                // Lower the length before dropping: if the destructor panics,
+                // the element must not be dropped again with the vector.
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From 16600cf59327f696ec6987dd24b2f68de5a38045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 2/9] fix: make Rc::try_new fallible for the reference-count
 allocation with the unstable feature

---
 src/rc.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..aa45719 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,24 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            // the reference counts need a second, infallible allocation
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<Rc<T>>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From fb8c311a9f3d14e11bf462c729fe8299e6391337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 3/9] fix: do not allocate io::Error payloads while reporting
 allocation failures

---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index bb8bc6e..bcdd110 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -256,9 +256,10 @@ pub mod std_io {
     ) -> io::Result<usize> {
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
+        // an io::Error with a message would itself have to be allocated
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +267,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From bc888f6754c3ccd93e0a26a78bf376114aec44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 4/9] fix: report an overflowing TryVec::concat length as an
 error instead of panicking

---
 src/vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index bcdd110..3d37086 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,7 +175,11 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
+        // a total that overflows (possible for zero-sized elements) is reported
+        // by the reservation instead of panicking here
+        let size = self
+            .iter()
+            .fold(0usize, |n, v| n.saturating_add(v.inner.len()));
         let mut result = TryVec::with_capacity(size)?;
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
-- 
2.43.0


From fc756183bc8085bbcb7e47dccc192392cb82275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 5/9] fix: tell dropck that dropping a BTreeMap drops keys and
 values

---
 src/btree/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..bda5784 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -124,6 +124,9 @@ use UnderflowResult::*;
 pub struct BTreeMap<K, V> {
     root: node::Root<K, V>,
     length: usize,
+    // For dropck: the nodes keep keys and values in `MaybeUninit`, so `root` alone does not say
+    // that dropping the map may drop keys and values.
+    _marker: PhantomData<alloc::boxed::Box<(K, V)>>,
 }
 
 unsafe impl<#[may_dangle] K, #[may_dangle] V> Drop for BTreeMap<K, V> {
@@ -150,6 +153,7 @@ impl<K: TryClone, V: TryClone> TryClone for BTreeMap<K, V> {
                     let mut out_tree = BTreeMap {
                         root: node::Root::new_leaf()?,
                         length: 0,
+                        _marker: PhantomData,
                     };
 
                     {
@@ -209,6 +213,7 @@ impl<K: TryClone, V: TryClone> TryClone for BTreeMap<K, V> {
             Ok(BTreeMap {
                 root: node::Root::shared_empty_root(),
                 length: 0,
+                _marker: PhantomData,
             })
         } else {
             clone_subtree(self.root.as_ref())
@@ -230,6 +235,7 @@ impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
                     let mut out_tree = BTreeMap {
                         root: node::Root::new_leaf().expect("Out of Mem"),
                         length: 0,
+                        _marker: PhantomData,
                     };
 
                     {
@@ -289,6 +295,7 @@ impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
             BTreeMap {
                 root: node::Root::shared_empty_root(),
                 length: 0,
+                _marker: PhantomData,
             }
         } else {
             clone_subtree(self.root.as_ref())
@@ -587,6 +594,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
         BTreeMap {
             root: node::Root::shared_empty_root(),
             length: 0,
+            _marker: PhantomData,
         }
     }
 
-- 
2.43.0


From d06746f7b419db30d15b67629b3d76390c0b33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 6/9] fix: allocate every node an insertion needs before
 changing the tree

A failed allocation in the middle of a BTreeMap insertion lost the split-off
subtree and left the length counter one too high.
---
 src/btree/map.rs  |  8 +++--
 src/btree/node.rs | 88 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index bda5784..17cb1fe 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2376,8 +2376,6 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
-        *self.length += 1;
-
         let out_ptr;
 
         let mut ins_k;
@@ -2385,8 +2383,12 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_edge;
 
         let mut cur_parent = match self.handle.insert(self.key, value)? {
-            (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
+            (Fit(handle), _) => {
+                *self.length += 1;
+                return Ok(handle.into_kv_mut().1);
+            }
             (Split(left, k, v, right), ptr) => {
+                *self.length += 1;
                 ins_k = k;
                 ins_v = v;
                 ins_edge = right;
diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..a540f11 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -829,6 +829,33 @@ impl<'a, K, V> NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal> {
         }
     }
 
+    /// Makes sure that this node has a parent with room for one more edge, so that this node
+    /// can be split. Full ancestors are split from the top down, after everything has been
+    /// allocated: on failure the tree is unchanged.
+    fn make_room_in_parent(self) -> Result<(), TryReserveError> {
+        match self.ascend() {
+            Ok(edge) => {
+                let mut parent = edge.into_node();
+                if parent.len() == CAPACITY {
+                    let new_node =
+                        <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+                    unsafe { parent.reborrow_mut() }
+                        .forget_type()
+                        .make_room_in_parent()?;
+                    let (left, k, v, right) = Handle::new_kv(parent, B).split(new_node);
+                    match left.ascend() {
+                        Ok(mut edge) => edge.insert_fit(k, v, right),
+                        Err(_) => unreachable!(),
+                    }
+                }
+            }
+            Err(node) => {
+                node.into_root_mut().push_level()?;
+            }
+        }
+        Ok(())
+    }
+
     fn into_kv_pointers_mut(mut self) -> (*mut K, *mut V) {
         (self.keys_mut().as_mut_ptr(), self.vals_mut().as_mut_ptr())
     }
@@ -1022,8 +1049,13 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
             let ptr = self.insert_fit(key, val);
             Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
         } else {
+            // Allocate everything before touching the tree, so that a failure leaves it as it was.
+            let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { LeafNode::new() })?;
+            unsafe { self.node.reborrow_mut() }
+                .forget_type()
+                .make_room_in_parent()?;
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(new_node);
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1104,8 +1136,9 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
             self.insert_fit(key, val, edge);
             Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
         } else {
+            let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(new_node);
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1184,23 +1217,18 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
-    pub fn split(
+    /// - All the key/value pairs to the right of this handle are put into `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1220,7 +1248,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1228,7 +1256,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1258,21 +1286,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
-    pub fn split(
+    ///   `new_node`.
+    fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1307,7 +1331,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 5d2c1b8f1dd0bc16e9890430ee8f5a9ed3d4b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 7/9] fix: do not panic on keys with an alignment above 16

The key slice of a node asserted a layout that over-aligned keys do not have,
although the node is not the shared root.
---
 src/btree/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index a540f11..af0f53d 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -567,8 +567,18 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // We cannot be the shared root, so `as_leaf` is okay
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From cf15870a549330ceda54719c62aa212b7b4cb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 8/9] fix: find the path of split_off before moving any element

A panicking comparison in the middle of split_off left the map with a length
larger than the number of its elements.
---
 src/btree/map.rs  | 35 +++++++++++++++++++++--------------
 src/btree/node.rs | 10 ++++++++++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 17cb1fe..88cc054 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1106,24 +1106,31 @@ impl<K: Ord, V> BTreeMap<K, V> {
         }
 
         {
-            let mut left_node = self.root.as_mut();
-            let mut right_node = right.root.as_mut();
-
+            // Find the whole path first: a comparison may panic, and must not do so
+            // while only part of the elements has been moved.
+            let leaf_edge = match search::search_tree(self.root.as_mut(), key) {
+                // key is going to the right tree
+                Found(handle) => match handle.left_edge().force() {
+                    Leaf(edge) => edge,
+                    Internal(edge) => last_leaf_edge(edge.descend()),
+                },
+                GoDown(edge) => edge,
+            };
+            let mut split_edge = leaf_edge.forget_node_type();
+            let mut right_node = first_leaf_edge(right.root.as_mut())
+                .into_node()
+                .forget_type();
+
+            // Then move the suffixes, from the leaf up to the root.
             loop {
-                let mut split_edge = match search::search_node(left_node, key) {
-                    // key is going to the right tree
-                    Found(handle) => handle.left_edge(),
-                    GoDown(handle) => handle,
-                };
-
                 split_edge.move_suffix(&mut right_node);
 
-                match (split_edge.force(), right_node.force()) {
-                    (Internal(edge), Internal(node)) => {
-                        left_node = edge.descend();
-                        right_node = node.first_edge().descend();
+                match (split_edge.into_node().ascend(), right_node.ascend()) {
+                    (Ok(edge), Ok(parent)) => {
+                        split_edge = edge.forget_node_type();
+                        right_node = parent.into_node().forget_type();
                     }
-                    (Leaf(_), Leaf(_)) => {
+                    (Err(_), Err(_)) => {
                         break;
                     }
                     _ => {
diff --git a/src/btree/node.rs b/src/btree/node.rs
index af0f53d..76bae03 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -1605,6 +1605,16 @@ unsafe fn move_edges<K, V>(
     dest.correct_childrens_parent_links(dest_offset, dest_offset + count);
 }
 
+impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> {
+    /// Removes any static information about whether this edge is in a `Leaf` or an
+    /// `Internal` node.
+    pub fn forget_node_type(
+        self,
+    ) -> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, marker::Edge> {
+        Handle::new_edge(self.node.forget_type(), self.idx)
+    }
+}
+
 impl<BorrowType, K, V, HandleType>
     Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, HandleType>
 {
-- 
2.43.0


From a21981972ed07dc92e998a2da0fd721bf2ad1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 9/9] fix: leave a valid tree when append panics

A panicking comparison, destructor or allocation failure in BTreeMap::append
left underfull nodes behind, on which later removals panicked.
---
 src/btree/map.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 88cc054..e0f1453 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -857,7 +857,6 @@ impl<K: Ord, V> BTreeMap<K, V> {
 
         // Second, we build a tree from the sorted sequence in linear time.
         self.from_sorted_iter(iter);
-        self.fix_right_edge();
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
@@ -989,8 +988,19 @@ impl<K: Ord, V> BTreeMap<K, V> {
     }
 
     fn from_sorted_iter<I: Iterator<Item = (K, V)>>(&mut self, iter: I) {
-        self.ensure_root_is_owned().expect("Out Of Mem");
-        let mut cur_node = last_leaf_edge(self.root.as_mut()).into_node();
+        // The iterator and the allocations may panic: leave a valid tree then, too.
+        struct FixRightEdge<'a, K: Ord, V>(&'a mut BTreeMap<K, V>);
+        impl<'a, K: Ord, V> Drop for FixRightEdge<'a, K, V> {
+            fn drop(&mut self) {
+                self.0.fix_top();
+                self.0.fix_right_edge();
+            }
+        }
+        let guard = FixRightEdge(self);
+        let this = &mut *guard.0;
+
+        this.ensure_root_is_owned().expect("Out Of Mem");
+        let mut cur_node = last_leaf_edge(this.root.as_mut()).into_node();
         // Iterate through all key-value pairs, pushing them into nodes at the right level.
         for (key, value) in iter {
             // Try to push key-value pair into the current leaf node.
@@ -1033,7 +1043,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
                 cur_node = last_leaf_edge(open_node.forget_type()).into_node();
             }
 
-            self.length += 1;
+            this.length += 1;
         }
     }
 
-- 
2.43.0

