From d94d09702d8e58cb5c0b376c7472b4ee731fb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 01/12] Let verification tools schedule bucket metadata
 accesses (cfg scc_verif)

---
 src/hash_table/bucket.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 696c865..f605844 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -1,11 +1,17 @@
+// Allows `scc_verif`, a configuration flag for verification tools.
+#![allow(unexpected_cfgs)]
+
 use std::cell::UnsafeCell;
 use std::fmt::{self, Debug};
 use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
+#[cfg(not(all(scc_verif, feature = "loom")))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 
+#[cfg(all(scc_verif, feature = "loom"))]
+use loom::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
-- 
2.43.0


From 971dd6caa094acfd1d4a8ae0b84fb2a14b84f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 02/12] fix: HashIndex lookup misses an entry that is being
 updated

A reader that had loaded the bitmaps of a bucket before an entry was replaced
by OccupiedEntry::update found neither the new entry nor the old one, whose
partial hash is overwritten when it is marked removed.
---
 src/hash_table/bucket.rs | 82 +++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index f605844..0acb0bd 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -7,6 +7,7 @@ use std::mem::{MaybeUninit, forget, needs_drop};
 use std::ops::{Deref, Index};
 use std::ptr::{self, NonNull, from_ref};
 use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
+use std::sync::atomic::fence;
 #[cfg(not(all(scc_verif, feature = "loom")))]
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize};
 
@@ -626,27 +627,59 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     where
         Q: Equivalent<K> + ?Sized,
     {
-        if self.len() != 0 {
-            if let Some((entry, _)) =
-                Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
-            {
+        while self.len() != 0 {
+            let mut snapshot = 0;
+            if let Some((entry, _)) = Self::search_data_block(
+                &self.metadata,
+                data_block_ref(data_block),
+                key,
+                hash,
+                &mut snapshot,
+            ) {
                 return Some(entry);
             }
 
             let mut link_ptr = self.metadata.load_link();
             while let Some(link) = link_ref(link_ptr) {
-                if let Some((entry, _)) =
-                    Self::search_data_block(&link.metadata, &link.data_block, key, hash)
-                {
+                if let Some((entry, _)) = Self::search_data_block(
+                    &link.metadata,
+                    &link.data_block,
+                    key,
+                    hash,
+                    &mut snapshot,
+                ) {
                     return Some(entry);
                 }
                 link_ptr = link.metadata.load_link();
             }
+
+            // If `TYPE = INDEX`, the entry may have been updated, and therefore moved to another
+            // slot during the search.
+            if TYPE != INDEX || snapshot == self.snapshot() {
+                break;
+            }
         }
 
         None
     }
 
+    /// Takes a snapshot of the bitmaps in the [`Bucket`].
+    ///
+    /// As long as there is a [`Guard`], a slot is never reused once the entry in it is removed,
+    /// therefore the same value means that nothing was inserted or removed.
+    #[inline]
+    fn snapshot(&self) -> u64 {
+        fence(Acquire);
+        let mut snapshot = 0;
+        self.metadata.load_bitmaps::<TYPE>(&mut snapshot);
+        let mut link_ptr = self.metadata.load_link();
+        while let Some(link) = link_ref(link_ptr) {
+            link.metadata.load_bitmaps::<TYPE>(&mut snapshot);
+            link_ptr = link.metadata.load_link();
+        }
+        snapshot
+    }
+
     /// Gets an [`EntryPtr`] pointing to the slot containing the key.
     ///
     /// Returns an invalid [`EntryPtr`] if the key is not present.
@@ -661,9 +694,13 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         Q: Equivalent<K> + ?Sized,
     {
         if self.len() != 0 {
-            if let Some((_, index)) =
-                Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
-            {
+            if let Some((_, index)) = Self::search_data_block(
+                &self.metadata,
+                data_block_ref(data_block),
+                key,
+                hash,
+                &mut 0,
+            ) {
                 return EntryPtr {
                     link_ptr: ptr::null(),
                     index,
@@ -673,7 +710,7 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             let mut current_link_ptr = self.metadata.load_link();
             while let Some(link) = link_ref(current_link_ptr) {
                 if let Some((_, index)) =
-                    Self::search_data_block(&link.metadata, &link.data_block, key, hash)
+                    Self::search_data_block(&link.metadata, &link.data_block, key, hash, &mut 0)
                 {
                     return EntryPtr {
                         link_ptr: current_link_ptr,
@@ -693,16 +730,12 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         data_block: &'g DataBlock<K, V, LEN>,
         key: &Q,
         hash: u64,
+        snapshot: &mut u64,
     ) -> Option<(&'g (K, V), usize)>
     where
         Q: Equivalent<K> + ?Sized,
     {
-        let mut bitmap = if TYPE == INDEX {
-            // Load ordering: `removed_bitmap` -> `acquire` -> `occupied_bitmap`.
-            (!metadata.removed_bitmap.load(Acquire)) & metadata.occupied_bitmap.load(Acquire)
-        } else {
-            metadata.occupied_bitmap.load(Relaxed)
-        };
+        let mut bitmap = metadata.load_bitmaps::<TYPE>(snapshot);
 
         // Expect that the loop is vectorized by the compiler.
         for i in 0..LEN {
@@ -1223,6 +1256,21 @@ unsafe impl Send for DoublyLinkedList {}
 unsafe impl Sync for DoublyLinkedList {}
 
 impl<K, V, const LEN: usize> Metadata<K, V, LEN> {
+    /// Loads the bitmap of reachable entries, and adds the loaded bitmaps to the snapshot.
+    #[inline]
+    fn load_bitmaps<const TYPE: char>(&self, snapshot: &mut u64) -> u32 {
+        if TYPE == INDEX {
+            // Load ordering: `removed_bitmap` -> `acquire` -> `occupied_bitmap`.
+            let removed_bitmap = self.removed_bitmap.load(Acquire);
+            let occupied_bitmap = self.occupied_bitmap.load(Acquire);
+            *snapshot = snapshot.wrapping_mul(0x9e37_79b9_7f4a_7c15)
+                ^ ((u64::from(removed_bitmap) << u32::BITS) | u64::from(occupied_bitmap));
+            !removed_bitmap & occupied_bitmap
+        } else {
+            self.occupied_bitmap.load(Relaxed)
+        }
+    }
+
     /// Loads the linked bucket pointer.
     #[inline]
     fn load_link(&self) -> *const LinkedBucket<K, V> {
-- 
2.43.0


From 07571a35c3f38dfec5e8f9553606e95e2e4aff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 03/12] fix: iterators that claim to be fused resume after
 returning None

HashIndex::Iter, TreeIndex::Iter and TreeIndex::Range implement FusedIterator,
but returned Some after None if an entry was inserted in the meantime.
---
 src/hash_index.rs | 15 ++++++++++++---
 src/tree_index.rs | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..cb2df12 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -2097,11 +2097,19 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.index == usize::MAX {
+            // Fused.
+            return None;
+        }
+
         let mut array = if let Some(&array) = self.bucket_array.as_ref() {
             array
         } else {
             // Start scanning.
-            let current_array = self.hashindex.bucket_array(self.guard)?;
+            let Some(current_array) = self.hashindex.bucket_array(self.guard) else {
+                self.index = usize::MAX;
+                return None;
+            };
             let array = if let Some(old_array) = current_array.linked_array(self.guard) {
                 old_array
             } else {
@@ -2125,8 +2133,8 @@ where
             self.entry_ptr = EntryPtr::null();
 
             if self.index + 1 == array.len() {
-                // Move to a newer bucket array.
-                self.index = 0;
+                // Move to a newer bucket array, or fuse itself if there is none.
+                self.index = usize::MAX;
                 let current_array = self.hashindex.bucket_array(self.guard)?;
                 if self
                     .bucket_array
@@ -2137,6 +2145,7 @@ where
                     break;
                 }
 
+                self.index = 0;
                 array = if let Some(old_array) = current_array.linked_array(self.guard) {
                     if self
                         .bucket_array
diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..ff36a3a 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -73,6 +73,7 @@ pub struct TreeIndex<K, V> {
 pub struct Iter<'t, 'g, K, V> {
     root: &'t AtomicShared<Node<K, V>>,
     leaf_scanner: Option<Scanner<'g, K, V>>,
+    exhausted: bool,
     guard: &'g Guard,
 }
 
@@ -83,6 +84,7 @@ pub struct Range<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> {
     bounds: R,
     check_lower_bound: bool,
     check_upper_bound: bool,
+    exhausted: bool,
     guard: &'g Guard,
     query: PhantomData<fn() -> Q>,
 }
@@ -872,6 +874,7 @@ impl<'t, 'g, K, V> Iter<'t, 'g, K, V> {
         Iter::<'t, 'g, K, V> {
             root,
             leaf_scanner: None,
+            exhausted: false,
             guard,
         }
     }
@@ -895,6 +898,10 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
+
         // Starts scanning.
         if self.leaf_scanner.is_none() {
             let root_ptr = self.root.load(Acquire, self.guard);
@@ -902,8 +909,6 @@ where
                 if let Some(scanner) = root_ref.min(self.guard) {
                     self.leaf_scanner.replace(scanner);
                 }
-            } else {
-                return None;
             }
         }
 
@@ -922,6 +927,7 @@ where
                 }
             }
         }
+        self.exhausted = true;
         None
     }
 }
@@ -948,6 +954,7 @@ impl<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> Range<'t, 'g, K, V, Q, R> {
             bounds: range,
             check_lower_bound: true,
             check_upper_bound: false,
+            exhausted: false,
             guard,
             query: PhantomData,
         }
@@ -1055,6 +1062,10 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
+
         while let Some((k, v)) = self.next_unbounded() {
             if self.check_lower_bound {
                 match self.bounds.start_bound() {
@@ -1092,6 +1103,7 @@ where
             }
             return Some((k, v));
         }
+        self.exhausted = true;
         None
     }
 }
-- 
2.43.0


From 740d675a205617d18edfded6691cf4b81dba9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 04/12] fix: TreeIndex::range yields entries above the upper
 bound

Whether the upper bound had to be checked was determined using the current
content of a leaf instead of the snapshot of it that was being scanned.
---
 src/tree_index/leaf.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..dac92ca 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -164,7 +164,12 @@ impl<K, V> Leaf<K, V> {
     /// Returns a reference to the max entry.
     #[inline]
     pub(super) fn max_entry(&self) -> Option<(&K, &V)> {
-        let mut mutable_metadata = self.metadata.load(Acquire);
+        self.max_entry_in(self.metadata.load(Acquire))
+    }
+
+    /// Returns a reference to the max entry among those in the supplied metadata.
+    #[inline]
+    fn max_entry_in(&self, mut mutable_metadata: usize) -> Option<(&K, &V)> {
         let mut max_rank = 0;
         let mut max_index = DIMENSION.num_entries;
         for i in 0..DIMENSION.num_entries {
@@ -897,10 +902,13 @@ impl<'l, K, V> Scanner<'l, K, V> {
         ))
     }
 
-    /// Returns a reference to the max key.
+    /// Returns a reference to the max key among those that the [`Scanner`] is able to visit.
+    ///
+    /// The metadata being used by the [`Scanner`] has to be used here as well, because the
+    /// [`Scanner`] keeps visiting entries that have been removed after the metadata was loaded.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-        self.leaf.max_key()
+        self.leaf.max_entry_in(self.metadata).map(|(key, _)| key)
     }
 
     /// Traverses the linked list.
-- 
2.43.0


From 818093c85a04cd9a8007586a2df0d0a6866ec539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 05/12] fix: TreeIndex::remove removes a key twice when it
 retries cleaning up the root

If the root could not be cleaned up after a successful removal, the removal was
repeated, and an entry with the same key inserted in the meantime was removed too.
---
 src/tree_index.rs | 44 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index ff36a3a..4cf8dbb 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -380,7 +380,13 @@ where
         loop {
             {
                 let guard = Guard::new();
-                if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+                if removed {
+                    // The entry was removed: do not try to remove the key again since it may have
+                    // been inserted again in the meantime.
+                    if Node::cleanup_root(&self.root, &mut pinned_async_wait, &guard) {
+                        return true;
+                    }
+                } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                     if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
                         &mut condition,
@@ -398,24 +404,12 @@ where
                                 }
                                 removed = true;
                             }
-                            RemoveResult::Fail => {
-                                if removed {
-                                    if Node::cleanup_root(
-                                        &self.root,
-                                        &mut pinned_async_wait,
-                                        &guard,
-                                    ) {
-                                        return true;
-                                    }
-                                } else {
-                                    return false;
-                                }
-                            }
+                            RemoveResult::Fail => return false,
                             RemoveResult::Frozen => (),
                         }
                     }
                 } else {
-                    return removed;
+                    return false;
                 }
             }
             pinned_async_wait.wait().await;
@@ -448,7 +442,13 @@ where
         let mut removed = false;
         loop {
             let guard = Guard::new();
-            if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
+            if removed {
+                // The entry was removed: do not try to remove the key again since it may have been
+                // inserted again in the meantime.
+                if Node::cleanup_root(&self.root, &mut (), &guard) {
+                    return true;
+                }
+            } else if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
                 if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
                 {
@@ -463,20 +463,12 @@ where
                             }
                             removed = true;
                         }
-                        RemoveResult::Fail => {
-                            if removed {
-                                if Node::cleanup_root(&self.root, &mut (), &guard) {
-                                    return true;
-                                }
-                            } else {
-                                return false;
-                            }
-                        }
+                        RemoveResult::Fail => return false,
                         RemoveResult::Frozen => (),
                     }
                 }
             } else {
-                return removed;
+                return false;
             }
         }
     }
-- 
2.43.0


From e36fc6385ea890fa2261f4c85318e9ab0d2d0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 06/12] fix: len and is_empty miss entries moved to a new
 bucket array meanwhile

If a resize was started while the bucket array was being read, entries moved to
the new bucket array were not counted, e.g., is_empty returned true although the
container was never empty.
---
 src/hash_table.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..635dd96 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -161,8 +161,8 @@ where
     ///
     /// In case there are more than `usize::MAX` entries, it returns `usize::MAX`.
     fn num_entries(&self, guard: &Guard) -> usize {
-        let mut num_entries: usize = 0;
-        if let Some(current_array) = self.bucket_array(guard) {
+        while let Some(current_array) = self.bucket_array(guard) {
+            let mut num_entries: usize = 0;
             if let Some(old_array) = current_array.linked_array(guard) {
                 self.incremental_rehash_sync::<true>(current_array, guard);
                 for i in 0..old_array.len() {
@@ -172,16 +172,21 @@ where
             for i in 0..current_array.len() {
                 num_entries = num_entries.saturating_add(current_array.bucket(i).len());
             }
+            if self.is_outdated(current_array, guard) {
+                // Entries may have been moved to a new bucket array before being counted.
+                continue;
+            }
             if num_entries == 0 && self.minimum_capacity() == 0 {
                 self.try_resize(current_array, 0, guard);
             }
+            return num_entries;
         }
-        num_entries
+        0
     }
 
     /// Returns `true` if a valid entry is found.
     fn has_entry(&self, guard: &Guard) -> bool {
-        if let Some(current_array) = self.bucket_array(guard) {
+        while let Some(current_array) = self.bucket_array(guard) {
             if let Some(old_array) = current_array.linked_array(guard) {
                 self.incremental_rehash_sync::<true>(current_array, guard);
                 for i in 0..old_array.len() {
@@ -195,13 +200,26 @@ where
                     return true;
                 }
             }
+            if self.is_outdated(current_array, guard) {
+                // Entries may have been moved to a new bucket array before being checked.
+                continue;
+            }
             if self.minimum_capacity() == 0 {
                 self.try_resize(current_array, 0, guard);
             }
+            return false;
         }
         false
     }
 
+    /// Returns `true` if the supplied bucket array is not the current one any longer.
+    #[inline]
+    fn is_outdated(&self, array: &BucketArray<K, V, L, TYPE>, guard: &Guard) -> bool {
+        !self
+            .bucket_array(guard)
+            .is_some_and(|current_array| ptr::eq(current_array, array))
+    }
+
     /// Estimates the number of entries by sampling buckets.
     #[inline]
     fn sample(current_array: &BucketArray<K, V, L, TYPE>, sampling_index: usize) -> usize {
-- 
2.43.0


From 7eca36bd4b4d3701a375e762c95a5b00a3ddec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 07/12] fix: HashIndex never reclaims entries removed from
 overflow buckets

Unreachable entries were cleared only if a removed entry was in the main bucket,
therefore linked buckets grew indefinitely when the main bucket was full of live
entries.
---
 src/hash_table/bucket.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 0acb0bd..34bbdb1 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -157,7 +157,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         let occupied_bitmap = self.metadata.occupied_bitmap.load(Relaxed);
         let occupied_bitmap = if TYPE == INDEX
             && occupied_bitmap == u32::MAX
-            && self.metadata.removed_bitmap.load(Relaxed) != 0
+            && (self.metadata.removed_bitmap.load(Relaxed) != 0 || self.has_stale_link())
         {
             self.clear_unreachable_entries(data_block_ref(data_block))
         } else {
@@ -466,6 +466,23 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         );
     }
 
+    /// Returns `true` if there is a full [`LinkedBucket`] containing removed entries.
+    fn has_stale_link(&self) -> bool {
+        debug_assert_eq!(TYPE, INDEX);
+
+        let mut link_ptr = self.metadata.load_link();
+        while let Some(link) = link_ref(link_ptr) {
+            if link.metadata.removed_bitmap.load(Relaxed) != 0
+                && link.metadata.occupied_bitmap.load(Relaxed).trailing_ones() as usize
+                    == LINKED_BUCKET_LEN
+            {
+                return true;
+            }
+            link_ptr = link.metadata.load_link();
+        }
+        false
+    }
+
     /// Clears unreachable entries.
     fn clear_unreachable_entries(&self, data_block: &DataBlock<K, V, BUCKET_LEN>) -> u32 {
         debug_assert_eq!(TYPE, INDEX);
-- 
2.43.0


From 750c456c3bf5b528f08a33bedaad4340b9ee50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 08/12] fix: a panic in a leaf split leaves the new leaves
 linked next to the old one

If K::clone or K::cmp panicked in split_leaf after the new leaves had been
linked, iterators went on yielding the copies.
---
 src/tree_index/leaf_node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..2b968d5 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -805,7 +805,15 @@ where
 
         // Distribute entries to two leaves after make the target retired.
         let exit_guard = ExitGuard::new((), |()| {
+            // The new leaves may have been linked already - see `LeafNode::rollback`.
+            if let Some(high_key_leaf) = self.split_op.high_key_leaf.load(Relaxed, guard).as_ref() {
+                high_key_leaf.delete_self(Release);
+            }
+            if let Some(low_key_leaf) = self.split_op.low_key_leaf.load(Relaxed, guard).as_ref() {
+                low_key_leaf.delete_self(Release);
+            }
             target.thaw();
+            target.unmark(Release);
             self.split_op.reset();
             self.lock.release_lock();
         });
-- 
2.43.0


From fc1df871faba8ccf1c1967d9c2c30580516b824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 09/12] fix: a panicking key comparison leaves an unlinked leaf
 or a shared node in the tree

Coalescing unlinked a retired leaf, or moved a node to the unbounded position,
before removing its key using K::cmp; if that panicked, entries inserted into
the leaf or the node later were lost.
---
 src/tree_index/internal_node.rs |  6 ++----
 src/tree_index/leaf.rs          | 15 +++++++++++++++
 src/tree_index/leaf_node.rs     |  3 +--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..5b5e808 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -942,8 +942,7 @@ where
                 let node_ptr = node.load(Acquire, guard);
                 let node_ref = node_ptr.as_ref().unwrap();
                 if node_ref.retired() {
-                    let result = self.children.remove_if(key, &mut |_| true);
-                    debug_assert_ne!(result, RemoveResult::Fail);
+                    self.children.remove_entry(key);
 
                     // Once the key is removed, it is safe to deallocate the node as the validation
                     // loop ensures the absence of readers.
@@ -973,8 +972,7 @@ where
                             let _: bool = obsolete_node.release();
                             node_deleted = true;
                         }
-                        let result = self.children.remove_if(key, &mut |_| true);
-                        debug_assert_ne!(result, RemoveResult::Fail);
+                        self.children.remove_entry(key);
                         if let Some(node) = max_key_child.swap((None, Tag::None), Release).0 {
                             let _: bool = node.release();
                             node_deleted = true;
diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index dac92ca..6ea864c 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -4,6 +4,7 @@ use std::fmt::{self, Debug};
 use std::mem::{MaybeUninit, needs_drop};
 use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::ops::RangeBounds;
+use std::ptr;
 #[cfg(not(feature = "loom"))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
@@ -288,6 +289,20 @@ impl<K, V> Leaf<K, V> {
         }
     }
 
+    /// Removes the entry to which the key belongs without comparing keys.
+    ///
+    /// The key must be stored in the [`Leaf`], and the [`Leaf`] must not be modified by others.
+    pub(super) fn remove_entry(&self, key: &K) {
+        for index in 0..DIMENSION.num_entries {
+            if ptr::eq(unsafe { (*self.entry_array.get()).0[index].as_ptr() }, key) {
+                self.metadata.fetch_or(DIMENSION.rank_mask(index), AcqRel);
+                if self.is_empty() {
+                    self.metadata.fetch_or(Dimension::retire(0), AcqRel);
+                }
+            }
+        }
+    }
+
     /// Rolls back the insertion at the given index.
     fn rollback(&self, index: usize) -> InsertResult<K, V> {
         let (key, val) = self.take(index);
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 2b968d5..0869f98 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -933,8 +933,7 @@ where
                 if leaf.is_retired() {
                     let deleted = leaf.delete_self(Release);
                     debug_assert!(deleted);
-                    let result = self.children.remove_if(entry.0, &mut |_| true);
-                    debug_assert_ne!(result, RemoveResult::Fail);
+                    self.children.remove_entry(entry.0);
 
                     // The pointer is nullified after the metadata of `self.children` is updated so
                     // that readers are able to retry when they find it being `null`.
-- 
2.43.0


From 60cc14ac109f7e187dc89f358051ded9e7b864ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 10/12] fix: TreeIndex::remove_range drops nodes before the
 remaining leaves are connected

Entries below the range were unreachable for a moment, and the leaves of dropped
nodes stayed in the linked list if a key comparison panicked or the asynchronous
method was cancelled.
---
 src/tree_index/internal_node.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 5b5e808..c0f0e37 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -448,6 +448,11 @@ where
         let mut lower_border = None;
         let mut upper_border = None;
 
+        // Contained nodes stay in the tree until the remaining leaves are connected, since that may
+        // fail, and their leaves would otherwise remain in the linked list.
+        let mut contained_nodes = [None; DIMENSION.num_entries];
+        let mut num_contained_nodes = 0;
+
         for (key, node) in Scanner::new(&self.children) {
             current_state = current_state.next(key, range, start_unbounded);
             match current_state {
@@ -462,14 +467,13 @@ where
                 RemoveRangeState::FullyContained => {
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
-                    self.children.remove_if(key, &mut |_| true);
-                    node.swap((None, Tag::None), AcqRel);
+                    contained_nodes[num_contained_nodes].replace((key, node));
+                    num_contained_nodes += 1;
                 }
                 RemoveRangeState::MaybeAbove => {
                     if valid_upper_min_node.is_some() {
                         // `valid_upper_min_node` is not in this sub-tree.
-                        self.children.remove_if(key, &mut |_| true);
-                        node.swap((None, Tag::None), AcqRel);
+                        contained_nodes[num_contained_nodes].replace((key, node));
                     } else {
                         num_children += 1;
                         upper_border.replace(node);
@@ -514,13 +518,7 @@ where
             // Pass `upper_node` to the lower leaf to connect leaves, so that this method can be
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
-            if let Some((Some(key), lower_node)) = lower_border {
-                self.children.remove_if(key, &mut |_| true);
-                self.unbounded_child
-                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
-                lower_node.swap((None, Tag::None), Release);
-            }
-            if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
+            if let Some(lower_node) = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref()) {
                 lower_node.remove_range(
                     range,
                     start_unbounded,
@@ -530,6 +528,13 @@ where
                     guard,
                 )?;
             }
+            if let Some((Some(key), lower_node)) = lower_border {
+                // The lower node should be reachable all the time.
+                self.unbounded_child
+                    .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                self.children.remove_entry(key);
+                lower_node.swap((None, Tag::None), Release);
+            }
         } else {
             let lower_node = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref());
             let upper_node = upper_border.and_then(|n| n.load(Acquire, guard).as_ref());
@@ -559,6 +564,11 @@ where
             }
         }
 
+        for (key, node) in contained_nodes.iter().flatten() {
+            self.children.remove_entry(key);
+            node.swap((None, Tag::None), AcqRel);
+        }
+
         Ok(num_children)
     }
 
-- 
2.43.0


From c8e4a0701ef31d7b6b6cc465c1d29ed9355c259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 11/12] fix: TreeIndex iterators go back to smaller keys when a
 leaf split is rolled back

A scanner may be about to enter the first of the new leaves while the split
is undone; the mark that tells it to compare keys is gone then.
---
 src/tree_index/leaf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 6ea864c..d0a2a56 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -940,11 +940,13 @@ impl<'l, K, V> Scanner<'l, K, V> {
         while let Some(next_leaf_ref) = next_leaf_ptr.as_ref() {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
-                if !self.leaf.is_clear(Relaxed) {
+                if !self.leaf.is_clear(Acquire) || next_leaf_ref.is_deleted(Relaxed) {
                     // Data race resolution: compare keys if the current leaf has been deleted.
                     //
                     // There is a chance that the current leaf has been deleted, and smaller
-                    // keys have been inserted into the next leaf.
+                    // keys have been inserted into the next leaf. Also, if a split of the current
+                    // leaf has been rolled back in the meantime, the mark is gone, but the next
+                    // leaf has been deleted before that.
                     while let Some((k, _)) = leaf_scanner.next() {
                         if key.cmp(k) == Ordering::Less {
                             return Some(leaf_scanner);
-- 
2.43.0


From ce3a9866bb928668880d156d618045514f41a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 12/12] fix: HashIndex lookups lose sight of an entry that is
 being inserted

An entry became visible to lock-free readers before the length of the bucket
was updated, and readers skip buckets of length zero: a reader that had found
the entry could fail to find it afterwards.
---
 src/hash_table/bucket.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 34bbdb1..8d959f8 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -167,6 +167,9 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         if free_index == BUCKET_LEN {
             self.insert_overflow(hash, entry)
         } else {
+            // Lock-free readers skip the bucket if `len` is zero, therefore `len` should be updated
+            // before the entry becomes visible.
+            self.len.store(self.len.load(Relaxed) + 1, Relaxed);
             self.insert_entry(
                 &self.metadata,
                 data_block_ref(data_block),
@@ -175,7 +178,6 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 hash,
                 entry,
             );
-            self.len.store(self.len.load(Relaxed) + 1, Relaxed);
             EntryPtr {
                 link_ptr: ptr::null(),
                 index: free_index,
@@ -404,6 +406,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             let free_index = occupied_bitmap.trailing_ones() as usize;
             if free_index != LINKED_BUCKET_LEN {
                 debug_assert!(free_index < LINKED_BUCKET_LEN);
+                self.len.store(self.len.load(Relaxed) + 1, Relaxed);
                 self.insert_entry(
                     &link.metadata,
                     &link.data_block,
@@ -412,7 +415,6 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                     hash,
                     entry,
                 );
-                self.len.store(self.len.load(Relaxed) + 1, Relaxed);
                 return EntryPtr {
                     link_ptr,
                     index: free_index,
@@ -435,8 +437,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             head.prev_link.store(link.as_ptr().cast_mut(), Relaxed);
         }
         let link_ptr = link.as_ptr();
-        self.metadata.link.swap((Some(link), Tag::None), Release);
         self.len.store(self.len.load(Relaxed) + 1, Relaxed);
+        self.metadata.link.swap((Some(link), Tag::None), Release);
         EntryPtr { link_ptr, index: 0 }
     }
 
-- 
2.43.0

