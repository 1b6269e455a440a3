From 307dcea1c58f187af5b350e45ee06c7869e2188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 01/10] fix: keep keys sharing an 8-byte prefix in one leaf
 when a larger key splits it

---
 src/leaf24.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..f7e8b88 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1220,8 +1220,10 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
                         split_pos -= 1;
                     }
                     std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
+                        // Insert goes right - move split right. Stopping here would
+                        // leave part of the group in the left leaf, where it is
+                        // unreachable: equal ikeys always route to the right leaf.
+                        split_pos += 1;
                     }
                 }
             } else {
-- 
2.43.0


From fe1aef643186d2dfd8f44c0d00fd7858dd2bcc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 02/10] fix: a descent must not trust an internode that a
 writer is still shifting

---
 src/tree/generic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..a6c20a9 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -908,8 +908,9 @@ where
                 continue;
             }
 
-            // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            // Check if internode changed during our read. A writer that is still inserting
+            // shifts keys and children in place, so its half-done state must be rejected too.
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From 9f9669b97525fc87e76202b8a4e9957695aef1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 03/10] fix: a lookup must not report a key absent while its
 slot is being turned into a layer

---
 src/tree/generic.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index a6c20a9..df0298c 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -583,8 +583,9 @@ where
                         }
                     }
 
-                    // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    // Validate version AFTER all reads. A writer that is still inside the leaf
+                    // (e.g. turning this slot into a layer) invalidates the snapshot as well.
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -741,8 +742,9 @@ where
                         }
                     }
 
-                    // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    // Validate version AFTER all reads. A writer that is still inside the leaf
+                    // (e.g. turning this slot into a layer) invalidates the snapshot as well.
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
-- 
2.43.0


From 3281346c6fff849ebaf8f1fc119a5ccbe558a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 04/10] fix: do not modify a suffix bag that unlocked readers
 may be reading

---
 src/leaf24.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index f7e8b88..7ff2998 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -401,21 +401,8 @@ impl<S: ValueSlot> LeafNode24<S> {
 
         let old_ptr: *mut SuffixBag<WIDTH_24> = self.ksuf.load(RELAXED);
 
-        // FAST PATH: Try in-place assignment if bag exists and has room.
-        // This avoids clone + box allocation + defer_retire in the common case.
-        // SAFETY: We hold the lock, so no concurrent writers. Readers use version
-        // validation and will retry if they see partial state.
-        if !old_ptr.is_null() {
-            // SAFETY: old_ptr is non-null and came from Box::into_raw.
-            // We hold the lock, so we can mutate the bag in place.
-            let bag: &mut SuffixBag<WIDTH_24> = unsafe { &mut *old_ptr };
-            if bag.try_assign_in_place(slot, suffix) {
-                self.keylenx[slot].store(KSUF_KEYLENX, WRITE_ORD);
-                return;
-            }
-        }
-
-        // SLOW PATH: Need to allocate a new bag (either first allocation or bag is full)
+        // Readers look into the published bag without the lock, so it is never
+        // modified: build a new one and swap the pointer.
         let mut new_bag: SuffixBag<WIDTH_24> = if old_ptr.is_null() {
             SuffixBag::new()
         } else {
-- 
2.43.0


From a0945f6e1cb99952681614bc2048e5448decc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 05/10] fix: is_empty must check and read the same root node

---
 src/tree/generic.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index df0298c..3db0fd8 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -168,9 +168,14 @@ where
     #[must_use]
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
-        if self.root_is_leaf_generic() {
-            // SAFETY: root_is_leaf_generic confirmed this is a leaf
-            let leaf_ptr: *const L = self.root_ptr.load(AtomicOrdering::Acquire).cast();
+        // Load the root once: an insert may replace a root leaf by an internode at any time, and
+        // the node whose type was checked must be the node that is read.
+        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
+
+        // SAFETY: `root` points to a valid node.
+        if unsafe { Self::node_is_leaf_generic(root) } {
+            // SAFETY: node_is_leaf_generic confirmed this is a leaf
+            let leaf_ptr: *const L = root.cast();
             unsafe { (*leaf_ptr).is_empty() }
         } else {
             // Internode implies at least one key
@@ -225,23 +230,21 @@ where
             .map(|_| ())
     }
 
-    /// Check if the current root is a leaf node.
+    /// Check if a node is a leaf node.
     ///
     /// # Safety
-    /// Reads the version field through a raw pointer. The `root_ptr` must
-    /// point to a valid node (guaranteed by construction).
+    /// Reads the version field through a raw pointer. `node` must
+    /// point to a valid node (guaranteed by construction for `root_ptr`).
     #[inline(always)]
     #[expect(
         clippy::cast_ptr_alignment,
-        reason = "root_ptr points to L or L::Internode, both have NodeVersion \
+        reason = "node points to L or L::Internode, both have NodeVersion \
                   as first field with proper alignment"
     )]
-    fn root_is_leaf_generic(&self) -> bool {
-        let root: *const u8 = self.root_ptr.load(AtomicOrdering::Acquire);
-
-        // SAFETY: `root_ptr` always points to a valid node.
+    unsafe fn node_is_leaf_generic(node: *const u8) -> bool {
+        // SAFETY: `node` points to a valid node.
         // `NodeVersion` is the first field of both leaf and internode types.
-        let version_ptr: *const NodeVersion = root.cast::<NodeVersion>();
+        let version_ptr: *const NodeVersion = node.cast::<NodeVersion>();
 
         unsafe { (*version_ptr).is_leaf() }
     }
-- 
2.43.0


From c6e9c7b77331cfe87c9c2a69bb0dcd12b358634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 06/10] fix: an insert that gives up walking siblings in a
 sublayer must restart in that sublayer

---
 src/tree/generic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 3db0fd8..04c6d7d 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1592,9 +1592,12 @@ where
             // B-link advance if needed
             let (leaf, exceeded_hop_limit) = self.advance_to_key_by_bound_generic(leaf, key, guard);
 
-            // If we exceeded the hop limit, re-traverse from root
+            // If we exceeded the hop limit, re-traverse from the root of this layer.
+            // In a sublayer the key is already shifted, so the main root is the wrong tree.
             if exceeded_hop_limit {
-                layer_root = self.load_root_ptr_generic(guard);
+                if !in_sublayer {
+                    layer_root = self.load_root_ptr_generic(guard);
+                }
                 continue;
             }
 
-- 
2.43.0


From d3708c57fc4792181056ec2e8bf0c1bf471221e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 07/10] fix: count_le_u64 must compare keys as unsigned
 integers

---
 src/ksearch/simd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index ed63f5b..e81f711 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -256,13 +256,17 @@ mod avx2_impl {
         }
 
         unsafe {
-            let target_vec = _mm256_set1_epi64x(target as i64);
+            // AVX2 only compares signed integers: flipping the sign bit of both
+            // sides makes that the order of the unsigned keys.
+            let sign = _mm256_set1_epi64x(i64::MIN);
+            let target_vec = _mm256_xor_si256(_mm256_set1_epi64x(target as i64), sign);
             let mut count = 0;
             let mut i = 0;
 
             // Process 4 keys at a time
             while i + 4 <= size {
                 let keys_vec = _mm256_loadu_si256(keys.as_ptr().add(i).cast());
+                let keys_vec = _mm256_xor_si256(keys_vec, sign);
 
                 // AVX2 has _mm256_cmpgt_epi64: gives 1s where key > target
                 // We want key <= target, which is !(key > target)
-- 
2.43.0


From 565d4356f1cd49b04b24ef858f400b3d7804a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 08/10] fix: count_le_u64 must not read past the slice

---
 src/ksearch/simd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index e81f711..79bf089 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -251,6 +251,8 @@ mod avx2_impl {
     #[allow(clippy::indexing_slicing)]
     #[allow(clippy::cast_possible_wrap)]
     pub unsafe fn count_le_u64_avx2(keys: &[u64], size: usize, target: u64) -> usize {
+        // Like the scalar version, never look past the end of the slice.
+        let size = size.min(keys.len());
         if size == 0 {
             return 0;
         }
-- 
2.43.0


From 6ef51aa2bc39cfd616b0449c5e11e9709bdd19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 09/10] fix: publish an internode's shifted keys with release
 stores

insert_key_and_child stored the keys with relaxed ordering. A reader that
loads a new key with acquire then has no happens-before edge to the writer's
lock, so on a weakly ordered machine it can still read the old child and an
old, unlocked version word, pass its validation and descend to the wrong
child, reporting a present key absent.
---
 src/internode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internode.rs b/src/internode.rs
index 48c37bb..afb90c8 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -441,14 +441,14 @@ impl<S: ValueSlot, const WIDTH: usize> InternodeNode<S, WIDTH> {
         // Children: child[p+1..n+1] -> child[p+2..n+2]
         for i in (p..n).rev() {
             let key: u64 = self.ikey0[i].load(RELAXED);
-            self.ikey0[i + 1].store(key, RELAXED);
+            self.ikey0[i + 1].store(key, WRITE_ORD);
 
             let child = self.child(i + 1);
             self.set_child(i + 2, child);
         }
 
         // Insert new key and child
-        self.ikey0[p].store(new_ikey, RELAXED);
+        self.ikey0[p].store(new_ikey, WRITE_ORD);
         self.set_child(p + 1, new_child);
 
         fence(WRITE_ORD);
-- 
2.43.0


From 7862d3bf40912bf272f9beeb0dfdff90e67eaa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 10/10] fix: clear a moved leaf slot with a release swap

take_leaf_value_ptr nulled the slot with relaxed ordering. A reader that
loads that null with acquire then has no happens-before edge to the writer's
lock, so on a weakly ordered machine it can skip the slot and still read an
old, unlocked version word, pass its validation and report a present key
absent.
---
 src/leaf24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 7ff2998..cea37dd 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -636,7 +636,7 @@ impl<S: ValueSlot> LeafNode24<S> {
     pub fn take_leaf_value_ptr(&self, slot: usize) -> *mut u8 {
         debug_assert!(slot < WIDTH_24, "take_leaf_value_ptr: slot out of bounds");
 
-        self.leaf_values[slot].swap(StdPtr::null_mut(), RELAXED)
+        self.leaf_values[slot].swap(StdPtr::null_mut(), WRITE_ORD)
     }
 
     /// Check if a slot is empty (value pointer is null).
-- 
2.43.0

