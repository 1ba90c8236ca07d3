From ff880fd1f71f0314f9fe6fb5a899792c74c24f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 1/8] fix: reserve the requested capacity in GrowableSlab for
 Vec<u32>

Vec::reserve counts from the length, not from the capacity, so
reserve_capacity(c) could leave the capacity below c, and it panicked
(subtract with overflow) when c was below the current capacity.
---
 crates/crabslab/src/slab.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..c854883 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -296,7 +296,8 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        // `Vec::reserve` takes the number of elements to fit _beyond the length_.
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 07ca9872db93b31a1b9841138380108b6ee73cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 2/8] fix: Range::is_empty is true only for ranges without
 elements

Both bounds of a Range are inclusive, so first_index == last_index is a
range of one element, for which is_empty answered true while len answered 1.
---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..7af01bc 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From d793d735107acfe24b9d366f4142c832b9d1fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 3/8] fix: allocating a zero-sized item no longer underflows

RangeManager::remove(0) computed first_index + 0 - 1, which panicked when
the first recycled range started at index 0, e.g. when creating a
PhantomData value after an earlier value had been recycled.
---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 7af01bc..324aeab 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        // A removal of nothing never takes a range (items like `PhantomData` occupy no slots).
+        if count == 0 {
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From ef14f21e347836f1779fac9dffb59eef34e797d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 4/8] fix: merge an added range with every managed range it
 touches

add_range merged only with the first one, so an update overlapping two
queued updates left two overlapping updates behind, and writing them in
order overwrote the newer data with the older.
---
 crates/craballoc/src/range.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 324aeab..6974e06 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -116,11 +116,16 @@ impl<R: IsRange> RangeManager<R> {
         self.ranges.is_empty()
     }
 
-    pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
+    pub fn add_range(&mut self, mut input_range: R) {
+        // The input may merge with more than one of the managed ranges.
+        let mut i = 0;
+        while i < self.ranges.len() {
+            if self.ranges[i].should_merge_with(&input_range) {
+                let mut range = self.ranges.swap_remove(i);
                 range.union(input_range);
-                return;
+                input_range = range;
+            } else {
+                i += 1;
             }
         }
         self.ranges.push(input_range);
-- 
2.43.0


From 3472d509078e7e826d565f34e6f3f233d2c630f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 5/8] fix: committing an empty array no longer panics

An empty array is Array::NONE, whose index is u32::MAX, and its (empty)
initial update was written at that index: out of range of any buffer.
---
 crates/craballoc/src/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..4aea5d5 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -432,12 +432,18 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
                 elements,
             }
         };
+        // An empty array occupies nothing on the slab, so there is nothing to write.
+        let updates = if array.is_empty() {
+            vec![]
+        } else {
+            vec![update]
+        };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            updates: Arc::new(Mutex::new(updates)),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From 684cbb83d24233fde99c546ddde5804cae1222bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 6/8] fix: GpuArray::set_item ignores an index that is out of
 bounds

It queued an update at Id::NONE, which panicked in the next commit and
poisoned the slab's locks. HybridArray::set_item already ignores it.
---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 4aea5d5..60f24d7 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -467,6 +467,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            // Out of bounds, there is nothing to set.
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From 92b5d81a08f098a5abc01a438d9d397a67522382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 7/8] fix: derived enums write a field named __hash as itself

The generated code bound the tag to a local of that name after the variant's
fields were destructured, so the tag was written in place of such a field.
---
 crates/crabslab-derive/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..b468c91 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -368,8 +368,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             };
             quote! {
                 #pat_match => {
-                    let __hash: u32 = #hash;
-                    let index = __hash.write_slab(index, slab);
+                    let index = u32::write_slab(&#hash, index, slab);
                     #write
                     original_index + slab_size
                 }
-- 
2.43.0


From 07322c2b9a56000c9fb2949a4d57cd106387b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 8/8] fix: reading an empty range through the wgpu runtime
 panicked

---
 crates/craballoc/src/runtime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..d20304d 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -246,6 +246,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // `wgpu` can't map a buffer of size zero
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
-- 
2.43.0

