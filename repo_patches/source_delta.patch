From 89e5da2c36f4d19459cf4bcca7ad117ea0ba7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 01/17] fix: keep multi-element right-justified subslices
 within the key during analysis

The start of a right-justified subslice was computed as if the subslice always
had one element, so longer subslices ran past the end of the key and creating a
collection of strings could panic.
---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From a3fb6e16ed43712d159aaa8cac312d1ae25811e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 02/17] fix: make right-aligned slice maps hash the subslice
 they were given

The start and end offsets were subtracted from the key length in the wrong
order, producing an inverted range, and short keys were let through.
---
 .../src/specialized_maps/right_slice_map.rs               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..7091cba 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,7 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                k.hash(&bh, k.len() - range.end..k.len() - range.start)
             }),
             bh,
             range,
@@ -76,10 +76,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From b826aced1b389be049927164b5b5c04527dfe3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 03/17] fix: don't hash out-of-bounds subslices when building
 slice maps from short keys

The table was built with a hash function which lacked the length check used for
the analysis and for lookups, so keys shorter than the configured range were
sliced out of bounds.
---
 .../src/specialized_maps/left_slice_map.rs           | 12 +++++-------
 .../src/specialized_maps/right_slice_map.rs          | 11 ++++-------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..de02b17 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -31,20 +31,18 @@ where
 {
     #[must_use]
     pub fn from_vec_with_hasher(payload: Vec<(K, V)>, range: Range<usize>, bh: BH) -> Self {
-        let codes = payload.iter().map(|entry| {
-            let key = &entry.0;
+        let hash_key = |key: &K| {
             if key.len() >= range.end {
                 key.hash(&bh, range.clone())
             } else {
                 0
             }
-        });
-        let code_analysis = analyze_hash_codes(codes);
+        };
+
+        let code_analysis = analyze_hash_codes(payload.iter().map(|entry| hash_key(&entry.0)));
 
         Self {
-            table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
-            }),
+            table: HashTable::new(payload, code_analysis.num_hash_slots, hash_key),
             bh,
             range,
         }
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 7091cba..fe14081 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -31,20 +31,17 @@ where
 {
     #[must_use]
     pub fn from_vec_with_hasher(payload: Vec<(K, V)>, range: Range<usize>, bh: BH) -> Self {
-        let codes = payload.iter().map(|entry| {
-            let key = &entry.0;
+        let hash_key = |key: &K| {
             if key.len() >= range.end {
                 key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
-        });
+        };
 
-        let code_analysis = analyze_hash_codes(codes);
+        let code_analysis = analyze_hash_codes(payload.iter().map(|entry| hash_key(&entry.0)));
         Self {
-            table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.end..k.len() - range.start)
-            }),
+            table: HashTable::new(payload, code_analysis.num_hash_slots, hash_key),
             bh,
             range,
         }
-- 
2.43.0


From b2b5af4014b6e074c3a576d00610fc30d7309ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 04/17] fix: bounds-check the range given to SliceHash::hash

It is a safe function, so an out-of-range argument must not read out of bounds.
---
 frozen-collections-core/src/traits/slice_hash.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/traits/slice_hash.rs b/frozen-collections-core/src/traits/slice_hash.rs
index 9bbb91c..d64ad15 100644
--- a/frozen-collections-core/src/traits/slice_hash.rs
+++ b/frozen-collections-core/src/traits/slice_hash.rs
@@ -4,6 +4,10 @@ use std::ops::Range;
 /// Enables hashing over a slice of an input.
 pub trait SliceHash {
     /// Hash only a slice.
+    ///
+    /// # Panics
+    ///
+    /// May panic if the range is out of bounds.
     #[must_use]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64;
 }
@@ -12,8 +16,7 @@ impl SliceHash for String {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.as_bytes().get_unchecked(range) };
-        h.write(b);
+        h.write(&self.as_bytes()[range]);
         h.finish()
     }
 }
@@ -22,8 +25,7 @@ impl SliceHash for [u8] {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.get_unchecked(range) };
-        h.write(b);
+        h.write(&self[range]);
         h.finish()
     }
 }
-- 
2.43.0


From 3e36c7c08cfd403613380579626997ba2a6e7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 05/17] fix: don't subtract consumed items twice in the set
 iterator's count

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From 5576bb033e83674479aebd4ae17211eca3d42902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 06/17] fix: keep the size hint of a set union in sync with the
 items left to return

---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..ab0ad61 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        let (s1_lower, s1_upper) = self.s1_iter.size_hint();
+        let (s2_lower, s2_upper) = self.s2_iter.size_hint();
+
+        // all the items of the larger set are returned, while the items of the smaller set are filtered
+        let lower = if self.s1.len() > self.s2.len() {
+            s1_lower
+        } else {
+            s2_lower
+        };
+
+        let upper = match (s1_upper, s2_upper) {
+            (Some(s1_upper), Some(s2_upper)) => s1_upper.checked_add(s2_upper),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From 2ee8036438d5985d7fc8a69bfabac286c39d554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 07/17] fix: ignore all but the last occurrence of repeated
 keys in frozen maps and sets

Repeated keys were all stored, leading to wrong lengths, duplicated items during
iteration, wrong set relations, and u32 lookups returning the values of other
keys when the repeats hid a hole in the key range.
---
 frozen-collections-core/src/facades/dedup.rs  | 21 +++++++++++++++++++
 .../src/facades/frozen_map.rs                 |  5 ++++-
 .../src/facades/frozen_set.rs                 |  5 ++++-
 frozen-collections-core/src/facades/mod.rs    |  1 +
 4 files changed, 30 insertions(+), 2 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/dedup.rs

diff --git a/frozen-collections-core/src/facades/dedup.rs b/frozen-collections-core/src/facades/dedup.rs
new file mode 100644
index 0000000..e456bb9
--- /dev/null
+++ b/frozen-collections-core/src/facades/dedup.rs
@@ -0,0 +1,21 @@
+use std::collections::HashSet;
+use std::hash::Hash;
+
+/// Removes the items whose key appears again later in the payload, such that the last item wins.
+pub fn dedup_by_key_keep_last<T, K, F>(payload: &mut Vec<T>, key: F)
+where
+    K: Hash + Eq,
+    F: Fn(&T) -> &K,
+{
+    let mut keep = Vec::with_capacity(payload.len());
+
+    {
+        let mut seen = HashSet::with_capacity(payload.len());
+        for item in payload.iter().rev() {
+            keep.push(seen.insert(key(item)));
+        }
+    }
+
+    // the flags were produced back to front, so popping them yields payload order
+    payload.retain(|_| keep.pop().unwrap_or(true));
+}
diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..af2577a 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -11,6 +11,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_key_keep_last;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -209,7 +210,9 @@ where
         Self::from_iter_with_hasher(payload, bh)
     }
 
-    fn new(payload: Vec<(K, V)>, bh: BH) -> Self {
+    fn new(mut payload: Vec<(K, V)>, bh: BH) -> Self {
+        dedup_by_key_keep_last(&mut payload, |entry| &entry.0);
+
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index 22cefd9..d2924ae 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -9,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_key_keep_last;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -194,7 +195,9 @@ where
         Self::new(Vec::from_iter(payload), bh)
     }
 
-    fn new(payload: Vec<T>, bh: BH) -> Self {
+    fn new(mut payload: Vec<T>, bh: BH) -> Self {
+        dedup_by_key_keep_last(&mut payload, |value| value);
+
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index 4dabde2..e627789 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -1,6 +1,7 @@
 pub use frozen_map::*;
 pub use frozen_set::*;
 
+mod dedup;
 mod frozen_map;
 mod frozen_set;
 
-- 
2.43.0


From 620bac226c8920d82abccce250a268711730861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/17] fix: don't panic on lookups of zero in empty integer
 range maps

---
 .../src/specialized_maps/integer_range_map.rs                  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..ad150f0 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -27,8 +27,9 @@ where
     #[must_use]
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
+            // no key is within this range
             return Self {
-                min: K::zero(),
+                min: K::one(),
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From 4c196572d9c9d67b138580cd273feabcc9269d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 09/17] fix: reject repeated keys in integer range maps

A repeated key could make up for a hole in the range, in which case lookups
returned the values of other keys.
---
 .../src/specialized_maps/integer_range_map.rs              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index ad150f0..40f5635 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -40,9 +40,10 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
+        assert!(
+            payload
+                .windows(2)
+                .all(|pair| pair[0].0 < pair[1].0 && pair[0].0 + K::one() == pair[1].0),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
-- 
2.43.0


From 44287f7882c3108a787c11998e0b2a7577cb818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 10/17] fix: support integer range maps wider than half of a
 signed integer type

The distance between two keys could overflow the key type.
---
 .../src/specialized_maps/integer_range_map.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 40f5635..96cf6ab 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -4,7 +4,7 @@ use std::intrinsics::transmute;
 use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
-use num_traits::PrimInt;
+use num_traits::{PrimInt, ToPrimitive};
 
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
@@ -64,7 +64,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from_min(*key, *self.min.borrow())?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -79,7 +79,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from_min(*key, *self.min.borrow())?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -121,7 +121,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset_from_min(*key, *self.min.borrow())?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
@@ -154,6 +154,18 @@ impl<K, V> IntegerRangeMap<K, V> {
     }
 }
 
+/// Computes `key - min`, considering that the difference between two signed integers may not fit their type.
+#[inline]
+fn offset_from_min<Q>(key: Q, min: Q) -> Option<usize>
+where
+    Q: PrimInt,
+{
+    match key.checked_sub(&min) {
+        Some(offset) => offset.to_usize(),
+        None => key.to_i128()?.checked_sub(min.to_i128()?)?.to_usize(),
+    }
+}
+
 impl<K, V> Len for IntegerRangeMap<K, V> {
     fn len(&self) -> usize {
         self.entries.len()
-- 
2.43.0


From d7dad9a71f26735a7054a6fcc0b04583f48f9afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/17] fix: don't overflow when analyzing integer keys

Neither the number of keys nor the distance between the smallest and the largest
key necessarily fit the key type.
---
 .../src/analyzers/int_key_analyzer.rs                 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..9099199 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -18,16 +18,19 @@ where
 {
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
+    let mut count: usize = 0;
     for key in keys {
         min = min.min(key);
         max = max.max(key);
-        count = count + K::one();
+        count += 1;
     }
 
-    if count == K::zero() {
+    // the counters are kept apart from the key type, since either could overflow it
+    let distance = max.checked_sub(&min).and_then(|d| d.to_usize());
+
+    if count == 0 {
         IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
+    } else if distance == Some(count - 1) {
         IntKeyAnalysisResult::Range
     } else {
         IntKeyAnalysisResult::Normal
-- 
2.43.0


From 3b0f1ba8440b97835409475bf119211288f552f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 12/17] fix: emit valid code for frozen_map! with a continuous
 range of integer keys

IntegerRangeMap doesn't have a size argument.
---
 frozen-collections-core/src/macros/frozen_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..a919f84 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -186,6 +186,16 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             m
         }),
 
+        _ if int_analysis == IntKeyAnalysisResult::Range => quote!(
+        {
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            #(
+                (#kv_pairs),
+            )*
+            ]);
+            m
+        }),
+
         _ => quote!(
         {
             let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
-- 
2.43.0


From 797c1acfc3dcd625e467602387a2eedf2712bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 13/17] fix: don't produce mutable references to values from
 shared references in get_many_mut

Transmuting a shared reference into a mutable one is undefined behavior, and
keys with an ill-behaved Eq implementation could yield several mutable
references to one value.
---
 .../src/facades/frozen_map.rs                 | 52 ++++++++++++-------
 .../src/specialized_maps/common_map.rs        | 24 ++++-----
 .../src/specialized_maps/integer_map.rs       | 24 ++++-----
 .../src/specialized_maps/integer_range_map.rs | 19 ++++---
 .../src/specialized_maps/left_slice_map.rs    | 24 ++++-----
 .../src/specialized_maps/length_map.rs        | 24 ++++-----
 .../src/specialized_maps/right_slice_map.rs   | 24 ++++-----
 .../src/specialized_maps/scanning_map.rs      | 22 ++++----
 8 files changed, 113 insertions(+), 100 deletions(-)

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index af2577a..f91213d 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -3,7 +3,6 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::mem::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Index;
 use std::ops::IndexMut;
 
@@ -492,26 +491,43 @@ where
     /// ]);
     /// assert_eq!(got, None);
     /// ```
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<const N: usize>(&mut self, keys: [&K; N]) -> Option<[&mut V; N]> {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
+        match &mut self.map_impl {
+            MapTypes::Scanning(m) => m.get_many_mut(keys),
+            MapTypes::CommonSmall(m) => m.get_many_mut(keys),
+            MapTypes::CommonLarge(m) => m.get_many_mut(keys),
+            MapTypes::U32Small(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
             }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            MapTypes::U32Large(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::U32Range(m) => {
+                let keys: [&u32; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::LeftStringSliceSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::LeftStringSliceLarge(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::RightStringSliceSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::RightStringSliceLarge(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
+            }
+            MapTypes::StringLengthSmall(m) => {
+                let keys: [&String; N] = keys.map(|key| unsafe { transmute(key) });
+                m.get_many_mut(keys)
             }
-
-            Some(result.assume_init())
         }
     }
 
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..ece236b 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -117,7 +115,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -132,16 +129,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let offset = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + offset;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..e1f6758 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -82,7 +80,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -97,16 +94,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let offset = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + offset;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 96cf6ab..29aefa2 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
 use num_traits::{PrimInt, ToPrimitive};
@@ -86,7 +84,6 @@ impl<K, V> IntegerRangeMap<K, V> {
         }
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -101,16 +98,18 @@ impl<K, V> IntegerRangeMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            if *key < *self.min.borrow() || *key > *self.max.borrow() {
+                return None;
             }
 
-            Some(result.assume_init())
+            *index = offset_from_min(*key, *self.min.borrow())?;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index de02b17..97ead91 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -137,7 +135,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -152,16 +149,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let offset = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + offset;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..daa986a 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -102,7 +100,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -117,16 +114,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let offset = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + offset;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index fe14081..e6c72fe 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -139,7 +137,6 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -154,16 +151,19 @@ where
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            let range = self.get_hash_info(key);
+            let start = range.start;
+            let offset = self.table.entries[range]
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
+            *index = start + offset;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.table.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..df9aed1 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
 use crate::specialized_maps::{Iter, Keys, Values};
@@ -74,7 +72,6 @@ impl<K, V> ScanningMap<K, V> {
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
@@ -89,16 +86,17 @@ impl<K, V> ScanningMap<K, V> {
             }
         }
 
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
+        let mut indices = [0; N];
+        for (index, key) in indices.iter_mut().zip(keys) {
+            *index = self
+                .entries
+                .iter()
+                .position(|entry| key.eq(entry.0.borrow()))?;
         }
+
+        // this fails if two keys designate the same entry, which is possible given an ill-behaved Eq implementation
+        let entries = self.entries.get_disjoint_mut(indices).ok()?;
+        Some(entries.map(|entry| &mut entry.1))
     }
 
     #[inline]
-- 
2.43.0


From 4721a4356af59327ed9595274ab25d2b820328d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 14/17] fix: compare key types by identity, not by name

A key type of another crate can have the type name alloc::string::String;
its maps and sets were then treated as String collections, which reads
memory out of bounds.
---
 .../src/facades/frozen_map.rs                 |  6 ++--
 .../src/facades/frozen_set.rs                 |  6 ++--
 frozen-collections-core/src/facades/mod.rs    |  1 +
 .../src/facades/same_type.rs                  | 33 +++++++++++++++++++
 4 files changed, 40 insertions(+), 6 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/same_type.rs

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index f91213d..53505db 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -11,6 +10,7 @@ use bitvec::macros::internal::funty::Fundamental;
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
 use crate::facades::dedup::dedup_by_key_keep_last;
+use crate::facades::same_type::is_same_type;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -215,9 +215,9 @@ where
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
-            } else if type_name::<K>() == type_name::<u32>() {
+            } else if is_same_type::<K, u32>() {
                 Self::new_u32_map(payload)
-            } else if type_name::<K>() == type_name::<String>() {
+            } else if is_same_type::<K, String>() {
                 Self::new_string_map(payload, bh)
             } else {
                 Self::new_common_map(payload, bh)
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index d2924ae..9e8cea6 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::collections::HashSet;
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -10,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
 use crate::facades::dedup::dedup_by_key_keep_last;
+use crate::facades::same_type::is_same_type;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -201,9 +201,9 @@ where
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
-            } else if type_name::<T>() == type_name::<u32>() {
+            } else if is_same_type::<T, u32>() {
                 Self::new_u32_set(payload)
-            } else if type_name::<T>() == type_name::<String>() {
+            } else if is_same_type::<T, String>() {
                 Self::new_string_set(payload, bh)
             } else {
                 Self::new_common_set(payload, bh)
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index e627789..880f78d 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -4,6 +4,7 @@ pub use frozen_set::*;
 mod dedup;
 mod frozen_map;
 mod frozen_set;
+mod same_type;
 
 #[cfg(test)]
 mod frozen_map_tests;
diff --git a/frozen-collections-core/src/facades/same_type.rs b/frozen-collections-core/src/facades/same_type.rs
new file mode 100644
index 0000000..3300f74
--- /dev/null
+++ b/frozen-collections-core/src/facades/same_type.rs
@@ -0,0 +1,33 @@
+use std::any::TypeId;
+use std::marker::PhantomData;
+use std::mem::transmute;
+
+/// Returns whether `A` and `B` are the same type, except for differences in lifetimes.
+pub fn is_same_type<A, B>() -> bool {
+    trait NonStaticId {
+        fn type_id(&self) -> TypeId
+        where
+            Self: 'static;
+    }
+
+    impl<T> NonStaticId for PhantomData<T> {
+        fn type_id(&self) -> TypeId
+        where
+            Self: 'static,
+        {
+            TypeId::of::<T>()
+        }
+    }
+
+    fn id_of<T>() -> TypeId {
+        let phantom = PhantomData::<T>;
+
+        // SAFETY: only the lifetime bound of the trait object changes, and no data is ever accessed through it
+        let phantom: &(dyn NonStaticId + 'static) =
+            unsafe { transmute::<&(dyn NonStaticId + '_), &(dyn NonStaticId + 'static)>(&phantom) };
+
+        phantom.type_id()
+    }
+
+    id_of::<A>() == id_of::<B>()
+}
-- 
2.43.0


From 911009ffc172100be3a2df17490281594768eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 15/17] fix: accept size parameters wider than usize

HashTable::new compared the payload with the largest value of the size
parameter as a usize, and panicked for u128, whose maximum does not fit.
---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 3fc85f9..418c25d 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -40,7 +40,10 @@ where
                 }]),
                 entries: Box::new([]),
             };
-        } else if payload.len() > S::max_value().to_usize().unwrap() {
+        } else if S::max_value()
+            .to_usize()
+            .is_some_and(|max| payload.len() > max)
+        {
             panic!("Too many payload entries for the map size S")
         }
 
-- 
2.43.0


From 7a96bf66f35366ddf09bf5f228745f5318d23de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 16/17] fix: frozen_map! with keys which are not plain literals
 panicked while expanding

---
 .../src/macros/frozen_map.rs                  | 46 ++++++++++---------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index a919f84..96c90d8 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -89,23 +89,21 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     let mut int_analysis = IntKeyAnalysisResult::Normal;
     let mut slice_analysis = SliceKeyAnalysisResult::Normal;
 
-    // TODO: fix the unwrap usage
     match type_name.as_str() {
-        "u8" => int_analysis = process_int_keys::<u8>(&kv_pairs).unwrap(),
-        "i8" => int_analysis = process_int_keys::<i8>(&kv_pairs).unwrap(),
-        "u16" => int_analysis = process_int_keys::<u16>(&kv_pairs).unwrap(),
-        "i16" => int_analysis = process_int_keys::<i16>(&kv_pairs).unwrap(),
-        "u32" => int_analysis = process_int_keys::<u32>(&kv_pairs).unwrap(),
-        "i32" => int_analysis = process_int_keys::<i32>(&kv_pairs).unwrap(),
-        "u64" => int_analysis = process_int_keys::<u64>(&kv_pairs).unwrap(),
-        "i64" => int_analysis = process_int_keys::<i64>(&kv_pairs).unwrap(),
-        "u128" => int_analysis = process_int_keys::<u128>(&kv_pairs).unwrap(),
-        "i128" => int_analysis = process_int_keys::<i128>(&kv_pairs).unwrap(),
+        "u8" => int_analysis = process_int_keys::<u8>(&kv_pairs),
+        "i8" => int_analysis = process_int_keys::<i8>(&kv_pairs),
+        "u16" => int_analysis = process_int_keys::<u16>(&kv_pairs),
+        "i16" => int_analysis = process_int_keys::<i16>(&kv_pairs),
+        "u32" => int_analysis = process_int_keys::<u32>(&kv_pairs),
+        "i32" => int_analysis = process_int_keys::<i32>(&kv_pairs),
+        "u64" => int_analysis = process_int_keys::<u64>(&kv_pairs),
+        "i64" => int_analysis = process_int_keys::<i64>(&kv_pairs),
+        "u128" => int_analysis = process_int_keys::<u128>(&kv_pairs),
+        "i128" => int_analysis = process_int_keys::<i128>(&kv_pairs),
 
         "& str" => {
             variety = KeyVariety::String;
-            slice_analysis =
-                process_string_keys(kv_pairs.iter().map(|x| x.0.to_token_stream())).unwrap();
+            slice_analysis = process_string_keys(kv_pairs.iter().map(|x| x.0.to_token_stream()));
 
             let mut copy = Vec::with_capacity(kv_pairs.len());
             for kv in kv_pairs {
@@ -208,7 +206,8 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     }
 }
 
-fn process_int_keys<K>(kv_pairs: &[Entry]) -> syn::Result<IntKeyAnalysisResult>
+// Keys which aren't plain literals (e.g. byte literals or constants) can't be analyzed, they use the general layout.
+fn process_int_keys<K>(kv_pairs: &[Entry]) -> IntKeyAnalysisResult
 where
     K: PrimInt + FromStr,
     K::Err: Display,
@@ -216,26 +215,29 @@ where
     let keys = kv_pairs.iter().map(|x| x.0.to_token_stream());
     let mut parsed = Vec::new();
     for key in keys {
-        let li = parse2::<LitInt>(key)?;
-        let v = li.base10_parse::<K>()?;
-        parsed.push(v);
+        match parse2::<LitInt>(key).and_then(|li| li.base10_parse::<K>()) {
+            Ok(v) => parsed.push(v),
+            Err(_) => return IntKeyAnalysisResult::Normal,
+        }
     }
 
-    Ok(analyze_int_keys(parsed.into_iter()))
+    analyze_int_keys(parsed.into_iter())
 }
 
-fn process_string_keys<I>(keys: I) -> syn::Result<SliceKeyAnalysisResult>
+fn process_string_keys<I>(keys: I) -> SliceKeyAnalysisResult
 where
     I: Iterator<Item = TokenStream>,
 {
     let mut parsed = Vec::new();
     for key in keys {
-        let ls = parse2::<LitStr>(key)?;
-        parsed.push(ls.value());
+        match parse2::<LitStr>(key) {
+            Ok(ls) => parsed.push(ls.value()),
+            Err(_) => return SliceKeyAnalysisResult::Normal,
+        }
     }
 
     let bh = RandomState::new();
-    Ok(analyze_slice_keys(parsed.iter().map(String::as_bytes), &bh))
+    analyze_slice_keys(parsed.iter().map(String::as_bytes), &bh)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 371ca376adfd11434c25ca370c703d068f5c8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:25 +0000
Subject: [PATCH 17/17] fix: frozen_map! with fewer than three entries ignored
 the type of the keys

---
 frozen-collections-core/src/macros/frozen_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 96c90d8..c32aca7 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -72,8 +72,9 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     let mut kv_pairs = input.entries;
 
     if kv_pairs.len() < 3 {
+        let ty = input.ty;
         return quote!({
-            let m = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m = ::frozen_collections::specialized_maps::ScanningMap::<#ty, _>::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
-- 
2.43.0

