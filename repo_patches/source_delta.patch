From b91719d7409eb5d13c9b4da235372f895d0f4216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 01/10] fix: right-justified subslice analysis ran past the end
 of the key

A right-justified subslice longer than one element started at
len - index - 1 and so extended past the end of the key.
---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From f1d08e7ac9a533838e574ef68ad365b495c85d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 02/10] fix: RightSliceMap hashed an inverted range

The range counts from the end of the key, so its bounds swap when turned into
indices; keys shorter than the range hash to 0 when building, as when looking up.
---
 .../src/specialized_maps/right_slice_map.rs          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..cf2ccf0 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -34,7 +34,7 @@ where
         let codes = payload.iter().map(|entry| {
             let key = &entry.0;
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
@@ -43,7 +43,11 @@ where
         let code_analysis = analyze_hash_codes(codes);
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
+                if k.len() >= range.end {
+                    k.hash(&bh, k.len() - range.end..k.len() - range.start)
+                } else {
+                    0
+                }
             }),
             bh,
             range,
@@ -76,10 +80,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From 6108fae35e01fbd15ed20309df0c7c1f62dd45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 03/10] fix: LeftSliceMap read past the end of keys shorter
 than its range

Hash them to 0 when building the table, as when looking up.
---
 .../src/specialized_maps/left_slice_map.rs                  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..98e8e61 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -43,7 +43,11 @@ where
 
         Self {
             table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
+                if k.len() >= range.end {
+                    k.hash(&bh, range.clone())
+                } else {
+                    0
+                }
             }),
             bh,
             range,
-- 
2.43.0


From e9c12fc4cf4cf622b65e6c3f0c39dff33416ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 04/10] fix: integer key analysis took duplicates for a range,
 and overflowed

[1, 1, 3, 4] was reported as a contiguous range, so that a lookup of 2 found
an entry; counting in K overflowed for 256 u8 keys, and so did max - min for
signed keys far apart.
---
 .../src/analyzers/int_key_analyzer.rs         | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..bbf24b5 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -18,22 +18,35 @@ where
 {
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
+    let mut all = Vec::new();
     for key in keys {
         min = min.min(key);
         max = max.max(key);
-        count = count + K::one();
+        all.push(key);
     }
 
-    if count == K::zero() {
-        IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
+    if all.is_empty() {
+        return IntKeyAnalysisResult::Normal;
+    }
+
+    // the subtraction overflows if the keys span more than half of a signed type
+    let span = max.checked_sub(&min).and_then(|x| x.to_usize());
+
+    if span == Some(all.len() - 1) && all_different(all) {
         IntKeyAnalysisResult::Range
     } else {
         IntKeyAnalysisResult::Normal
     }
 }
 
+fn all_different<K>(mut keys: Vec<K>) -> bool
+where
+    K: PrimInt,
+{
+    keys.sort_unstable();
+    keys.windows(2).all(|x| x[0] != x[1])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From ced9d05dbb023b6628f07ec8aaa618ff65cf938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 05/10] fix: lookup of 0 in an empty IntegerRangeMap panicked

---
 .../src/specialized_maps/integer_range_map.rs                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..1bfc588 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -28,7 +28,7 @@ where
     pub fn from_vec(mut payload: Vec<(K, V)>) -> Self {
         if payload.is_empty() {
             return Self {
-                min: K::zero(),
+                min: K::one(),
                 max: K::zero(),
                 entries: Box::new([]),
             };
-- 
2.43.0


From 2c27c45e718b33f28735f5888ba5296e1a07772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 06/10] fix: IntegerRangeMap accepted duplicates, and
 overflowed on wide signed ranges

The check compared max - min with the number of keys, which [1, 1, 3, 4]
passes and which overflows for e.g. the i8 keys -100..=100.
---
 .../src/specialized_maps/integer_range_map.rs | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 1bfc588..94f3038 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -39,9 +39,10 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
+        assert!(
+            payload
+                .windows(2)
+                .all(|x| x[0].0 < x[1].0 && x[0].0 + K::one() == x[1].0),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
@@ -62,7 +63,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset(*key, *self.min.borrow())?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -77,7 +78,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset(*key, *self.min.borrow())?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -119,7 +120,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = offset(*key, *self.min.borrow())?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
@@ -152,6 +153,22 @@ impl<K, V> IntegerRangeMap<K, V> {
     }
 }
 
+/// The distance from `min` to `key`, where `min <= key`.
+#[inline]
+fn offset<Q>(key: Q, min: Q) -> Option<usize>
+where
+    Q: PrimInt,
+{
+    if let Some(distance) = key.checked_sub(&min) {
+        distance.to_usize()
+    } else {
+        // the distance doesn't fit in a signed Q, so min < 0 <= key: it is key + !min + 1
+        key.to_usize()?
+            .checked_add((!min).to_usize()?)?
+            .checked_add(1)
+    }
+}
+
 impl<K, V> Len for IntegerRangeMap<K, V> {
     fn len(&self) -> usize {
         self.entries.len()
-- 
2.43.0


From 4f13b3d2f1d41906ebbcf5f8626ac6ee6077b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 07/10] fix: count() of a partly consumed set iterator was too
 low, or overflowed

---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From 12c274ee8e26892d0b02abff72d602cced8096fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 08/10] fix: size_hint() of a partly consumed union promised
 too many items

---
 .../src/specialized_sets/iterators.rs                    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..41b975e 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,14 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        // the items left in the larger set are all returned
+        let lower = if self.s1.len() > self.s2.len() {
+            self.s1_iter.size_hint().0
+        } else {
+            self.s2_iter.size_hint().0
+        };
+
+        (lower, self.s1.len().checked_add(self.s2.len()))
     }
 }
 
-- 
2.43.0


From 38310da973279fa8cfa14c07afa4c05989d8db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 09/10] fix: frozen_map! with contiguous integer keys didn't
 compile

IntegerRangeMap has no index type parameter.
---
 frozen-collections-core/src/macros/frozen_map.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..1d7c002 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -159,6 +159,18 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         }
     );
 
+    if int_analysis == IntKeyAnalysisResult::Range {
+        return quote!(
+        {
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            #(
+                (#kv_pairs),
+            )*
+            ]);
+            m
+        });
+    }
+
     match slice_analysis {
         SliceKeyAnalysisResult::LeftHandSubslice {
             subslice_index,
-- 
2.43.0


From 727a81b54357986f46a026dbb6bf692002eeadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 10/10] fix: get_many_mut handed out one value twice if Eq was
 inconsistent

---
 frozen-collections-core/src/facades/frozen_map.rs        | 9 ++++++++-
 .../src/specialized_maps/common_map.rs                   | 9 ++++++++-
 .../src/specialized_maps/integer_map.rs                  | 9 ++++++++-
 .../src/specialized_maps/integer_range_map.rs            | 9 ++++++++-
 .../src/specialized_maps/left_slice_map.rs               | 9 ++++++++-
 .../src/specialized_maps/length_map.rs                   | 9 ++++++++-
 .../src/specialized_maps/right_slice_map.rs              | 9 ++++++++-
 .../src/specialized_maps/scanning_map.rs                 | 9 ++++++++-
 8 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..95f9d4f 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -3,9 +3,10 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::mem::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Index;
 use std::ops::IndexMut;
+use std::ptr;
 
 use bitvec::macros::internal::funty::Fundamental;
 
@@ -506,6 +507,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..e691112 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -3,9 +3,10 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -138,6 +139,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..a452ba3 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -1,9 +1,10 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use num_traits::{AsPrimitive, PrimInt, Unsigned};
 
@@ -103,6 +104,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 94f3038..17c7956 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -1,8 +1,9 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use num_traits::PrimInt;
 
@@ -106,6 +107,12 @@ impl<K, V> IntegerRangeMap<K, V> {
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index 98e8e61..7cdd0f6 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -3,9 +3,10 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -164,6 +165,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..9fa8adb 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -1,9 +1,10 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use bitvec::macros::internal::funty::Fundamental;
 use num_traits::{PrimInt, Unsigned};
@@ -123,6 +124,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index cf2ccf0..04f1143 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -3,9 +3,10 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use num_traits::{PrimInt, Unsigned};
 
@@ -167,6 +168,12 @@ where
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..a7f7702 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -1,8 +1,9 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
+use std::mem::{size_of, MaybeUninit};
 use std::ops::{Index, IndexMut};
+use std::ptr;
 
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
@@ -95,6 +96,12 @@ impl<K, V> ScanningMap<K, V> {
 
             for (i, key) in keys.iter().enumerate() {
                 *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+
+                // if Eq is inconsistent, keys that differ can still lead to the same value
+                let value: *const V = (*p)[i];
+                if size_of::<V>() != 0 && (0..i).any(|j| ptr::eq((*p)[j], value)) {
+                    return None;
+                }
             }
 
             Some(result.assume_init())
-- 
2.43.0

