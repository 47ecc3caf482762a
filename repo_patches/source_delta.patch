From e04557873f974c5a7bdb1c1f28027031180d3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 1/6] fix: don't overflow when scalar keys span the whole usize
 range

Building a scalar collection whose keys include both the lowest and the highest
64 bit value panicked: the size of the covered range doesn't fit in a usize.
---
 frozen-collections-core/src/analyzers/scalar_key_analyzer.rs | 3 ++-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..0c4880d 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,8 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    // saturates when the keys span the whole `usize` range, which is never dense or sparse
+    let needed_count = (max - min).saturating_add(1);
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 7b0f432c4c513f46ea97505304e6bfaa002c6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:37 +0000
Subject: [PATCH 2/6] fix: let string collections deserialize from owned and
 transient strings

Deserialization borrowed every string from the input, which fails for readers and
for escaped strings: those can't lend a string for the lifetime of the input.
---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From ec023ea2cba52b9096bf00c3676e60172ee81f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:53 +0000
Subject: [PATCH 3/6] fix: report a valid lower bound from Union::size_hint

Once the iterator had advanced, the lower bound counted items of the smaller set
which may not be returned, so it could exceed the number of remaining items.
---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..3df10b6 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // everything left in the larger set will be returned, items left in the smaller set may be duplicates
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From b11d9bf9a85c8014be701bce2da3cfe8792e7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:20 +0000
Subject: [PATCH 4/6] fix: don't trust the size announced by serialized data

The element count announced by untrusted input was used as is to reserve memory, so
malformed data made deserialization abort instead of returning an error.
---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs    | 2 +-
 frozen-collections-core/src/fz_maps/fz_ordered_map.rs | 2 +-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs  | 2 +-
 frozen-collections-core/src/fz_maps/fz_string_map.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs    | 2 +-
 frozen-collections-core/src/fz_sets/fz_ordered_set.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..52c08d7 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -401,7 +401,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..4ce3c20 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -338,7 +338,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..de5e791 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -423,7 +423,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..96cd7e8 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..2eb3bc6 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -315,7 +315,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..5e271e4 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -261,7 +261,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..40bf215 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -255,7 +255,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..46ff3da 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(4096));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 0442fc710c105388f8431e2bcfb4ac65b472371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 5/6] fix: get_disjoint_mut never hands out two mutable
 references to the same entry

Keys were only compared with each other using the query type's own equality. A query type whose
equality is finer than its equivalence with the map's keys could make two different queries select
the same entry, giving safe code two aliasing mutable references. Panic in that case, as for equal keys.
---
 .../src/maps/decl_macros.rs                   | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..37d7431 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -258,22 +258,42 @@ macro_rules! get_disjoint_mut_funcs {
             panic!("duplicate keys found");
         }
 
-        // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = get_disjoint_mut_funcs!(@ptrs, $self, $keys);
+
+        // Different keys can still select the same entry, when the query type's own notion of equality is
+        // finer than its equivalence with the map's keys.
+        if ::core::mem::size_of::<V>() > 0 {
+            for (i, ptr) in ptrs.iter().enumerate() {
+                if ptr.is_some() && ptrs[..i].contains(ptr) {
+                    crate::utils::cold();
+                    panic!("duplicate keys found");
+                }
+            }
+        }
+
+        return get_disjoint_mut_funcs!(@refs, ptrs);
     };
 
     (@unsafe_body, $self:ident, $keys:ident) => {
-        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = ::core::array::from_fn(|i| {
+        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = get_disjoint_mut_funcs!(@ptrs, $self, $keys);
+
+        return get_disjoint_mut_funcs!(@refs, ptrs);
+    };
+
+    (@ptrs, $self:ident, $keys:ident) => {
+        ::core::array::from_fn(|i| {
             $self.get_mut($keys[i]).map(|value| {
                 let v = value as *mut V;
                 ::core::ptr::NonNull::new(v).unwrap()
             })
-        });
+        })
+    };
 
-        return ptrs.map(|ptr| ptr.map(|mut ptr|
-            // SAFETY: pointers all safely acquired above
+    (@refs, $ptrs:ident) => {
+        $ptrs.map(|ptr| ptr.map(|mut ptr|
+            // SAFETY: pointers all safely acquired, and known not to overlap
             unsafe { ptr.as_mut() }
-        ));
+        ))
     };
 }
 
-- 
2.43.0


From 82dee867706d00ad1b0b5e62e57546141c35d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 6/6] fix: dense scalar maps stay within their entries whatever
 a key's scalar index returns

---
 .../src/maps/dense_scalar_lookup_map.rs                    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..4c2842b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,12 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        // derived from the number of entries rather than from the last key, such that lookups stay within the
+        // entries no matter what the key type's implementation of `Scalar` returns
+        let min = entries[0].0.index();
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+            max: min + (entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0

