From b0e9325a7dbf3b19ef82c43de7e47217268a0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 1/3] fix: keep the maximum when a new minimum is inserted

Inserting a key below the current minimum of a tree with two or more
entries stored the previous minimum as the maximum and pushed the real
maximum into a subtree, so max_val, successor, iteration and
remove_max lost or hid entries.
---
 src/tree.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..78d3e82 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -522,13 +522,8 @@ where
                 return None;
             }
             (Ordering::Less, Some(data)) => {
+                // The previous `min` is strictly less than `max`, so it belongs in a subtree
                 let (k, v) = replace(&mut self.min, (k, v));
-                let (k, v) = match data.max.0.cmp(&k) {
-                    Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
-                };
-
                 (k, v, data)
             }
             (Ordering::Greater, Some(data)) => match k.borrow().cmp(&data.max.0) {
-- 
2.43.0


From d442202ec7a45541f4525e3b894e7b52ed6ce410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 2/3] fix: do not sign-extend the index of signed keys

wrapping_sub on a signed integer yields a negative number for every key
>= 0, which sign-extends to a huge usize, so array-backed trees whose
high half is i8, i16 or i32 panicked with an index out of bounds.
---
 src/key.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..4980acb 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -186,7 +186,7 @@ impl SizedVebKey for i128 {
     type Cardinality = op!(U1 << U128);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -233,7 +233,7 @@ impl SizedVebKey for i64 {
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0


From 65941a1d16f46d777f752c85ba33f38222f477a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:40 +0000
Subject: [PATCH 3/3] fix: report the number of keys as CARDINALITY

CARDINALITY was the largest key (or usize::MAX for i16 and i32) instead
of the number of keys, disagreeing with the Cardinality type and with
(). Saturates where the count does not fit a usize.
---
 src/key.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 4980acb..8918540 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -257,7 +257,7 @@ impl CloneVebKeyRef for u32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for u32 {
-    const CARDINALITY: usize = u32::MAX as usize;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -284,7 +284,7 @@ impl CloneVebKeyRef for i32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for i32 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -313,7 +313,7 @@ impl CloneVebKeyRef for u16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for u16 {
-    const CARDINALITY: usize = u16::MAX as usize;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -341,7 +341,7 @@ impl CloneVebKeyRef for i16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for i16 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -364,7 +364,7 @@ impl VebKey for u8 {
 }
 impl CloneVebKeyRef for u8 {}
 impl SizedVebKey for u8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -386,7 +386,7 @@ impl VebKey for i8 {
 }
 impl CloneVebKeyRef for i8 {}
 impl SizedVebKey for i8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -455,7 +455,7 @@ impl VebKey for U4 {
 }
 impl CloneVebKeyRef for U4 {}
 impl SizedVebKey for U4 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U4);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -530,7 +530,7 @@ impl VebKey for U2 {
 }
 impl CloneVebKeyRef for U2 {}
 impl SizedVebKey for U2 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U2);
     #[inline(always)]
     fn index(&self) -> usize {
-- 
2.43.0

