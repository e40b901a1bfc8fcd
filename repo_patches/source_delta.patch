From 3f07e637bfa250bb67a4f76189db7d3481554fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH] fix: report the exact size hint of the category iterator

`Iter` implements `ExactSizeIterator` but kept the default `size_hint` of
`(0, None)`, which breaks that trait's contract: adapters that rely on it,
such as `set.iter().enumerate().len()`, panicked.
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0

