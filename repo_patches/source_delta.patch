From 1773a9a557b9dfdad7318263fb433b11cd8e7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 1/2] fix: make Evaluator::default() build the lookup tables

The derived Default left both tables empty, so a default evaluator panicked
on every valid hand. It is now the same as Evaluator::new().
---
 src/evaluate/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..c0887f3 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,9 +73,14 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
+impl Default for Evaluator {
+    /// Equivalent to [`Evaluator::new`].
+    fn default() -> Self { Self::new() }
+}
+
 impl Evaluator {
     /// Create a new [`Evaluator`]. Try to call this method only once and share
     /// the instance as much as possible.
-- 
2.43.0


From 29dd7a5cff929464530f4293b26d1145cb3e4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 2/2] fix: report the length of a bad card string in characters

The message used the length in bytes, so a single multi-byte character was
reported as 'length 2, expected 2'.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0

