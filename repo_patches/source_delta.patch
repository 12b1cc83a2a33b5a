From c8ffad4acdcf8a712610904c1dc2815358dd4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 1/3] fix: do not require std for the "fastrand" feature to
 compile

Without "std", the `fastrand` module does not exist, so do not re-export it as the default.
---
 src/cycle_safe/modes/interleave/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cycle_safe/modes/interleave/random/mod.rs b/src/cycle_safe/modes/interleave/random/mod.rs
index d45d15a..244ab14 100644
--- a/src/cycle_safe/modes/interleave/random/mod.rs
+++ b/src/cycle_safe/modes/interleave/random/mod.rs
@@ -18,7 +18,7 @@ cfg_if! {
     else if #[cfg(feature = "oorandom")] {
         pub use self::oorandom as default;
     }
-    else if #[cfg(feature = "fastrand")] {
+    else if #[cfg(all(feature = "fastrand", feature = "std"))] {
         pub use self::fastrand as default;
     }
 }
-- 
2.43.0


From bcc72a9e5b17528f05edaa9060806fe9fe717f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 2/3] fix: do not require a random-number generator for the
 "std" feature to compile

The premade functions that need a default (P)RNG exist only when one is enabled.
---
 src/cycle_safe.rs | 4 ++--
 src/lib.rs        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..3b79201 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -1,7 +1,7 @@
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
 pub use premade::*;
 
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
 mod premade
 {
     use {
diff --git a/src/lib.rs b/src/lib.rs
index 3a43e52..5a5fcdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,7 +90,7 @@
 )]
 
 
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
 /// Items that are safe for cyclic, degenerate, and very-deep graphs.
 pub mod robust;
 
-- 
2.43.0


From 463375fba4fc09e3fe63709d500852e8ba67519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 3/3] fix: derive a non-zero SLOW_LIMIT from a small
 PRECHECK_LIMIT

Redefining only PRECHECK_LIMIT, to less than 10, caused SLOW_LIMIT to be zero, and so the "slow"
phase to never be used, and so comparing cyclic graphs to never terminate.
---
 src/cycle_safe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3b79201..e73cfbe 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -138,8 +138,12 @@ pub mod modes
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
             /// the "slow" phase before switching to the "fast" phase.
+            ///
+            /// Must not be zero, else the "slow" phase would never be used and so cyclic graphs
+            /// could not be handled.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 =
+                if Self::PRECHECK_LIMIT >= 10 { Self::PRECHECK_LIMIT / 10 } else { 1 };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0

