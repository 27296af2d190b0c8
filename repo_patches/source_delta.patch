From 73fbcf91dad78d4688f1c07beb6023920edac53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 1/5] Add simulation seam for the default generator, behind
 --cfg graph_safe_compare_sim

---
 src/cycle_safe/modes/interleave/random/mod.rs |  9 +++-
 src/cycle_safe/modes/interleave/random/sim.rs | 46 +++++++++++++++++++
 2 files changed, 54 insertions(+), 1 deletion(-)
 create mode 100644 src/cycle_safe/modes/interleave/random/sim.rs

diff --git a/src/cycle_safe/modes/interleave/random/mod.rs b/src/cycle_safe/modes/interleave/random/mod.rs
index d45d15a..159ade1 100644
--- a/src/cycle_safe/modes/interleave/random/mod.rs
+++ b/src/cycle_safe/modes/interleave/random/mod.rs
@@ -12,7 +12,11 @@ use {
 
 // The (P)RNG chosen as default, by priority.
 cfg_if! {
-    if #[cfg(feature = "wyrng")] {
+    // Only for simulation (never enabled by any package feature).
+    if #[cfg(all(graph_safe_compare_sim, feature = "std", feature = "wyrng"))] {
+        pub use self::sim as default;
+    }
+    else if #[cfg(feature = "wyrng")] {
         pub use self::wyrng as default;
     }
     else if #[cfg(feature = "oorandom")] {
@@ -33,6 +37,9 @@ pub mod oorandom;
 #[cfg(feature = "wyrng")]
 pub mod wyrng;
 
+#[cfg(all(graph_safe_compare_sim, feature = "std", feature = "wyrng"))]
+pub mod sim;
+
 
 /// What the [`Interleave`](super::Interleave) type requires from a (pseudo)random-number
 /// generator type.
diff --git a/src/cycle_safe/modes/interleave/random/sim.rs b/src/cycle_safe/modes/interleave/random/sim.rs
new file mode 100644
index 0000000..aae7e8a
--- /dev/null
+++ b/src/cycle_safe/modes/interleave/random/sim.rs
@@ -0,0 +1,46 @@
+//! Simulation seam: lets a simulator decide the numbers that the premade functions draw.
+//!
+//! Only exists when built with `--cfg graph_safe_compare_sim`.  Without a driver installed in the
+//! current thread, this is exactly the [`wyrng`](super::wyrng) choice.
+
+extern crate std;
+
+use {
+    core::{
+        cell::Cell,
+        num::NonZeroU16,
+    },
+    std::thread_local,
+};
+
+/// Decides the next number, or declines by returning `None`.
+pub type Driver = fn(NonZeroU16) -> Option<u16>;
+
+thread_local! {
+    static DRIVER: Cell<Option<Driver>> = const { Cell::new(None) };
+}
+
+/// Install, or remove, the driver of the current thread, and return the previous one.
+pub fn set_driver(driver: Option<Driver>) -> Option<Driver>
+{
+    DRIVER.with(|d| d.replace(driver))
+}
+
+/// Asks the driver, else is the usual generator.
+#[derive(Default)]
+pub struct RandomNumberGenerator(super::wyrng::RandomNumberGenerator);
+
+impl super::NumberGenerator for RandomNumberGenerator
+{
+    #[inline]
+    fn rand_upto(
+        &mut self,
+        exclusive_end: NonZeroU16,
+    ) -> u16
+    {
+        DRIVER
+            .with(Cell::get)
+            .and_then(|driver| driver(exclusive_end))
+            .unwrap_or_else(|| self.0.rand_upto(exclusive_end))
+    }
+}
-- 
2.43.0


From 45ffa6e9e5730f7f6238f92c838eeda2b67ba9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 2/5] fix: Never derive a SLOW_LIMIT of zero from a small
 PRECHECK_LIMIT

Redefining only interleave::Params::PRECHECK_LIMIT, to less than 10, derived a SLOW_LIMIT of 0, so
the slow phase recorded nothing and the interleave mode never finished on cyclic graphs.
---
 src/cycle_safe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..db0dddc 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -138,8 +138,12 @@ pub mod modes
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
             /// the "slow" phase before switching to the "fast" phase.
+            ///
+            /// Must not be zero, because the "slow" phase is needed for handling cyclic and
+            /// degenerate graphs.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 =
+                if Self::PRECHECK_LIMIT < 10 { 1 } else { Self::PRECHECK_LIMIT / 10 };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0


From 1ba6ff657a9eb6e28ba9610888bde667bcfc1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 3/5] fix: Don't request a differing edge index a third time

Node::get_edge is documented to be called up to twice for each index.  When the amounts of edges
of a pair of nodes differ, at an index other than zero, and queue or stack recursion is used, the
index was requested three times, because the iterator was not finished by yielding the difference.
---
 src/generic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..3720233 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -338,7 +338,7 @@ mod edges_iter
         {
             if let Some(i) = &self.next_index {
                 let [a, b] = &self.counterparts;
-                match [a.get_edge(i), b.get_edge(i)] {
+                let item = match [a.get_edge(i), b.get_edge(i)] {
                     [Some(ae), Some(be)] => {
                         if advance {
                             self.next_index = increment_index(i);
@@ -353,7 +353,11 @@ mod edges_iter
                     },
                     [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                     [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                };
+                if advance && matches!(item, Some(Err(_))) {
+                    self.next_index = None; // Don't request this index again.
                 }
+                item
             }
             else {
                 None
-- 
2.43.0


From 35db5e7ecbf012281d693107f5a36f3b2255982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 4/5] fix: Build with fastrand as the only generator and
 without std

The module exists only with std, but was re-exported as the default regardless.
---
 src/cycle_safe/modes/interleave/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cycle_safe/modes/interleave/random/mod.rs b/src/cycle_safe/modes/interleave/random/mod.rs
index 159ade1..caf3bc4 100644
--- a/src/cycle_safe/modes/interleave/random/mod.rs
+++ b/src/cycle_safe/modes/interleave/random/mod.rs
@@ -22,7 +22,7 @@ cfg_if! {
     else if #[cfg(feature = "oorandom")] {
         pub use self::oorandom as default;
     }
-    else if #[cfg(feature = "fastrand")] {
+    else if #[cfg(all(feature = "fastrand", feature = "std"))] {
         pub use self::fastrand as default;
     }
 }
-- 
2.43.0


From 17014730f7f366321d955846ed2b587e7da4ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 5/5] fix: Build with std but without any of the provided
 generators

The premade cycle-safe functions need a default generator, and so are available only with one;
the rest, including the generic parts used with one's own generator, does not need it.
---
 src/cycle_safe.rs | 10 ++++++++--
 src/lib.rs        |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index db0dddc..6cf1f0a 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -1,7 +1,13 @@
-#[cfg(feature = "std")]
+#[cfg(all(
+    feature = "std",
+    any(feature = "wyrng", feature = "oorandom", feature = "fastrand")
+))]
 pub use premade::*;
 
-#[cfg(feature = "std")]
+#[cfg(all(
+    feature = "std",
+    any(feature = "wyrng", feature = "oorandom", feature = "fastrand")
+))]
 mod premade
 {
     use {
diff --git a/src/lib.rs b/src/lib.rs
index 3a43e52..bba257a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,7 +90,10 @@
 )]
 
 
-#[cfg(feature = "std")]
+#[cfg(all(
+    feature = "std",
+    any(feature = "wyrng", feature = "oorandom", feature = "fastrand")
+))]
 /// Items that are safe for cyclic, degenerate, and very-deep graphs.
 pub mod robust;
 
-- 
2.43.0

