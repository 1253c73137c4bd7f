From 2158d3d8200a2d3da89e9d29e17af6323248dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 1/3] vsimd: add a simulation seam for CPU feature detection
 (guarded by cfg vsimd_sim, off by default)

---
 crates/vsimd/src/isa.rs | 18 ++++++++++++++++++
 crates/vsimd/src/lib.rs |  5 +++++
 crates/vsimd/src/sim.rs | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 55 insertions(+)
 create mode 100644 crates/vsimd/src/sim.rs

diff --git a/crates/vsimd/src/isa.rs b/crates/vsimd/src/isa.rs
index 95dba94..f93df34 100644
--- a/crates/vsimd/src/isa.rs
+++ b/crates/vsimd/src/isa.rs
@@ -92,8 +92,26 @@ unsafe impl InstructionSet for Fallback {
     }
 }
 
+/// Whether the machine has a CPU feature.
+///
+/// The flag `vsimd_sim` (`RUSTFLAGS="--cfg vsimd_sim"`) puts the answer behind [`crate::sim`].
+/// Without it this is exactly `host_feature_detected!`.
 #[allow(unused_macros)]
 macro_rules! is_feature_detected {
+    ($feature:tt) => {{
+        #[cfg(vsimd_sim)]
+        {
+            $crate::sim::machine_has($feature) && host_feature_detected!($feature)
+        }
+        #[cfg(not(vsimd_sim))]
+        {
+            host_feature_detected!($feature)
+        }
+    }};
+}
+
+#[allow(unused_macros)]
+macro_rules! host_feature_detected {
     ($feature:tt) => {{
         #[cfg(target_feature = $feature)]
         {
diff --git a/crates/vsimd/src/lib.rs b/crates/vsimd/src/lib.rs
index 09b12ec..b68e94d 100644
--- a/crates/vsimd/src/lib.rs
+++ b/crates/vsimd/src/lib.rs
@@ -9,6 +9,7 @@
 )]
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![cfg_attr(test, deny(warnings))]
+#![allow(unexpected_cfgs)] // vsimd_sim
 //
 #![deny(
     missing_debug_implementations,
@@ -83,3 +84,7 @@ pub mod table;
 
 #[cfg(feature = "unstable")]
 pub mod unstable;
+
+#[cfg(vsimd_sim)]
+#[doc(hidden)]
+pub mod sim;
diff --git a/crates/vsimd/src/sim.rs b/crates/vsimd/src/sim.rs
new file mode 100644
index 0000000..24e7bd4
--- /dev/null
+++ b/crates/vsimd/src/sim.rs
@@ -0,0 +1,32 @@
+//! A seam for deterministic simulation. It exists only under `--cfg vsimd_sim`.
+//!
+//! The simulator decides which CPU features the machine has.
+//! A feature is reported only if both the simulated machine and the host have it.
+
+use core::sync::atomic::{AtomicU32, Ordering};
+
+/// Bits of the features which may be reported.
+static MACHINE: AtomicU32 = AtomicU32::new(u32::MAX);
+
+pub const SSE2: u32 = 1 << 0;
+pub const SSSE3: u32 = 1 << 1;
+pub const SSE41: u32 = 1 << 2;
+pub const AVX2: u32 = 1 << 3;
+
+#[inline]
+pub fn set_machine(features: u32) {
+    MACHINE.store(features, Ordering::SeqCst);
+}
+
+#[inline]
+#[must_use]
+pub fn machine_has(feature: &str) -> bool {
+    let bit = match feature {
+        "sse2" => SSE2,
+        "ssse3" => SSSE3,
+        "sse4.1" => SSE41,
+        "avx2" => AVX2,
+        _ => return true,
+    };
+    MACHINE.load(Ordering::SeqCst) & bit != 0
+}
-- 
2.43.0


From 21c5c271e551a16715ffd0737276bbc191321f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 2/3] fix: Base64::par_encode returns Err instead of panicking
 when dst is too short

---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0


From 40ba203b8d6c14862b7c23c629693e67bbb037bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 3/3] fix: bswap on SSSE3 machines without AVX2 panicked
 (required SSE4.1 although dispatched for SSSE3)

---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0

