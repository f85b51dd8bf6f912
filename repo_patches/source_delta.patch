From 7898ce301479c1c50f703217acb08eaed422765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 1/2] Guarded hooks for external verification (cfg
 blake2_verif)

---
 blake2b/src/blake2bp.rs | 13 ++++++++++++
 blake2b/src/lib.rs      | 44 +++++++++++++++++++++++++++++++++++++++++
 blake2b/src/many.rs     |  9 +++++++++
 blake2s/src/blake2sp.rs | 13 ++++++++++++
 blake2s/src/lib.rs      | 44 +++++++++++++++++++++++++++++++++++++++++
 blake2s/src/many.rs     |  9 +++++++++
 6 files changed, 132 insertions(+)

diff --git a/blake2b/src/blake2bp.rs b/blake2b/src/blake2bp.rs
index 3f5808a..3840a08 100644
--- a/blake2b/src/blake2bp.rs
+++ b/blake2b/src/blake2bp.rs
@@ -479,6 +479,19 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+#[cfg(blake2_verif)]
+pub(crate) mod verif_hooks {
+    use super::*;
+
+    pub(crate) fn implementation(params: &mut Params) -> &mut Implementation {
+        &mut params.implementation
+    }
+
+    pub(crate) fn count(state: &mut State) -> &mut Count {
+        &mut state.count
+    }
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2b/src/lib.rs b/blake2b/src/lib.rs
index 6c4f92f..c12a366 100644
--- a/blake2b/src/lib.rs
+++ b/blake2b/src/lib.rs
@@ -42,6 +42,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// cfg(blake2_verif) guards the verif_hooks modules; no Cargo feature turns it on.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -687,3 +689,45 @@ pub mod benchmarks {
         blake2bp::force_portable(params);
     }
 }
+
+// Hooks for external verification only, compiled with `--cfg blake2_verif`.
+#[cfg(blake2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use super::*;
+
+    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+    fn force(implementation: &mut guts::Implementation) {
+        if let Some(sse41) = guts::Implementation::sse41_if_supported() {
+            *implementation = sse41;
+        }
+    }
+
+    #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+    fn force(_implementation: &mut guts::Implementation) {}
+
+    pub fn force_sse41(params: &mut Params) {
+        force(&mut params.implementation);
+    }
+
+    pub fn force_sse41_blake2bp(params: &mut blake2bp::Params) {
+        force(blake2bp::verif_hooks::implementation(params));
+    }
+
+    /// Advance the internal byte counter, as though `n` more bytes had been compressed.
+    pub fn add_count(state: &mut State, n: Count) {
+        state.count = state.count.wrapping_add(n);
+    }
+
+    /// Advance the internal per-leaf byte counter by `n`.
+    pub fn add_count_blake2bp(state: &mut blake2bp::State, n: Count) {
+        let count = blake2bp::verif_hooks::count(state);
+        *count = count.wrapping_add(n);
+    }
+
+    /// Advance a job's internal byte counter by `n`.
+    pub fn add_count_job(job: &mut many::HashManyJob, n: Count) {
+        let count = many::verif_hooks::count(job);
+        *count = count.wrapping_add(n);
+    }
+}
diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index f880c01..4e3d8c8 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -418,6 +418,15 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+#[cfg(blake2_verif)]
+pub(crate) mod verif_hooks {
+    use super::*;
+
+    pub(crate) fn count<'b>(job: &'b mut HashManyJob) -> &'b mut Count {
+        &mut job.count
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/blake2s/src/blake2sp.rs b/blake2s/src/blake2sp.rs
index 3a68285..ae6e012 100644
--- a/blake2s/src/blake2sp.rs
+++ b/blake2s/src/blake2sp.rs
@@ -486,6 +486,19 @@ pub(crate) fn force_portable(params: &mut Params) {
     params.implementation = Implementation::portable();
 }
 
+#[cfg(blake2_verif)]
+pub(crate) mod verif_hooks {
+    use super::*;
+
+    pub(crate) fn implementation(params: &mut Params) -> &mut Implementation {
+        &mut params.implementation
+    }
+
+    pub(crate) fn count(state: &mut State) -> &mut Count {
+        &mut state.count
+    }
+}
+
 #[cfg(test)]
 pub(crate) mod test {
     use super::*;
diff --git a/blake2s/src/lib.rs b/blake2s/src/lib.rs
index f845e96..b97c5b4 100644
--- a/blake2s/src/lib.rs
+++ b/blake2s/src/lib.rs
@@ -41,6 +41,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// cfg(blake2_verif) guards the verif_hooks modules; no Cargo feature turns it on.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -679,3 +681,45 @@ pub mod benchmarks {
         blake2sp::force_portable(params);
     }
 }
+
+// Hooks for external verification only, compiled with `--cfg blake2_verif`.
+#[cfg(blake2_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use super::*;
+
+    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+    fn force(implementation: &mut guts::Implementation) {
+        if let Some(sse41) = guts::Implementation::sse41_if_supported() {
+            *implementation = sse41;
+        }
+    }
+
+    #[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+    fn force(_implementation: &mut guts::Implementation) {}
+
+    pub fn force_sse41(params: &mut Params) {
+        force(&mut params.implementation);
+    }
+
+    pub fn force_sse41_blake2sp(params: &mut blake2sp::Params) {
+        force(blake2sp::verif_hooks::implementation(params));
+    }
+
+    /// Advance the internal byte counter, as though `n` more bytes had been compressed.
+    pub fn add_count(state: &mut State, n: Count) {
+        state.count = state.count.wrapping_add(n);
+    }
+
+    /// Advance the internal per-leaf byte counter by `n`.
+    pub fn add_count_blake2sp(state: &mut blake2sp::State, n: Count) {
+        let count = blake2sp::verif_hooks::count(state);
+        *count = count.wrapping_add(n);
+    }
+
+    /// Advance a job's internal byte counter by `n`.
+    pub fn add_count_job(job: &mut many::HashManyJob, n: Count) {
+        let count = many::verif_hooks::count(job);
+        *count = count.wrapping_add(n);
+    }
+}
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index e8be09b..131bdf5 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -418,6 +418,15 @@ where
     compress_many(jobs, implementation, Finalize::Yes, Stride::Serial);
 }
 
+#[cfg(blake2_verif)]
+pub(crate) mod verif_hooks {
+    use super::*;
+
+    pub(crate) fn count<'b>(job: &'b mut HashManyJob) -> &'b mut Count {
+        &mut job.count
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From ca06674b9c97946047c2a3c47f0b5fa711421d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 2/2] fix: accept file paths that are not UTF-8

The blake2 command takes its inputs as PathBuf and prints them with
to_string_lossy, but without from_os_str structopt asks clap for a UTF-8
string and clap panics on anything else, so such files could not be hashed
and no other input of the same command line was either.
---
 blake2_bin/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blake2_bin/src/main.rs b/blake2_bin/src/main.rs
index 2000321..63f2a01 100644
--- a/blake2_bin/src/main.rs
+++ b/blake2_bin/src/main.rs
@@ -9,6 +9,7 @@ use structopt::StructOpt;
 
 #[derive(Debug, StructOpt)]
 struct Opt {
+    #[structopt(parse(from_os_str))]
     /// Any number of filepaths, or empty for standard input.
     inputs: Vec<PathBuf>,
 
-- 
2.43.0

