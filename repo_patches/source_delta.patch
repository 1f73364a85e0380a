From d21b07aa5687a6ce4872b44de80430e593345428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 1/3] fix: Default of every hasher type is the zero-key hasher

The derived Default left the whole state at zero, skipping the key schedule,
so T::default() disagreed with T::new(Key::default()) and across types.
---
 src/aarch64.rs  | 8 +++++++-
 src/portable.rs | 8 +++++++-
 src/wasm.rs     | 8 +++++++-
 src/x86/avx.rs  | 8 +++++++-
 src/x86/sse.rs  | 8 +++++++-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..419d549 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -72,6 +72,12 @@ impl HighwayHash for NeonHash {
     }
 }
 
+impl Default for NeonHash {
+    fn default() -> Self {
+        unsafe { NeonHash::force_new(Key::default()) }
+    }
+}
+
 impl NeonHash {
     /// Creates a new `NeonHash` while circumventing any runtime checks.
     ///
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..de065a9 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -61,6 +61,12 @@ impl HighwayHash for PortableHash {
     }
 }
 
+impl Default for PortableHash {
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl PortableHash {
     /// Create a new `PortableHash` from a `Key`
     #[must_use]
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..329d3af 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -70,6 +70,12 @@ impl HighwayHash for WasmHash {
     }
 }
 
+impl Default for WasmHash {
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl WasmHash {
     /// Creates a new `WasmHash` based on Wasm SIMD extension
     #[must_use]
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..5b6079e 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -54,6 +54,12 @@ impl HighwayHash for AvxHash {
     }
 }
 
+impl Default for AvxHash {
+    fn default() -> Self {
+        unsafe { AvxHash::force_new(Key::default()) }
+    }
+}
+
 impl AvxHash {
     /// Creates a new `AvxHash` while circumventing the runtime check for avx2.
     ///
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..911718e 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -74,6 +74,12 @@ impl HighwayHash for SseHash {
     }
 }
 
+impl Default for SseHash {
+    fn default() -> Self {
+        unsafe { SseHash::force_new(Key::default()) }
+    }
+}
+
 impl SseHash {
     /// Creates a new `SseHash` while circumventing the runtime check for sse4.1.
     ///
-- 
2.43.0


From 25944c092254c9a09c5e20c19bda788a0bf350fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 2/3] fix: checkpoint holds pending bytes only, not stale
 buffer contents

The whole 32 byte buffer was copied out, so checkpoints of the same stream
differed with the chunking history and exposed already absorbed input.
---
 src/portable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index de065a9..9f3d7a7 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -55,7 +55,11 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: the rest of the buffer holds stale input that has
+        // already been absorbed, and which must not leak into the checkpoint.
+        for (dest, src) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *dest = *src;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0


From 2ee4977a7ebe6242e8197086868dc8656869efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 3/3] fix: restoring a checkpoint with a count of 32 or more
 absorbs the full packet

The restored hasher was left with a full buffer, which finalize does not
expect: a shift overflow with debug assertions, results that differed
between backends, and an empty append that changed the hash.
---
 src/portable.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/portable.rs b/src/portable.rs
index 9f3d7a7..f1806e7 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -125,19 +125,21 @@ impl PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at(PACKET_SIZE);
-        let mut buffer = HashPacket::default();
-
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
 
-        PortableHash {
+        let mut hasher = PortableHash {
             v0,
             v1,
             mul0,
             mul1,
-            buffer,
-        }
+            buffer: HashPacket::default(),
+        };
+
+        // Appending instead of filling the buffer, as a full packet can't stay
+        // pending: every finalize assumes fewer than 32 buffered bytes.
+        hasher.append(&buffered[..(len as usize).min(buffered.len())]);
+        hasher
     }
 
     pub(crate) fn finalize64(&mut self) -> u64 {
-- 
2.43.0

