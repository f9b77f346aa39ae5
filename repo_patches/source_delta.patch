From a0092d141216440487429a942bf7e4d664a9cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 1/4] fix: Default hashers go through the key schedule

The derived Default left every lane zero instead of initialising the state
with the zero key, so default() disagreed with new(Key::default()) and with
HighwayHasher::default().
---
 src/aarch64.rs  | 8 +++++++-
 src/portable.rs | 8 +++++++-
 src/wasm.rs     | 8 +++++++-
 src/x86/avx.rs  | 8 +++++++-
 src/x86/sse.rs  | 8 +++++++-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..8f3ff4c 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -20,6 +20,12 @@ pub struct NeonHash {
     mul1H: V2x64U,
 }
 
+impl Default for NeonHash {
+    fn default() -> Self {
+        unsafe { NeonHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for NeonHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..60ff844 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -19,6 +19,12 @@ pub struct PortableHash {
     pub(crate) buffer: HashPacket,
 }
 
+impl Default for PortableHash {
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for PortableHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..9947956 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -20,6 +20,12 @@ pub struct WasmHash {
     buffer: HashPacket,
 }
 
+impl Default for WasmHash {
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for WasmHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..6eb91de 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -18,6 +18,12 @@ pub struct AvxHash {
     buffer: HashPacket,
 }
 
+impl Default for AvxHash {
+    fn default() -> Self {
+        unsafe { AvxHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for AvxHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..dc9e1ca 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -22,6 +22,12 @@ pub struct SseHash {
     buffer: HashPacket,
 }
 
+impl Default for SseHash {
+    fn default() -> Self {
+        unsafe { SseHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for SseHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
-- 
2.43.0


From f42e876c8f48f6e771dbc6ab17e32a63fe7399aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 2/4] fix: keep absorbed bytes out of checkpoints

checkpoint() copied the whole packet buffer, so bytes beyond the pending count
(earlier input that has already been absorbed) ended up in the checkpoint,
and equal states had different checkpoints.
---
 src/portable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 60ff844..a729d31 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -61,7 +61,11 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes are state, what follows them in the buffer is
+        // input that has already been absorbed.
+        for (dest, x) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *dest = *x;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0


From b813490b3cc045e080e4a4de3c0a7aba6f3d4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 3/4] fix: absorb a full packet when restoring a checkpoint

A checkpoint whose pending count is 32 or more was restored to a hasher with a
full pending buffer, which no other operation expects: an empty append changed
its results, backends disagreed, and debug builds panicked on a shift by 32.
---
 src/portable.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/portable.rs b/src/portable.rs
index a729d31..afaa551 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -125,19 +125,22 @@ impl PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at(PACKET_SIZE);
-        let mut buffer = HashPacket::default();
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
 
-        PortableHash {
+        let mut hasher = PortableHash {
             v0,
             v1,
             mul0,
             mul1,
-            buffer,
-        }
+            buffer: HashPacket::default(),
+        };
+
+        // Appending (instead of filling the buffer) absorbs the packet if the
+        // checkpoint claims a full one, as a full packet must never be pending.
+        hasher.append(&buffered[..(len as usize).min(buffered.len())]);
+        hasher
     }
 
     pub(crate) fn finalize64(&mut self) -> u64 {
-- 
2.43.0


From ca64e9807629f4f9aa74f25cd76332c87ac4fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 4/4] fix: NEON results on big-endian aarch64

The NEON backend relied on intrinsics that number bytes and 32-bit lanes in
little-endian order (table lookup, ext, set lane, reinterpreted loads), so all
its results and checkpoints were wrong on aarch64_be.
---
 src/aarch64.rs  | 24 +++++++++++++++++++++---
 src/portable.rs |  8 +++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 8f3ff4c..cef4352 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -130,6 +130,14 @@ impl NeonHash {
     }
 
     unsafe fn zipper_merge(v: &V2x64U) -> V2x64U {
+        if cfg!(target_endian = "big") {
+            // The table below is for little-endian lanes
+            let [low, high] = v.as_arr();
+            let mut lanes = [0u64; 4];
+            PortableHash::zipper_merge_and_add(high, low, &mut lanes, 1, 0);
+            return V2x64U::new(lanes[1], lanes[0]);
+        }
+
         let pos = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];
         let tbl = vld1q_u8(pos.as_ptr());
         let lookup = vqtbl1q_u8(vreinterpretq_u8_u64(v.0), tbl);
@@ -222,8 +230,7 @@ impl NeonHash {
     }
 
     unsafe fn modular_reduction(x: &V2x64U, init: &V2x64U) -> V2x64U {
-        let zero = vdupq_n_u32(0);
-        let sign_bit128 = V2x64U::from(vsetq_lane_u32(0x8000_0000_u32, zero, 3));
+        let sign_bit128 = V2x64U::new(0x8000_0000_0000_0000, 0);
         let top_bits2 = V2x64U::from(vshrq_n_u64(x.0, 62));
         let shifted1_unmasked = *x + *x;
         let top_bits1 = V2x64U::from(vshrq_n_u64(x.0, 63));
@@ -264,7 +271,7 @@ impl NeonHash {
             let remainder = &bytes[(size_mod32 & !3) + size_mod4 - 4..];
             let last4 =
                 u32::from_le_bytes([remainder[0], remainder[1], remainder[2], remainder[3]]);
-            let packetH = V2x64U::from(vsetq_lane_u32(last4, vreinterpretq_u32_u64(packett.0), 3));
+            let packetH = packett | V2x64U::new(u64::from(last4) << 32, 0);
             (packetH, packetL)
         } else {
             let remainder = &bytes[size_mod32 & !3..];
@@ -336,6 +343,11 @@ fn take<const N: usize>(data: &[u8]) -> [u8; N] {
 #[inline]
 unsafe fn _mm_slli_si128_8(a: uint64x2_t) -> uint64x2_t {
     // aka _mm_bslli_si128_8
+    if cfg!(target_endian = "big") {
+        let [low, _] = V2x64U(a).as_arr();
+        return V2x64U::new(low, 0).0;
+    }
+
     let tmp = vreinterpretq_u8_u64(a);
     let rotated = vextq_u8(vdupq_n_u8(0), tmp, 8);
     vreinterpretq_u64_u8(rotated)
@@ -442,6 +454,12 @@ impl From<uint16x8_t> for V2x64U {
 impl From<uint8x16_t> for V2x64U {
     #[inline]
     fn from(v: uint8x16_t) -> Self {
+        // The bytes are always in little-endian order
+        let v = if cfg!(target_endian = "big") {
+            unsafe { vrev64q_u8(v) }
+        } else {
+            v
+        };
         V2x64U(unsafe { vreinterpretq_u64_u8(v) })
     }
 }
diff --git a/src/portable.rs b/src/portable.rs
index afaa551..b245d54 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -253,7 +253,13 @@ impl PortableHash {
         PortableHash::zipper_merge_and_add(self.v0[3], self.v0[2], &mut self.v1, 3, 2);
     }
 
-    fn zipper_merge_and_add(v1: u64, v0: u64, lane: &mut [u64; 4], add1: usize, add0: usize) {
+    pub(crate) fn zipper_merge_and_add(
+        v1: u64,
+        v0: u64,
+        lane: &mut [u64; 4],
+        add1: usize,
+        add0: usize,
+    ) {
         lane[add0] = lane[add0].wrapping_add(
             (((v0 & 0xff00_0000) | (v1 & 0x00ff_0000_0000)) >> 24)
                 | (((v0 & 0xff00_0000_0000) | (v1 & 0x00ff_0000_0000_0000)) >> 16)
-- 
2.43.0

