From dcc4afd5a1bd15ed42027541a0c16b15243168b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 1/5] fix: reduce the Poly1305 accumulator fully when it is at
 least 2^130 - 5

freeze adds 5 + 252 * 2^128 and takes bit 7 of the top limb as the sign, but add does not
mask that limb, so for an accumulator of at least 2^130 - 5 it is 256 and the shift gives 2:
the mask became 0xfffffffe and the tag was wrong.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..76ce071 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -209,7 +209,7 @@ impl PolyFunction {
             &[5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             252,
         );
-        let negative = (self.h[16] >> 7).wrapping_neg();
+        let negative = ((self.h[16] >> 7) & 1).wrapping_neg();
         for (h_j, &h_orig_j) in self.h.iter_mut().zip(h_orig.iter()) {
             *h_j ^= negative & (h_orig_j ^ *h_j);
         }
-- 
2.43.0


From 5c18566022955d0f05c969c3279b534edf518a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 2/5] fix: do not overflow the HKDF block counter on 254 or 255
 full blocks

(1..) over u8 computes the successor of 255 and panics in builds with overflow checks,
although up to 255 blocks are allowed.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From 254bd6a4e6e2ac9c4aa698586a081b58e8edeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 3/5] fix: do not overflow the GCM block counter on messages of
 maximal length

(2..) over u32 computes the successor of 2^32 - 1 and panics in builds with overflow checks
for the longest messages check_bounds admits.
---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..6bd954d 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From a6eec4ea68fa9d5166ea1ae2bb8b40d06148d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 4/5] fix: refuse ChaCha20-Poly1305 messages that exhaust the
 block counter

Past 2^38 - 64 bytes the 32-bit block counter wrapped to block 0 (the one-time key block)
in release builds and panicked half-way in builds with overflow checks, which also refused
the last permitted blocks.
---
 src/poly1305.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 76ce071..ba8f4fb 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -26,9 +26,10 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `message.len()` is more than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
-        assert_eq!(input.len(), output.len());
+        check_bounds(input, output);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +39,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `message.len()` is more than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -47,7 +49,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         tag: &[u8],
         output: &mut [u8],
     ) -> bool {
-        assert_eq!(output.len(), input.len());
+        check_bounds(output, input);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +64,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
@@ -86,6 +88,11 @@ impl ChaCha20Poly1305 {
     }
 }
 
+fn check_bounds(message: &[u8], ciphertext: &[u8]) {
+    assert_eq!(message.len(), ciphertext.len());
+    assert!(64 * u64::from(u32::MAX) >= message.len() as u64);
+}
+
 fn poly1305(key: &[u8; 32], data: &[u8], ciphertext: &[u8]) -> [u8; 16] {
     let mut tag = [0; 16];
     let mut mac = Poly1305::new(key, data);
-- 
2.43.0


From 7037bc9b6afc5c981220aeced7508f00fb31ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 5/5] fix: reject Ed25519 signatures whose S is not less than
 the group order

RFC 8032 section 5.1.7 requires 0 <= S < L; only the top three bits were checked, so adding L
to S gave a second valid signature for the same message.
---
 src/ed25519.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..03e5383 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || !sc_is_canonical(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -96,6 +96,17 @@ pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
 
 const ZERO: [u8; 32] = [0; 32];
 
+/// The order of the base point, 2^252 + 27742317777372353535851937790883648493, in little-endian.
+const ORDER: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
+];
+
+/// Whether a public little-endian scalar is less than the order of the base point.
+fn sc_is_canonical(s: &[u8]) -> bool {
+    s.iter().rev().lt(ORDER.iter().rev())
+}
+
 impl Fe {
     fn cmov_from(&mut self, g: &Fe, b: u32) {
         let f = &mut self.0;
-- 
2.43.0

