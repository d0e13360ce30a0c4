From 0e5b6ed4ba128b34b5cc7bbf5d1723fd7468c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 1/5] fix: compare the private keys of both operands in
 extended private key equality

---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From 6f03479328de62edebee11f0d64bfadd17073ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 2/5] fix: report an out-of-range derivation tweak as an error
 instead of panicking

---
 src/bip32/private_key.rs | 2 +-
 src/bip32/public_key.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..94be5b3 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -45,7 +45,7 @@ impl PrivateKey for libsecp256k1::SecretKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other)?) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..310734a 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -48,7 +48,7 @@ impl PublicKey for libsecp256k1::PublicKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other)?){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 6723c15e5684e11c2593650d0aa18e1b55adccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 3/5] fix: find words by prefix in word lists that are not
 sorted

---
 src/bip39/language.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..eda4a52 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,11 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
+        // not every word list is sorted (e.g. Chinese), so no binary search here
         let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+            .iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From 6142529f2fe04d1713f7745a04c80a552e2957f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 4/5] fix: reject extended keys of depth zero that claim a
 parent (BIP32 test vector 5)

---
 src/bip32/extended_key/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..fe5784c 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -89,6 +89,11 @@ impl FromStr for ExtendedKey {
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
 
+        // BIP32: a master key has no parent, hence neither parent fingerprint nor index
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number != ChildNumber(0)) {
+            return Err(Error::Decode);
+        }
+
         let attrs = ExtendedKeyAttrs {
             depth,
             parent_fingerprint,
-- 
2.43.0


From 42caadd13ac2b00f3145dad10ec6944873cd599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 5/5] fix: draw mnemonic entropy from the operating system, so
 that forked processes do not generate the same mnemonics

---
 src/bip39/crypto.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bip39/crypto.rs b/src/bip39/crypto.rs
index a32fe79..2fa3929 100644
--- a/src/bip39/crypto.rs
+++ b/src/bip39/crypto.rs
@@ -6,7 +6,7 @@
 //!
 
 extern crate rand;
-use self::rand::{thread_rng, RngCore};
+use self::rand::{rngs::OsRng, RngCore};
 use hmac::Hmac;
 use sha2::Digest;
 
@@ -22,10 +22,10 @@ pub(crate) fn sha256_first_byte(input: &[u8]) -> u8 {
 /// Random byte generator, used to create new mnemonics
 ///
 pub(crate) fn gen_random_bytes(byte_length: usize) -> Vec<u8> {
-    let mut rng = thread_rng();
     let mut bytes = vec![0u8; byte_length];
 
-    rng.fill_bytes(&mut bytes);
+    // not `thread_rng`: what it has buffered is handed out again in a forked process
+    OsRng.fill_bytes(&mut bytes);
 
     bytes
 }
-- 
2.43.0

