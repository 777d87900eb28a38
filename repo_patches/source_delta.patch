From 49cd3ec59e47f029e8b0896852931232f1e5fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 01/11] fix: keep the manager usable after a failed entropy
 read

A failed read panics while the lock is held and poisoned it for good, so every
later call that needs entropy panicked too, even when the source worked again.
---
 keychain/src/entropy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keychain/src/entropy.rs b/keychain/src/entropy.rs
index 29dbd18..fe50da3 100644
--- a/keychain/src/entropy.rs
+++ b/keychain/src/entropy.rs
@@ -18,7 +18,8 @@ impl OsEntropy {
 
 impl Entropy for OsEntropy {
   fn fill_bytes(&self, into: &mut [u8]) {
-    let rand = &mut self.random.lock().unwrap();
+    // OsRng has no state a panicking read could corrupt, so a poisoned lock is still usable
+    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
     rand.fill_bytes(into);
   }
 }
-- 
2.43.0


From c250b63a39ec8b41c45caf717cf9fa5a1adfaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 02/11] fix: release the networks list with the layout it was
 allocated with

delete_networks rebuilt the vector with elements of type &[Network] (16 bytes
each) instead of Network (4 bytes each).
---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 81e120b30b2ecf74d46f34bac2b8fad382c699f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 03/11] fix: don't abort when an error message contains a NUL
 character

Error messages can quote the data they are about. The conversion to a C string
happens outside of catch_unwind, so its panic aborted the process.
---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..35a6d86 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -59,11 +59,16 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
+  }
+
+  // Messages can quote input data; a C string can't hold NUL characters.
+  fn message(msg: &str) -> CharPtr {
+    msg.replace('\0', "\\0").to_cstr()
   }
 }
 
-- 
2.43.0


From 2dca6f8fad96dbd933c5db51a912613a093786e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 04/11] fix: refuse too long Cardano signatures and key data
 instead of panicking

---
 keychain/src/networks/cardano/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 982d27f501b8360df3a64b0308f5b7199bece866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 05/11] fix: verify the signatures that sign returns

sign returns r | s | recovery id (65 bytes) for Ethereum and Bitcoin, but verify
refused everything except 64 bytes, so no signature could be verified as made.
---
 secp256k1_bip32/src/public.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..df753bd 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -2,7 +2,7 @@ use super::error::KeyError;
 use cryptoxide::digest::Digest;
 use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
-use secp256k1::{util, verify, Message, PublicKey, Signature};
+use secp256k1::{recover, util, verify, Message, PublicKey, RecoveryId, Signature};
 
 pub struct XPub(PublicKey);
 
@@ -20,7 +20,8 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // signature can be followed by the recovery id, as returned by XPrv::sign
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != util::SIGNATURE_SIZE + 1 {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,9 +31,18 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
-      .map(|signature| verify(&message, &signature, &self.0))
-      .map_err(|err| err.into())
+    let (signature, recovery) = signature.split_at(util::SIGNATURE_SIZE);
+    let signature = Signature::parse_slice(signature).map_err(|err| KeyError::from(err))?;
+    if !verify(&message, &signature, &self.0) {
+      return Ok(false);
+    }
+    match recovery.first() {
+      None => Ok(true),
+      Some(&id) => {
+        let id = RecoveryId::parse(id).map_err(|err| KeyError::from(err))?;
+        Ok(recover(&message, &signature, &id).map(|key| key == self.0).unwrap_or(false))
+      }
+    }
   }
 
   pub fn sha256(&self) -> [u8; util::MESSAGE_SIZE] {
-- 
2.43.0


From fbe4427d0801d4d8d4e344b148b555c646717f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 06/11] fix: report bad key path text as an error

A component ending with a multibyte character panicked, and a hardened index of
2^31 or more overflowed: it panicked in debug builds and wrapped around to
another path in release builds.
---
 keychain/src/key_path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..08f7064 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,6 +19,7 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
+  InvalidValueAtIndex(usize, u32),
   ParseErrorAtIndex(usize, std::num::ParseIntError)
 }
 
@@ -41,6 +42,9 @@ impl fmt::Display for Error {
       &Error::InvalidChange(change) => write!(f, "Invalid change {}", change),
       &Error::InvalidAddress(addr) => write!(f, "Invalid address {}", addr),
       &Error::EmptyValueAtIndex(index) => write!(f, "Found empty value at index: {}", index),
+      &Error::InvalidValueAtIndex(index, value) => {
+        write!(f, "Value {} at index {} is too big", value, index)
+      }
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
@@ -71,7 +75,8 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let val = Self::soft_int(index, &s[..s.len() - 1])?;
+    val.checked_add(BIP44_SOFT_UPPER_BOUND).ok_or(Error::InvalidValueAtIndex(index, val))
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
@@ -85,7 +90,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From e57550063279a50aa23f2a3bd56f8e982faf10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 07/11] fix: name the rejected address index in key path errors

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From d074a24fcccf53bf37b03f3f548dde0dd99c8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 08/11] fix: accept NULL for empty C buffers

A C caller passes an empty message or signature as (NULL, 0); building a slice
from a NULL pointer is undefined behaviour and aborts in debug builds.
---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  8 ++++++++
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..3f3ad24 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..278f06e 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice(data, data_len);
+    let signature_slice = slice(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..faf6c5f 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..5fa0d8a 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -1,5 +1,13 @@
 use super::ptr::Ptr;
 
+/// Bytes passed from C. Pointer of an empty buffer can be NULL.
+pub unsafe fn slice<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if len == 0 {
+    return &[];
+  }
+  std::slice::from_raw_parts(ptr, len)
+}
+
 #[repr(C)]
 #[derive(Copy, Clone)]
 pub struct DataPtr {
-- 
2.43.0


From 5c5b5c65c3f49fb01bc2853f4b2895e7da1c0778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 09/11] fix: make delete_string of NULL do nothing, as the
 other delete functions

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From 8dc7e180ee2e7c6f76ea58f0adefefcca4475c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 10/11] fix: do not quote a mnemonic with wrong separators in
 errors

Text without the separators the dictionary expects was looked up, and quoted
in the error message, as one word: the whole mnemonic.
---
 bip39/src/bip39.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..9b76558 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -900,6 +900,17 @@ pub mod dictionary {
     pub words: [&'static str; 2048],
     pub name: &'static str
   }
+  impl DefaultDictionary {
+    // Without the expected separators a whole mnemonic looks like one word,
+    // and it must not get into error messages.
+    fn quotable<'a>(&self, word: &'a str) -> &'a str {
+      let longest = self.words.iter().map(|known| known.chars().count()).max().unwrap_or(0);
+      if word.chars().count() > longest {
+        return "...";
+      }
+      word
+    }
+  }
   impl Language for DefaultDictionary {
     fn name(&self) -> &'static str {
       self.name
@@ -909,7 +920,7 @@ pub mod dictionary {
     }
     fn lookup_mnemonic(&self, word: &str) -> Result<MnemonicIndex> {
       match self.words.iter().position(|x| x == &word) {
-        None => Err(Error::MnemonicWordNotFoundInDictionary(word.to_string())),
+        None => Err(Error::MnemonicWordNotFoundInDictionary(self.quotable(word).to_string())),
         Some(v) => {
           Ok(
             // it is safe to call unwrap as we guarantee that the
-- 
2.43.0


From 5183f9806e3d77e0d25dc2c5036f502911c64887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 11/11] fix: refuse secp256k1 signatures with a high s in
 verify

Given a signature (r, s) anybody can compute (r, n - s), which passes the
same equation, so an altered signature was accepted as authentic.
---
 secp256k1_bip32/src/public.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index df753bd..9a7c600 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -33,6 +33,10 @@ impl XPub {
 
     let (signature, recovery) = signature.split_at(util::SIGNATURE_SIZE);
     let signature = Signature::parse_slice(signature).map_err(|err| KeyError::from(err))?;
+    // (r, n - s) would pass too; signatures made by XPrv::sign always have the low s
+    if signature.s.is_high() {
+      return Ok(false);
+    }
     if !verify(&message, &signature, &self.0) {
       return Ok(false);
     }
-- 
2.43.0

