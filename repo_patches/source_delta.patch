From a753b7c83fbde256c4645342f346f44299ac4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 01/12] fix: pack bit 0 of the sixth coefficient in the 3-bit
 Saber encoding

---
 saber-rust/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saber-rust/src/poly.rs b/saber-rust/src/poly.rs
index 6543d00..54a3a97 100644
--- a/saber-rust/src/poly.rs
+++ b/saber-rust/src/poly.rs
@@ -294,7 +294,7 @@ impl Poly {
             bs[1] = U8::from((cs[2] >> 2) & 0x01.into())
                 | U8::from((cs[3] & 0x07.into()) << 1)
                 | U8::from((cs[4] & 0x07.into()) << 4)
-                | U8::from(((cs[5] >> 2) & 0x01.into()) << 7);
+                | U8::from((cs[5] & 0x01.into()) << 7);
             bs[2] = U8::from((cs[5] >> 1) & 0x03.into())
                 | U8::from((cs[6] & 0x07.into()) << 2)
                 | U8::from((cs[7] & 0x07.into()) << 5);
-- 
2.43.0


From 1345ca64e1cc3d3c288f41af0f35c2bb0b25ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 02/12] fix: EUE falls back to simulation instead of panicking
 on a decryption error

---
 latke/src/eue_transform.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index d1058c6..4da17f7 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -75,7 +75,6 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         // Decrypt the incoming ciphertext if there is any and we're in real mode
         let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
-            assert!(pt.is_ok());
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
                 self.real_mode = false;
-- 
2.43.0


From 82172c0648b8b1719e5b1f3a5a18884532c14530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 03/12] fix: authenticated decryption rejects short inputs
 instead of panicking

---
 latke/src/auth_enc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index 0b14d7b..af1bdc6 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -13,6 +13,7 @@ use rand_core::{CryptoRng, RngCore};
 type MyCipher = ChaCha20;
 
 pub(crate) const TAGLEN: usize = <MyMac as OutputSizeUser>::OutputSize::USIZE;
+pub(crate) const NONCELEN: usize = 12;
 
 /// A key for authenticated encryption. This is a 256-bit encryption key followed by a 256-bit HMAC key.
 pub(crate) type AuthEncKey = [u8; 64];
@@ -52,6 +53,11 @@ pub(crate) fn auth_encrypt<R: RngCore + CryptoRng>(
 
 /// Performs AES-128-CTR + HMAC authenticated decryption over the given ciphertext.
 pub(crate) fn auth_decrypt(key: AuthEncKey, sealed_msg: &[u8]) -> Result<Vec<u8>, MacError> {
+    // A ciphertext that cannot hold a nonce and a MAC is not authentic
+    if sealed_msg.len() < NONCELEN + TAGLEN {
+        return Err(MacError);
+    }
+
     // Deserialize the key and split the MAC and IV from the ciphertext
     let (enc_key, mac_key) = key.split_at(32);
     let mac_size = <MyMac as OutputSizeUser>::output_size();
-- 
2.43.0


From 0e92a55bcaa3ba47a42539ba67d46d8fa277c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 04/12] fix: simulated IBKE steps match the real message sizes
 and completion

---
 latke/src/ibke/fg_ibke.rs    | 25 ++++++++++++++++++++++++-
 latke/src/ibke/id_hmqv_c.rs  |  7 ++++++-
 latke/src/ibke/id_sigma_r.rs |  2 ++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index d1e7b65..f3c9d1d 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -279,7 +279,30 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn run_sim(&mut self) -> Option<usize> {
-        todo!()
+        let out = match self.next_step {
+            // Sends an ID, X, and an ephemeral pubkey
+            0 => Some(Id::default().len() + 32 + 32),
+            // Sends an ID, X, an ephemeral pubkey, and a MAC
+            1 => Some(Id::default().len() + 32 + 32 + 32),
+            2 => {
+                // Sends a MAC
+                self.done = true;
+                Some(32)
+            }
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
+            _ => {
+                panic!("protocol already ended")
+            }
+        };
+
+        // Initiator gets the even steps, responder gets the odd steps
+        self.next_step += 2;
+
+        out
     }
 
     fn is_done(&self) -> bool {
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 595de00..ba5ff91 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -177,9 +177,14 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
             2 => {
                 // Sends a MAC
+                self.done = true;
                 Some(32)
             }
-            3 => None,
+            3 => {
+                // All done
+                self.done = true;
+                None
+            }
             _ => {
                 panic!("protocol already finished")
             }
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 4951f99..f49148d 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -402,6 +402,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
@@ -412,6 +413,7 @@ impl IdSigmaR {
                     IdSigmaSignature::size(sig_ty)
                         + 32
                         + SigmaCert::size(sig_ty)
+                        + crate::auth_enc::NONCELEN
                         + crate::auth_enc::TAGLEN,
                 )
             }
-- 
2.43.0


From 4163cf3a8bc167aa9ae0397c3cf07d8d16ec98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 05/12] fix: never release a session key before completion or
 after a failure

---
 latke/src/eue_transform.rs   | 2 ++
 latke/src/ibke/fg_ibke.rs    | 2 ++
 latke/src/ibke/id_hmqv_c.rs  | 1 +
 latke/src/ibke/id_sig_dh.rs  | 1 +
 latke/src/ibke/id_sigma_r.rs | 1 +
 latke/src/pake/kc_spake2.rs  | 1 +
 6 files changed, 8 insertions(+)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index 4da17f7..53a36a5 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -119,6 +119,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
     }
 
     pub fn finalize(&self) -> (Id, SessKey) {
+        // A simulated session has no peer and thus no key
+        assert!(self.real_mode, "the encrypted session failed");
         self.sess.finalize()
     }
 }
diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index f3c9d1d..97793bc 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -310,6 +310,8 @@ impl IdentityBasedKeyExchange for FgIbkeC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
+
         // Add the IBKE output to the running transcript hash
         let mut trh = self.running_transcript_hash.clone();
         trh.input_ikm(self.sess_key.as_ref().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index ba5ff91..1154708 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -158,6 +158,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 18abe4b..557ab01 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -157,6 +157,7 @@ impl IdentityBasedKeyExchange for IdSigDh {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index f49148d..f790fed 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -381,6 +381,7 @@ impl IdSigmaR {
     }
 
     fn finalize(&self) -> (Id, SessKey) {
+        assert!(self.done, "protocol has not completed");
         (self.output_id.unwrap(), self.output_key.unwrap())
     }
 
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index c35c653..f11f316 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -155,6 +155,7 @@ impl Pake for KcSpake2 {
     }
 
     fn finalize(&self) -> SessKey {
+        assert!(self.done, "protocol has not completed");
         self.output_key.unwrap()
     }
 }
-- 
2.43.0


From 07aaa2767163f963f89075fff4c5a8f21565b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 06/12] verification hooks (cfg latke_verif) for private latke
 items

---
 latke/src/lib.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/latke/src/lib.rs b/latke/src/lib.rs
index 382f578..0755541 100644
--- a/latke/src/lib.rs
+++ b/latke/src/lib.rs
@@ -115,3 +115,69 @@ pub trait IdentityBasedKeyExchange {
 pub trait AsBytes {
     fn as_bytes(&self) -> &[u8];
 }
+
+/// Access to private items for the verification harness. Compiled only with `--cfg latke_verif`
+#[cfg(latke_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub const TAGLEN: usize = auth_enc::TAGLEN;
+
+    pub fn auth_encrypt<R: RngCore + CryptoRng>(rng: R, key: [u8; 64], msg: &[u8]) -> Vec<u8> {
+        auth_enc::auth_encrypt(rng, key, msg)
+    }
+
+    pub fn auth_decrypt(key: [u8; 64], sealed_msg: &[u8]) -> Option<Vec<u8>> {
+        auth_enc::auth_decrypt(key, sealed_msg).ok()
+    }
+
+    pub fn wide_block_encrypt(key: &[u8], inout: &mut [u8]) {
+        ideal_cipher::wide_block_encrypt(key, inout)
+    }
+
+    pub fn wide_block_decrypt(key: &[u8], inout: &mut [u8]) {
+        ideal_cipher::wide_block_decrypt(key, inout)
+    }
+
+    /// The EUE transform of an IBKE
+    pub struct Eue<I: IdentityBasedKeyExchange>(eue_transform::Eue<I>);
+
+    impl<I: IdentityBasedKeyExchange> Eue<I> {
+        pub fn new_session<R: RngCore + CryptoRng>(
+            rng: R,
+            ssid: Ssid,
+            mpk: I::MainPubkey,
+            cert: I::Certificate,
+            usk: I::UserPrivkey,
+            role: PartyRole,
+            initial_key: [u8; 32],
+        ) -> Self {
+            Eue(eue_transform::Eue::new_session(
+                rng,
+                ssid,
+                mpk,
+                cert,
+                usk,
+                role,
+                initial_key,
+            ))
+        }
+
+        pub fn run<R: RngCore + CryptoRng>(
+            &mut self,
+            rng: R,
+            incoming_ciphertext: &[u8],
+        ) -> Result<Option<Vec<u8>>, I::Error> {
+            self.0.run(rng, incoming_ciphertext)
+        }
+
+        pub fn is_done(&self) -> bool {
+            self.0.is_done()
+        }
+
+        pub fn finalize(&self) -> (Id, SessKey) {
+            self.0.finalize()
+        }
+    }
+}
-- 
2.43.0


From e0c966fd8853779116630aba9b02633fe7d8cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 07/12] verification hooks (cfg latke_verif) for certificates
 from raw parts

---
 latke/src/ibke/id_hmqv_c.rs  | 12 ++++++++++++
 latke/src/ibke/id_sig_dh.rs  | 12 ++++++++++++
 latke/src/ibke/id_sigma_r.rs | 17 +++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 1154708..b7fbfe0 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -57,6 +57,18 @@ impl IdHmqvCCert {
     }
 }
 
+/// Certificates from raw parts, for the verification harness
+#[cfg(latke_verif)]
+impl IdHmqvCCert {
+    pub fn verif_to_bytes(&self) -> Vec<u8> {
+        self.to_bytes()
+    }
+
+    pub fn verif_from_bytes(bytes: &[u8]) -> Self {
+        Self::from_bytes(bytes)
+    }
+}
+
 impl IdCertificate for IdHmqvCCert {
     fn id(&self) -> Id {
         self.id
diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 557ab01..3b1f8b4 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -56,6 +56,18 @@ impl SigDhCert {
     }
 }
 
+/// Certificates from raw parts, for the verification harness
+#[cfg(latke_verif)]
+impl SigDhCert {
+    pub fn verif_to_bytes(&self) -> Vec<u8> {
+        self.to_bytes()
+    }
+
+    pub fn verif_from_bytes(bytes: &[u8]) -> Self {
+        Self::from_bytes(bytes)
+    }
+}
+
 impl IdCertificate for SigDhCert {
     fn id(&self) -> Id {
         self.id
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index f790fed..72c3941 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -254,6 +254,23 @@ impl SigmaCert {
     }
 }
 
+/// Certificates from raw parts, for the verification harness
+#[cfg(latke_verif)]
+impl SigmaCert {
+    pub fn verif_to_bytes(&self) -> Vec<u8> {
+        self.to_bytes()
+    }
+
+    pub fn verif_from_bytes(dilithium: bool, bytes: &[u8]) -> Option<Self> {
+        let ty = if dilithium {
+            IdSigmaSignatureScheme::Dilithium2
+        } else {
+            IdSigmaSignatureScheme::Ed25519
+        };
+        Self::from_bytes(ty, bytes).ok()
+    }
+}
+
 impl IdCertificate for SigmaCert {
     fn id(&self) -> Id {
         self.id
-- 
2.43.0


From abb311b05b75cb83ee2a44655f5f3c59dc160071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 08/12] fix: an empty message in an encrypted session is a
 decryption failure, not an error

---
 latke/src/eue_transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index 53a36a5..cae1bb2 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -72,8 +72,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         mut rng: R,
         incoming_ciphertext: &[u8],
     ) -> Result<Option<Vec<u8>>, I::Error> {
-        // Decrypt the incoming ciphertext if there is any and we're in real mode
-        let incoming_msg = if incoming_ciphertext.len() > 0 && self.real_mode {
+        // Decrypt the incoming ciphertext if one is due and we're in real mode. Only the initiator's first step has none
+        let incoming_msg = if !self.next_step_is_first && self.real_mode {
             let pt = auth_decrypt(self.msg_key, incoming_ciphertext);
             // If a decryption error occurred, we exit real mode and will just start sending zeros
             if pt.is_err() {
@@ -83,7 +83,7 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
                 Some(pt.unwrap())
             }
         } else {
-            // If the ciphertext is empty or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
+            // If this is the first step or we're not in real mode, then the message is empty or it doesn't matter. Set it to empty
             Some(Vec::new())
         };
 
-- 
2.43.0


From f73b117c4ce4f4a8cf641c009c942dd059d6f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 09/12] verification hooks (cfg latke_verif) for the parts of a
 LATKE password file

---
 latke/src/latke.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latke/src/latke.rs b/latke/src/latke.rs
index dcbaa39..146e83e 100644
--- a/latke/src/latke.rs
+++ b/latke/src/latke.rs
@@ -37,6 +37,14 @@ impl<I: IdentityBasedKeyExchange> Clone for LatkePwfile<I> {
     }
 }
 
+/// The parts of a password file, for the verification harness
+#[cfg(latke_verif)]
+impl<I: IdentityBasedKeyExchange> LatkePwfile<I> {
+    pub fn verif_parts(&self) -> (&I::MainPubkey, &I::Certificate, &I::UserPrivkey) {
+        (&self.mpk, &self.cert, &self.usk)
+    }
+}
+
 #[derive(Copy, Clone)]
 pub enum PeerModel {
     PreSpecified(Id),
-- 
2.43.0


From 24535079c18a48e2bb1913fcc7e5b5ed6d43e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 10/12] fix: a session that was continued by simulated steps
 has no session key

---
 latke/src/ibke/fg_ibke.rs    | 3 +++
 latke/src/ibke/id_hmqv_c.rs  | 3 +++
 latke/src/ibke/id_sig_dh.rs  | 3 +++
 latke/src/ibke/id_sigma_r.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index 97793bc..18c6510 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -299,6 +299,9 @@ impl IdentityBasedKeyExchange for FgIbkeC {
             }
         };
 
+        // A session with simulated steps has no peer and thus no key
+        self.sess_key = None;
+
         // Initiator gets the even steps, responder gets the odd steps
         self.next_step += 2;
 
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index b7fbfe0..5962a9f 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -203,6 +203,9 @@ impl IdentityBasedKeyExchange for IdHmqvC {
             }
         };
 
+        // A session with simulated steps has no peer and thus no key
+        self.output_key = None;
+
         // Increment the step counter. The initiator gets the even steps, the responder the odd steps.
         self.next_step += 2;
 
diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index 3b1f8b4..bddbc7d 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -367,6 +367,9 @@ impl IdentityBasedKeyExchange for IdSigDh {
             _ => panic!("protocol already finished"),
         };
 
+        // A session with simulated steps has no peer and thus no key
+        self.output_key = None;
+
         self.next_step += 2;
 
         out
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index 72c3941..b29dbb5 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -443,6 +443,9 @@ impl IdSigmaR {
             _ => panic!("protocol already finished"),
         };
 
+        // A session with simulated steps has no peer and thus no key
+        self.output_key = None;
+
         self.next_step += 2;
 
         out
-- 
2.43.0


From f916fb3fc81a7f340257c39121f1c72ca3edf24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 11/12] verification hooks (cfg latke_verif): recording of
 secret values

---
 latke/src/auth_enc.rs        |  1 +
 latke/src/chip.rs            |  5 +++++
 latke/src/eue_transform.rs   |  6 ++++++
 latke/src/ibke/fg_ibke.rs    |  7 +++++++
 latke/src/ibke/id_hmqv_c.rs  |  4 ++++
 latke/src/ibke/id_sig_dh.rs  |  4 ++++
 latke/src/ibke/id_sigma_r.rs |  6 ++++++
 latke/src/latke.rs           |  3 +++
 latke/src/lib.rs             | 29 +++++++++++++++++++++++++++++
 latke/src/pake/kc_spake2.rs  |  6 ++++++
 10 files changed, 71 insertions(+)

diff --git a/latke/src/auth_enc.rs b/latke/src/auth_enc.rs
index af1bdc6..a307965 100644
--- a/latke/src/auth_enc.rs
+++ b/latke/src/auth_enc.rs
@@ -28,6 +28,7 @@ pub(crate) fn auth_encrypt<R: RngCore + CryptoRng>(
     msg: &[u8],
 ) -> Vec<u8> {
     let (enc_key, mac_key) = key.split_at(32);
+    verif_secret!(&key);
 
     let mut nonce = [0u8; 12];
     rng.fill_bytes(&mut nonce);
diff --git a/latke/src/chip.rs b/latke/src/chip.rs
index 8753d80..7600e2c 100644
--- a/latke/src/chip.rs
+++ b/latke/src/chip.rs
@@ -54,6 +54,9 @@ impl<P: Pake> Chip<P> {
                 .chain_update(X.compress().as_bytes()),
         );
         let xhat = x + h * y;
+        verif_secret!(y.as_bytes());
+        verif_secret!(Y.compress().as_bytes());
+        verif_secret!(xhat.as_bytes());
 
         ChipPwfile { X, Y, xhat }
     }
@@ -168,6 +171,8 @@ impl<P: Pake> Chip<P> {
         );
         let alpha = other_R * self.r;
         let beta = (other_R + other_X + (self.pwfile.Y * other_h)) * (self.r + self.pwfile.xhat);
+        verif_secret!(alpha.compress().as_bytes());
+        verif_secret!(beta.compress().as_bytes());
         let tr = if self.role == PartyRole::Initiator {
             self.tr_sent
                 .iter()
diff --git a/latke/src/eue_transform.rs b/latke/src/eue_transform.rs
index cae1bb2..9db0616 100644
--- a/latke/src/eue_transform.rs
+++ b/latke/src/eue_transform.rs
@@ -28,6 +28,8 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         let hk = MyKdf::from_prk(&self.chain_key).unwrap();
         hk.expand(b"chain key", &mut self.chain_key).unwrap();
         hk.expand(b"msg key", &mut self.msg_key).unwrap();
+        verif_secret!(&self.chain_key);
+        verif_secret!(&self.msg_key);
     }
 
     pub fn new_session<R: RngCore + CryptoRng>(
@@ -51,6 +53,10 @@ impl<I: IdentityBasedKeyExchange> Eue<I> {
         hk.expand_multi_info(&[&b"init msg key"[..], &ssid[..]], &mut msg_key)
             .unwrap();
 
+        verif_secret!(&initial_key);
+        verif_secret!(&chain_key);
+        verif_secret!(&msg_key);
+
         let next_step_is_first = role == PartyRole::Initiator;
 
         Self {
diff --git a/latke/src/ibke/fg_ibke.rs b/latke/src/ibke/fg_ibke.rs
index 18c6510..846cef4 100644
--- a/latke/src/ibke/fg_ibke.rs
+++ b/latke/src/ibke/fg_ibke.rs
@@ -78,6 +78,7 @@ impl IdentityBasedKeyExchange for FgIbkeC {
                 .chain_update(X.compress().as_bytes()),
         );
         let xhat = x + h * msk;
+        verif_secret!(xhat.as_bytes());
 
         FgIbkeCert { id: *id, X, xhat }
     }
@@ -177,6 +178,9 @@ impl IdentityBasedKeyExchange for FgIbkeC {
                 )
                 .unwrap();
                 hk.expand(b"fg-expand", &mut sess_hash).unwrap();
+                verif_secret!(alpha.compress().as_bytes());
+                verif_secret!(beta.compress().as_bytes());
+                verif_secret!(&sess_hash[64..]);
                 let (macs, sess_key) = sess_hash.split_at(64);
                 let (mac0, mac1) = macs.split_at(32);
                 self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
@@ -232,6 +236,9 @@ impl IdentityBasedKeyExchange for FgIbkeC {
                 )
                 .unwrap();
                 hk.expand(b"fg-expand", &mut sess_hash).unwrap();
+                verif_secret!(alpha.compress().as_bytes());
+                verif_secret!(beta.compress().as_bytes());
+                verif_secret!(&sess_hash[64..]);
                 let (macs, sess_key) = sess_hash.split_at(64);
                 let (mac0, mac1) = macs.split_at(32);
                 self.sess_key = Some(sess_key.try_into().unwrap());
diff --git a/latke/src/ibke/id_hmqv_c.rs b/latke/src/ibke/id_hmqv_c.rs
index 5962a9f..b641c3c 100644
--- a/latke/src/ibke/id_hmqv_c.rs
+++ b/latke/src/ibke/id_hmqv_c.rs
@@ -280,6 +280,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
 
                 // Extract sigma to a session key and 2 MACs
                 let hk = MyKdf::from_prk(sigma.compress().as_bytes()).unwrap();
+                verif_secret!(sigma.compress().as_bytes());
                 let mut output_key = SessKey::default();
                 let mut mac0 = [0u8; 32];
                 let mut mac1 = [0u8; 32];
@@ -290,6 +291,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
                 hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                     .unwrap();
                 self.macs = Some((mac0, mac1));
+                verif_secret!(&output_key);
                 self.output_key = Some(output_key);
 
                 // Send the ephemeral public key, mac0, and certificate
@@ -347,6 +349,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
 
                 // Extract sigma to a session key and 2 MACs
                 let hk = MyKdf::from_prk(sigma.compress().as_bytes()).unwrap();
+                verif_secret!(sigma.compress().as_bytes());
                 let mut output_key = SessKey::default();
                 let mut mac0 = [0u8; 32];
                 let mut mac1 = [0u8; 32];
@@ -356,6 +359,7 @@ impl IdentityBasedKeyExchange for IdHmqvC {
                     .unwrap();
                 hk.expand_multi_info(&[&self.ssid, b"sess key"], &mut output_key)
                     .unwrap();
+                verif_secret!(&output_key);
                 self.output_key = Some(output_key);
 
                 // Verify the given mac0
diff --git a/latke/src/ibke/id_sig_dh.rs b/latke/src/ibke/id_sig_dh.rs
index bddbc7d..6194158 100644
--- a/latke/src/ibke/id_sig_dh.rs
+++ b/latke/src/ibke/id_sig_dh.rs
@@ -268,6 +268,8 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 )
                 .unwrap();
                 self.output_key = Some(sess_key);
+                verif_secret!(&[z1.to_bytes(), z2.to_bytes(), z3.to_bytes(), z4.to_bytes()].concat());
+                verif_secret!(&sess_key);
                 self.done = true;
 
                 // Send the ephemeral pubkey, the signature, and the cert
@@ -335,6 +337,8 @@ impl IdentityBasedKeyExchange for IdSigDh {
                 )
                 .unwrap();
                 self.output_key = Some(sess_key);
+                verif_secret!(&[z1.to_bytes(), z2.to_bytes(), z3.to_bytes(), z4.to_bytes()].concat());
+                verif_secret!(&sess_key);
                 self.done = true;
 
                 None
diff --git a/latke/src/ibke/id_sigma_r.rs b/latke/src/ibke/id_sigma_r.rs
index b29dbb5..45fba76 100644
--- a/latke/src/ibke/id_sigma_r.rs
+++ b/latke/src/ibke/id_sigma_r.rs
@@ -498,6 +498,9 @@ impl IdSigmaR {
                 hk.expand(b"enc_key_a", &mut enc_key_a).unwrap();
                 hk.expand(b"enc_key_b", &mut enc_key_b).unwrap();
                 self.output_key = Some(output_key);
+                verif_secret!(shared_secret.as_slice());
+                verif_secret!(&output_key);
+                verif_secret!(&mac_key);
                 self.mac_key = Some(mac_key);
                 self.enc_keys = Some((enc_key_a, enc_key_b));
 
@@ -534,6 +537,9 @@ impl IdSigmaR {
                 hk.expand(b"enc_key_a", &mut enc_key_a).unwrap();
                 hk.expand(b"enc_key_b", &mut enc_key_b).unwrap();
                 self.output_key = Some(output_key);
+                verif_secret!(shared_secret.as_slice());
+                verif_secret!(&output_key);
+                verif_secret!(&mac_key);
                 self.mac_key = Some(mac_key);
                 self.enc_keys = Some((enc_key_a, enc_key_b));
 
diff --git a/latke/src/latke.rs b/latke/src/latke.rs
index 146e83e..fe77309 100644
--- a/latke/src/latke.rs
+++ b/latke/src/latke.rs
@@ -59,6 +59,7 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
     ) -> LatkePwfile<I> {
         // Use the password to generate the main keypair
         let seed = MyHash256::digest(password);
+        verif_secret!(&seed);
         let mut pw_based_rng = MyRng::from_seed(seed.into());
         let (mpk, msk) = I::gen_main_keypair(&mut pw_based_rng);
 
@@ -185,6 +186,8 @@ impl<I: IdentityBasedKeyExchange, P: Pake> Latke<I, P> {
         let (_, hk) = trh.finalize();
         let mut sess_key = [0u8; 32];
         hk.expand(b"latke-final", &mut sess_key).unwrap();
+        verif_secret!(&ibke_sess_key);
+        verif_secret!(&sess_key);
 
         (id, sess_key)
     }
diff --git a/latke/src/lib.rs b/latke/src/lib.rs
index 0755541..71e3998 100644
--- a/latke/src/lib.rs
+++ b/latke/src/lib.rs
@@ -5,6 +5,14 @@ use hkdf::{
 };
 use rand_core::{CryptoRng, RngCore};
 
+/// Notes a secret value for the verification harness. Does nothing without `--cfg latke_verif`
+macro_rules! verif_secret {
+    ($bytes:expr) => {
+        #[cfg(latke_verif)]
+        crate::verif_hooks::secret($bytes);
+    };
+}
+
 mod auth_enc;
 pub mod chip;
 mod eue_transform;
@@ -124,6 +132,27 @@ pub mod verif_hooks {
 
     pub const TAGLEN: usize = auth_enc::TAGLEN;
 
+    static mut SECRETS: Vec<Vec<u8>> = Vec::new();
+    static mut SECRETS_ON: bool = false;
+
+    /// Starts recording secrets (single-threaded harnesses only)
+    pub fn record_secrets() {
+        unsafe { SECRETS_ON = true }
+    }
+
+    pub(crate) fn secret(bytes: &[u8]) {
+        unsafe {
+            if SECRETS_ON {
+                (*core::ptr::addr_of_mut!(SECRETS)).push(bytes.to_vec())
+            }
+        }
+    }
+
+    /// The secrets noted so far
+    pub fn secrets() -> Vec<Vec<u8>> {
+        unsafe { (*core::ptr::addr_of!(SECRETS)).clone() }
+    }
+
     pub fn auth_encrypt<R: RngCore + CryptoRng>(rng: R, key: [u8; 64], msg: &[u8]) -> Vec<u8> {
         auth_enc::auth_encrypt(rng, key, msg)
     }
diff --git a/latke/src/pake/kc_spake2.rs b/latke/src/pake/kc_spake2.rs
index f11f316..489c0f5 100644
--- a/latke/src/pake/kc_spake2.rs
+++ b/latke/src/pake/kc_spake2.rs
@@ -73,6 +73,8 @@ impl Pake for KcSpake2 {
                 // Out PAKE msg is the message computed in the constructor
                 let out_msg = self.first_outgoing_message.clone();
 
+                verif_secret!(&pake_key);
+
                 // From the PAKE key, derive the final session key and two MACs over the transcript
                 let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                 let hk = MyKdf::from_prk(&pake_key).unwrap();
@@ -86,6 +88,7 @@ impl Pake for KcSpake2 {
                 let (macs, output_key) = sess_hash.split_at(64);
                 let (mac0, mac1) = macs.split_at(32);
                 self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
+                verif_secret!(output_key);
                 self.output_key = Some(output_key.try_into().unwrap());
 
                 // Send (pake_msg, mac1)
@@ -102,6 +105,8 @@ impl Pake for KcSpake2 {
                     core::mem::replace(&mut self.pake_state, None).unwrap();
                 let pake_key = pake_state.finish(&incoming_pake_msg).unwrap();
 
+                verif_secret!(&pake_key);
+
                 // From the PAKE key, derive the final session key and two MACs over the transcript
                 let mut sess_hash = [0u8; 64 + core::mem::size_of::<SessKey>()];
                 let hk = MyKdf::from_prk(&pake_key).unwrap();
@@ -121,6 +126,7 @@ impl Pake for KcSpake2 {
                 let (macs, output_key) = sess_hash.split_at(64);
                 let (mac0, mac1) = macs.split_at(32);
                 self.macs = Some((mac0.try_into().unwrap(), mac1.try_into().unwrap()));
+                verif_secret!(output_key);
                 self.output_key = Some(output_key.try_into().unwrap());
 
                 // Verify the MAC
-- 
2.43.0


From b396a10be04ce6e484123372c8e000fab4992950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 12/12] Add Saber verification hooks (cfg latke_verif)

---
 saber-rust/src/generic.rs     |  25 +++++
 saber-rust/src/lib.rs         |   3 +
 saber-rust/src/non_generic.rs | 168 ++++++++++++++++++++++++++++++++++
 saber-rust/src/verif_hooks.rs | 103 +++++++++++++++++++++
 4 files changed, 299 insertions(+)
 create mode 100644 saber-rust/src/verif_hooks.rs

diff --git a/saber-rust/src/generic.rs b/saber-rust/src/generic.rs
index c47f20c..054d826 100644
--- a/saber-rust/src/generic.rs
+++ b/saber-rust/src/generic.rs
@@ -642,3 +642,28 @@ pub(crate) fn declassify_bytes(dest: &mut [u8], src: &[U8]) {
         *o = i.declassify();
     }
 }
+
+#[cfg(latke_verif)]
+pub(crate) mod verif_hooks {
+    use super::*;
+
+    pub(crate) fn bytes_eq_mask(a: &[u8], b: &[u8]) -> U8 {
+        super::bytes_eq_mask(a, b)
+    }
+
+    pub(crate) fn gen_secret<I: SaberImpl>(seed: &[u8]) -> I::Vector {
+        super::gen_secret::<I>(seed)
+    }
+
+    pub(crate) fn gen_matrix<I: SaberImpl>(seed: &[u8]) -> I::Matrix {
+        super::gen_matrix::<I>(seed)
+    }
+
+    pub(crate) fn recon_data_gen<I: SaberImpl>(dest: &mut [u8], poly: &Poly) {
+        super::recon_data_gen::<I>(dest, poly)
+    }
+
+    pub(crate) fn recon<I: SaberImpl>(rec: &[u8], poly: &Poly) -> Poly {
+        super::recon::<I>(rec, poly)
+    }
+}
diff --git a/saber-rust/src/lib.rs b/saber-rust/src/lib.rs
index fbeb1b9..38770f2 100644
--- a/saber-rust/src/lib.rs
+++ b/saber-rust/src/lib.rs
@@ -110,6 +110,9 @@ mod non_generic;
 mod generic;
 mod poly;
 
+#[cfg(latke_verif)]
+pub mod verif_hooks;
+
 pub mod firesaber;
 pub mod lightsaber;
 pub mod saber;
diff --git a/saber-rust/src/non_generic.rs b/saber-rust/src/non_generic.rs
index 0b189d5..a6db088 100644
--- a/saber-rust/src/non_generic.rs
+++ b/saber-rust/src/non_generic.rs
@@ -333,6 +333,174 @@ macro_rules! __generate_non_generic_impl {
             generic::decapsulate_ind_cpa::<$struct>(ct, sk)
         }
 
+        /// Access to private items for the verification harness
+        #[cfg(latke_verif)]
+        pub mod verif_hooks {
+            use super::*;
+            use crate::generic::{Matrix as _, SaberImpl as _, Vector as _};
+            use crate::generic::{INDCPAPublicKey as _, INDCPASecretKey as _, SecretKey as _};
+            use crate::verif_hooks::{coeffs, poly, Coeffs, Stream};
+
+            pub const RANK: usize = K;
+            pub const WIDTH: usize = MU;
+            pub const DELTA: usize = RECON_SIZE;
+
+            fn vector(v: &[Coeffs]) -> super::Vector {
+                let mut r = super::Vector::default();
+                for (x, y) in r.polys_mut().iter_mut().zip(v.iter()) {
+                    *x = poly(y);
+                }
+                r
+            }
+
+            fn entries(v: &super::Vector) -> Vec<Coeffs> {
+                v.polys().iter().map(|p| coeffs(p)).collect()
+            }
+
+            fn matrix(m: &[Vec<Coeffs>]) -> super::Matrix {
+                let mut r = super::Matrix::default();
+                for (x, y) in r.vecs_mut().iter_mut().zip(m.iter()) {
+                    *x = vector(y);
+                }
+                r
+            }
+
+            pub fn dot(a: &[Coeffs], b: &[Coeffs]) -> Coeffs {
+                coeffs(&generic::Vector::<$struct>::mul(vector(a), &vector(b)))
+            }
+
+            pub fn add_vec(a: &[Coeffs], b: &[Coeffs]) -> Vec<Coeffs> {
+                entries(&generic::Vector::<$struct>::add_vec(
+                    vector(a),
+                    &vector(b),
+                ))
+            }
+
+            pub fn mat_mul(m: &[Vec<Coeffs>], v: &[Coeffs]) -> Vec<Coeffs> {
+                entries(&generic::Matrix::<$struct, super::Vector>::mul(
+                    matrix(m),
+                    &vector(v),
+                ))
+            }
+
+            pub fn mat_mul_transpose(m: &[Vec<Coeffs>], v: &[Coeffs]) -> Vec<Coeffs> {
+                entries(&generic::Matrix::<$struct, super::Vector>::mul_transpose(
+                    matrix(m),
+                    &vector(v),
+                ))
+            }
+
+            pub fn pack_q(v: &[Coeffs]) -> Vec<u8> {
+                let mut b = vec![0; K * 13 * 256 / 8];
+                vector(v).read_mod_q(&mut b);
+                b
+            }
+
+            pub fn unpack_q(b: &[u8]) -> Vec<Coeffs> {
+                entries(&super::Vector::from_bytes_mod_q(b))
+            }
+
+            pub fn pack_p(v: &[Coeffs]) -> Vec<u8> {
+                let mut b = vec![0; K * 10 * 256 / 8];
+                vector(v).read_mod_p(&mut b);
+                b
+            }
+
+            pub fn unpack_p(b: &[u8]) -> Vec<Coeffs> {
+                entries(&super::Vector::from_bytes_mod_p(b))
+            }
+
+            pub fn recon_data_gen(p: &Coeffs) -> Vec<u8> {
+                let mut b = vec![0; RECONBYTES_KEM];
+                generic::verif_hooks::recon_data_gen::<$struct>(&mut b, &poly(p));
+                b
+            }
+
+            pub fn recon(rec: &[u8], p: &Coeffs) -> Coeffs {
+                coeffs(&generic::verif_hooks::recon::<$struct>(rec, &poly(p)))
+            }
+
+            /// The noise polynomial sampled from a stream of bytes
+            pub fn cbd(stream: &[u8]) -> (Coeffs, usize) {
+                let mut s = Stream(stream);
+                let p = $struct::cbd(&mut s);
+                (coeffs(&p), stream.len() - s.0.len())
+            }
+
+            pub fn gen_secret(seed: &[u8]) -> Vec<Coeffs> {
+                entries(&generic::verif_hooks::gen_secret::<$struct>(seed))
+            }
+
+            pub fn gen_matrix(seed: &[u8]) -> Vec<Vec<Coeffs>> {
+                let m = generic::verif_hooks::gen_matrix::<$struct>(seed);
+                m.vecs().iter().map(|v| entries(v)).collect()
+            }
+
+            pub fn keypair(
+                seed: [u8; SEEDBYTES],
+                noiseseed: [u8; COINBYTES],
+            ) -> (INDCPAPublicKey, INDCPASecretKey) {
+                generic::indcpa_kem_keypair_deterministic::<$struct>(seed, noiseseed)
+            }
+
+            pub fn encrypt(m: &[u8], noiseseed: &[u8], pk: &INDCPAPublicKey) -> Ciphertext {
+                generic::indcpa_kem_enc::<$struct>(m, noiseseed, pk)
+            }
+
+            pub fn decrypt(sk: &INDCPASecretKey, ct: &Ciphertext) -> [u8; MESSAGEBYTES] {
+                generic::indcpa_kem_dec::<$struct>(sk, ct)
+            }
+
+            pub fn new_pk(v: &[Coeffs], seed: [u8; SEEDBYTES]) -> INDCPAPublicKey {
+                INDCPAPublicKey::new(vector(v), seed)
+            }
+
+            pub fn pk_parts(pk: &INDCPAPublicKey) -> (Vec<Coeffs>, [u8; SEEDBYTES]) {
+                (entries(pk.vec()), *pk.seed())
+            }
+
+            pub fn new_sk(v: &[Coeffs]) -> INDCPASecretKey {
+                INDCPASecretKey::new(vector(v))
+            }
+
+            pub fn sk_vec(sk: &INDCPASecretKey) -> Vec<Coeffs> {
+                entries(&sk.vec())
+            }
+
+            pub fn sk_to_bytes(sk: &INDCPASecretKey) -> Vec<u8> {
+                let b: INDCPASecretKeyBytes = generic::INDCPASecretKey::<$struct>::to_bytes(sk);
+                b.0.to_vec()
+            }
+
+            pub fn sk_from_bytes(b: &[u8]) -> Result<INDCPASecretKey, crate::Error> {
+                generic::INDCPASecretKey::<$struct>::from_bytes(b)
+            }
+
+            pub fn new_cca_sk(
+                z: [u8; KEYBYTES],
+                hash_pk: [u8; HASHBYTES],
+                pk: INDCPAPublicKey,
+                sk: INDCPASecretKey,
+            ) -> SecretKey {
+                SecretKey::new(z, hash_pk, generic::PublicKey::new(pk), sk)
+            }
+
+            /// (rejection value, hash of the public key, public key, decryption key)
+            pub fn cca_sk_parts(
+                sk: &SecretKey,
+            ) -> (
+                [u8; KEYBYTES],
+                [u8; HASHBYTES],
+                &INDCPAPublicKey,
+                &INDCPASecretKey,
+            ) {
+                (*sk.z(), *sk.hash_pk(), &sk.pk_cca.pk_cpa, &sk.sk_cpa)
+            }
+
+            pub fn cca_pk_cpa(pk: &PublicKey) -> &INDCPAPublicKey {
+                &pk.pk_cpa
+            }
+        }
     };
 }
 
diff --git a/saber-rust/src/verif_hooks.rs b/saber-rust/src/verif_hooks.rs
new file mode 100644
index 0000000..702d18a
--- /dev/null
+++ b/saber-rust/src/verif_hooks.rs
@@ -0,0 +1,103 @@
+//! Access to private items for the verification harness (built only with `--cfg latke_verif`)
+use crate::params::N;
+use crate::poly::Poly;
+use secret_integers::{U16, U8};
+use sha3::digest::XofReader;
+
+pub type Coeffs = [u16; N];
+
+pub(crate) fn poly(c: &Coeffs) -> Poly {
+    let mut p = Poly::default();
+    for (x, y) in p.coeffs.iter_mut().zip(c.iter()) {
+        *x = U16::from(*y);
+    }
+    p
+}
+
+pub(crate) fn coeffs(p: &Poly) -> Coeffs {
+    let mut c = [0; N];
+    for (x, y) in c.iter_mut().zip(p.coeffs.iter()) {
+        *x = y.declassify();
+    }
+    c
+}
+
+pub fn add(a: &Coeffs, b: &Coeffs) -> Coeffs {
+    coeffs(&(poly(a) + poly(b)))
+}
+
+pub fn sub(a: &Coeffs, b: &Coeffs) -> Coeffs {
+    coeffs(&(poly(a) - poly(b)))
+}
+
+pub fn mul(a: &Coeffs, b: &Coeffs) -> Coeffs {
+    coeffs(&(poly(a) * poly(b)))
+}
+
+pub fn add_const(a: &Coeffs, b: u16) -> Coeffs {
+    coeffs(&(poly(a) + U16::from(b)))
+}
+
+pub fn sub_const(a: &Coeffs, b: u16) -> Coeffs {
+    coeffs(&(poly(a) - U16::from(b)))
+}
+
+pub fn shl(a: &Coeffs, b: u32) -> Coeffs {
+    coeffs(&(poly(a) << b))
+}
+
+pub fn shr(a: &Coeffs, b: u32) -> Coeffs {
+    coeffs(&(poly(a) >> b))
+}
+
+pub fn reduce(a: &Coeffs, m: u16) -> Coeffs {
+    coeffs(&poly(a).reduce(m))
+}
+
+/// Decodes `bytes` at `width` bits per coefficient
+pub fn unpack(width: usize, bytes: &[u8]) -> Coeffs {
+    coeffs(&match width {
+        3 => Poly::from_bytes_3bit(bytes),
+        4 => Poly::from_bytes_4bit(bytes),
+        6 => Poly::from_bytes_6bit(bytes),
+        10 => Poly::from_bytes_10bit(bytes),
+        13 => Poly::from_bytes_13bit(bytes),
+        _ => unreachable!(),
+    })
+}
+
+/// Encodes at `width` bits per coefficient
+pub fn pack(width: usize, a: &Coeffs, bytes: &mut [u8]) {
+    let p = poly(a);
+    match width {
+        3 => p.read_bytes_3bit(bytes),
+        4 => p.read_bytes_4bit(bytes),
+        6 => p.read_bytes_6bit(bytes),
+        10 => p.read_bytes_10bit(bytes),
+        13 => p.read_bytes_13bit(bytes),
+        _ => unreachable!(),
+    }
+}
+
+pub fn from_msg(msg: &[u8]) -> Coeffs {
+    coeffs(&Poly::from_msg(msg))
+}
+
+pub fn to_msg(a: &Coeffs, msg: &mut [u8]) {
+    poly(a).read_bytes_msg(msg)
+}
+
+pub fn bytes_eq_mask(a: &[u8], b: &[u8]) -> u8 {
+    U8::declassify(crate::generic::verif_hooks::bytes_eq_mask(a, b))
+}
+
+/// A stream of given bytes
+pub struct Stream<'a>(pub &'a [u8]);
+
+impl<'a> XofReader for Stream<'a> {
+    fn read(&mut self, buf: &mut [u8]) {
+        let (x, y) = self.0.split_at(buf.len());
+        buf.copy_from_slice(x);
+        self.0 = y;
+    }
+}
-- 
2.43.0

