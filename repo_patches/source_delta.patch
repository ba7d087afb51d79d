From 77a139327a1dc464fcba31c60f7f4cb097d436d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 1/9] fix: report too short and inconsistent incoming messages
 instead of panicking

---
 src/encryption/chacha20_poly1305_aead.rs |  4 +++
 src/reader.rs                            | 31 +++++++++++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..89b6af7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -45,6 +45,7 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
+    check_len(incoming_data, MAGIC_VALUE_END)?;
     if incoming_data[..MAGIC_VALUE_END] == MAGIC_VALUE {
         // Data are not encrypted
         data_encrypted = false;
@@ -61,20 +62,22 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
+    check_len(&decrypted_data, MAGIC_VALUE_END)?;
     if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    check_len(&decrypted_data, VERSION_END)?;
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    check_len(&decrypted_data, ENCAPSULED_MSG_BEGIN)?;
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -84,20 +87,38 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if encapsuled_msg_size < type_headers_len as u64
+        || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+    {
+        // The announced size must cover the type headers and must not exceed the received data
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
-            data: decrypted_data,
             user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
+            data: decrypted_data,
             msg_type_headers,
         })
     }
 }
 
+/// Check that data contain at least `min_len` bytes
+#[inline]
+fn check_len(data: &[u8], min_len: usize) -> Result<()> {
+    if data.len() < min_len {
+        Err(IncomingMsgErr::MessageTooShort.into())
+    } else {
+        Ok(())
+    }
+}
+
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    check_len(type_headers, MSG_TYPE_LEN)?;
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + NONCE_SIZE)?;
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,6 +129,7 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            check_len(type_headers, SIG_PUBKEY_BEGIN + 32)?;
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
@@ -133,6 +155,7 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             }
         }
         ACK_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + CHALLENGE_SIZE)?;
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From a6b0254ad320d648e8eb1e9ddc5b7f71022e2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 2/9] fix: write whole messages, signatures and tags on writers
 that accept partial writes

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..90ec107 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From 62f83c588d6dd803d00fae3a2d0a4178e00aba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 3/9] fix: do not adopt the signer of a connect message before
 verifying its signature

---
 src/minimal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..550c3d3 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,11 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Get peer sig pubkey (only now that the signature has been verified)
+                if self.peer_sig_pubkey.is_none() {
+                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+                }
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From 604e002dc2b7a6076aa93c2eaf853e34ac710556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 4/9] fix: fail the connection when the key agreement fails

---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 550c3d3..ce385d2 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -214,7 +214,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From f2edffb4bc6ab74c581d6668461375ba1bf35bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 5/9] fix: refuse duplicates of user messages received before
 the negotiation completes

---
 src/minimal.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index ce385d2..f58bb80 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -47,6 +47,8 @@ pub struct MinimalSecureLayer {
     peer_epk: Option<Vec<u8>>,
     peer_sig_pubkey: Option<Vec<u8>>,
     pub(crate) status: SecureLayerStatus,
+    /// Nonces of the messages in temporary stack
+    tmp_stack_nonces: BTreeSet<u64>,
     tmp_stack_user_msgs: Vec<Vec<u8>>,
 }
 
@@ -68,6 +70,7 @@ impl MinimalSecureLayer {
                 next_nonce_expected: self.next_nonce_expected,
                 next_nonce_sent: self.next_nonce_sent,
                 status: SecureLayerStatus::NegotiationSuccessful,
+                tmp_stack_nonces: self.tmp_stack_nonces.clone(),
                 tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),
             })
         } else {
@@ -104,6 +107,7 @@ impl MinimalSecureLayer {
             next_nonce_expected: 0,
             next_nonce_sent: 0,
             status: SecureLayerStatus::init(),
+            tmp_stack_nonces: BTreeSet::new(),
             tmp_stack_user_msgs: Vec::new(),
         };
 
@@ -132,6 +136,7 @@ impl MinimalSecureLayer {
     /// Drain temporary stack of remote messages
     pub fn drain_tmp_stack_user_msgs(&mut self) -> Result<Vec<Message>> {
         let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
+        self.tmp_stack_nonces.clear();
         let mut msgs = Vec::with_capacity(bin_msgs.len());
         for bin_msg in bin_msgs {
             if let Some(msg) = self.read_inner(&bin_msg, false)? {
@@ -247,7 +252,10 @@ impl MinimalSecureLayer {
             }
             MsgTypeHeaders::UserMsg { nonce } => {
                 // Verify nonce
-                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {
+                if nonce < self.next_nonce_expected
+                    || self.orphan_nonce_list.contains(&nonce)
+                    || self.tmp_stack_nonces.contains(&nonce)
+                {
                     return Err(IncomingMsgErr::InvalidNonce.into());
                 }
 
@@ -256,6 +264,7 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
+                    self.tmp_stack_nonces.insert(nonce);
                     self.tmp_stack_user_msgs.push(data);
                     return Ok(None);
                 }
-- 
2.43.0


From affb06ed93bf95f3e17841ae9c0300eab1977cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 6/9] fix: refuse the plain text message format with an error
 instead of panicking

---
 src/complete/serde.rs              | 2 ++
 src/complete/serde/deserializer.rs | 2 +-
 src/complete/serde/serializer.rs   | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/complete/serde.rs b/src/complete/serde.rs
index c1940bc..7130649 100644
--- a/src/complete/serde.rs
+++ b/src/complete/serde.rs
@@ -56,6 +56,8 @@ pub enum SerdeError {
     #[cfg(feature = "json")]
     /// Json error
     JsonError(serde_json::Error),
+    /// There is no serializer for this message format
+    UnsupportedMessageFormat,
     /// For the "raw binary" format, use the functions suffixed by _bin
     UseSuffixedBinFunctions,
     /// Not copyable error for linter
diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..29d0987 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -101,6 +101,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        MessageFormat::Utf8PlainText => Err(SerdeError::UnsupportedMessageFormat),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..2407943 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -116,6 +116,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        MessageFormat::Utf8PlainText => Err(SerdeError::UnsupportedMessageFormat),
     }
 }
-- 
2.43.0


From 1d6ab6caf0b3ae0fd1862a3adac35fc59d263500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 7/9] fix: refuse our own connect message when it is reflected
 to us

---
 src/minimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index f58bb80..9d6e778 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -194,6 +194,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
+                // Refuse our own connect message (reflected to us)
+                if peer_ephemeral_pk[..] == *self.ephemeral_pubkey.as_ref() {
+                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
+                }
+
                 // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
-- 
2.43.0


From 6011e24f20930c1f4ac9b4beda115270d65fa160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 8/9] fix: a forged ack message received too early must not
 hide the accepted connect message

---
 src/complete.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..dfa0e73 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -23,6 +23,7 @@ pub mod writer;
 #[cfg(feature = "ser")]
 pub use self::serde::IncomingMessage;
 
+use crate::errors::IncomingMsgErr;
 use crate::{Error, Message, MinimalSecureLayer, Result, SecureLayerConfig, Seed32};
 use flate2::write::{DeflateDecoder, DeflateEncoder};
 use message::IncomingBinaryMessage;
@@ -130,9 +131,13 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
+                    let early_ack_msg = match self.minimal_secure_layer.take_ack_msg_recv_too_early()
                     {
+                        // The ack message received too early was not from this peer, ignore it
+                        Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidHashOrSig)) => None,
+                        result => result?,
+                    };
+                    if let Some(Message::Ack { custom_data }) = early_ack_msg {
                         messages.push(IncomingBinaryMessage::Ack {
                             custom_data: if let Some(custom_data) = custom_data {
                                 Some(Self::uncompress(&custom_data)?)
-- 
2.43.0


From e584a1fca3b69ddc93f0d7d95cb92d8ef1463904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 9/9] fix: a clone must keep the peer's public keys to treat
 replayed handshakes like the original

---
 src/minimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 9d6e778..fbf0056 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -65,8 +65,8 @@ impl MinimalSecureLayer {
                 ephemeral_kp: None,
                 ephemeral_pubkey: self.ephemeral_pubkey.clone(),
                 orphan_nonce_list: self.orphan_nonce_list.clone(),
-                peer_epk: None,
-                peer_sig_pubkey: None,
+                peer_epk: self.peer_epk.clone(),
+                peer_sig_pubkey: self.peer_sig_pubkey.clone(),
                 next_nonce_expected: self.next_nonce_expected,
                 next_nonce_sent: self.next_nonce_sent,
                 status: SecureLayerStatus::NegotiationSuccessful,
-- 
2.43.0

