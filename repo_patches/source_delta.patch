From b99853a35b2afaeb96901cec484750009dd066a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 01/13] fix: reject truncated or mis-sized messages instead of
 panicking

The reader indexed the received bytes at fixed offsets and trusted the
announced size, so a short message or a wrong size field made it panic.
---
 src/reader.rs | 64 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..6def5be 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -21,6 +21,7 @@ use crate::errors::IncomingMsgErr;
 use crate::message::MsgTypeHeaders;
 use crate::signature::SIG_ALGO_ED25519;
 use crate::{Error, Result};
+use std::convert::TryFrom;
 use std::io::{BufWriter, Write};
 
 const MAGIC_VALUE_END: usize = 4;
@@ -45,7 +46,7 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
-    if incoming_data[..MAGIC_VALUE_END] == MAGIC_VALUE {
+    if incoming_data.starts_with(&MAGIC_VALUE) {
         // Data are not encrypted
         data_encrypted = false;
         buffer.write(incoming_data).map_err(Error::WriteError)?;
@@ -61,20 +62,23 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
-    if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
+    if !decrypted_data.starts_with(&MAGIC_VALUE) {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
-    if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
+    if get_part(&decrypted_data, MAGIC_VALUE_END, VERSION_END)? != &CURRENT_VERSION[..] {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
-    buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    buffer_8_bytes.copy_from_slice(get_part(
+        &decrypted_data,
+        VERSION_END,
+        ENCAPSULED_MSG_BEGIN,
+    )?);
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -85,21 +89,40 @@ pub(crate) fn read(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
     } else {
+        let user_msg_begin = ENCAPSULED_MSG_BEGIN + type_headers_len;
+
+        // The announced size must cover the type headers and must not exceed the received data
+        let user_msg_end = usize::try_from(encapsuled_msg_size)
+            .ok()
+            .and_then(|size| size.checked_add(ENCAPSULED_MSG_BEGIN))
+            .filter(|end| user_msg_begin <= *end && *end <= decrypted_data.len())
+            .ok_or(IncomingMsgErr::MessageTooShort)?;
+
         Ok(DecryptedIncomingData {
             data: decrypted_data,
-            user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
+            user_msg_begin,
             user_msg_end,
             msg_type_headers,
         })
     }
 }
 
+/// Get a part of a message, or an error if the message is too short to contain it
+fn get_part(data: &[u8], begin: usize, end: usize) -> Result<&[u8]> {
+    data.get(begin..end)
+        .ok_or_else(|| IncomingMsgErr::MessageTooShort.into())
+}
+
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
     // Match message type
-    match &type_headers[..MSG_TYPE_LEN] {
+    match get_part(type_headers, 0, MSG_TYPE_LEN)? {
         USER_MSG_TYPE => {
             let mut nonce = [0u8; NONCE_SIZE];
-            nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
+            nonce.copy_from_slice(get_part(
+                type_headers,
+                MSG_TYPE_LEN,
+                MSG_TYPE_LEN + NONCE_SIZE,
+            )?);
             Ok((
                 MsgTypeHeaders::UserMsg {
                     nonce: u64::from_be_bytes(nonce),
@@ -110,9 +133,13 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
         CONNECT_MSG_TYPE => {
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
-            peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
+            peer_ephemeral_pk.copy_from_slice(get_part(
+                type_headers,
+                MSG_TYPE_LEN,
+                MSG_TYPE_LEN + EPK_SIZE,
+            )?);
             // Read SIG_ALGO and SIG_PUBKEY
-            match &type_headers[(MSG_TYPE_LEN + EPK_SIZE)..(SIG_PUBKEY_BEGIN)] {
+            match get_part(type_headers, MSG_TYPE_LEN + EPK_SIZE, SIG_PUBKEY_BEGIN)? {
                 SIG_ALGO_ED25519 => {
                     let mut sig_algo = [0u8; SIG_ALGO_LEN];
                     sig_algo.copy_from_slice(
@@ -123,8 +150,12 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
                         MsgTypeHeaders::Connect {
                             peer_ephemeral_pk,
                             sig_algo,
-                            sig_pubkey: type_headers[SIG_PUBKEY_BEGIN..(SIG_PUBKEY_BEGIN + 32)]
-                                .to_vec(),
+                            sig_pubkey: get_part(
+                                type_headers,
+                                SIG_PUBKEY_BEGIN,
+                                SIG_PUBKEY_BEGIN + 32,
+                            )?
+                            .to_vec(),
                         },
                         SIG_PUBKEY_BEGIN + 32,
                     ))
@@ -134,8 +165,11 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
         }
         ACK_MSG_TYPE => {
             let mut challenge = [0u8; CHALLENGE_SIZE];
-            challenge
-                .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
+            challenge.copy_from_slice(get_part(
+                type_headers,
+                MSG_TYPE_LEN,
+                MSG_TYPE_LEN + CHALLENGE_SIZE,
+            )?);
             Ok((
                 MsgTypeHeaders::Ack { challenge },
                 MSG_TYPE_LEN + CHALLENGE_SIZE,
-- 
2.43.0


From 31f17fdcaa479813184c7976d7fce57a11c20ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 02/13] fix: learn the peer signature key only from a CONNECT
 message with a valid signature

A forged CONNECT message was refused, but the key it named was kept as the
expected peer key, so the genuine CONNECT message was refused afterwards.
---
 src/minimal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..e26b2b6 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,11 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Get peer sig pubkey (only now that the message is known to be signed with it)
+                if self.peer_sig_pubkey.is_none() {
+                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+                }
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From 91c6fc5d3e86c8620c5ab75bf404b44b60a53d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 03/13] fix: fail the connection when the key agreement fails

The negotiation could go on without a secret key, and the next user message
written then made the layer panic.
---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index e26b2b6..8ef08de 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -214,7 +214,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From 0c358b96e07a5654f982e2ee88fe9b90e46948ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 04/13] fix: reject encrypted data shorter than the
 authentication tag instead of panicking

---
 src/encryption/chacha20_poly1305_aead.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..9a02c4c 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,7 +51,10 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
-    let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
+    let payload_len = encrypted_data
+        .len()
+        .checked_sub(CHACHA20_TAG_SIZE)
+        .ok_or(IncomingMsgErr::MessageTooShort)?;
 
     chacha20_poly1305_aead::decrypt(
         &secret_key.key,
-- 
2.43.0


From 65117a8da7b978844daac9a9b41f540849576436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 05/13] fix: write the whole message even if the writer takes
 only a part of it

Write::write may take only a part of the bytes it is given; the rest of the
message was lost although the call returned success.
---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 9a02c4c..803a983 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From 823a779302a6b01d1d0345b4a8b6033a72fc54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 06/13] fix: return an error instead of panicking for typed
 messages in plain text format

A peer could make a layer panic by sending a typed message whose format is
UTF-8 plain text.
---
 src/complete/serde.rs              | 2 +-
 src/complete/serde/deserializer.rs | 5 +++--
 src/complete/serde/serializer.rs   | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/complete/serde.rs b/src/complete/serde.rs
index c1940bc..e458687 100644
--- a/src/complete/serde.rs
+++ b/src/complete/serde.rs
@@ -56,7 +56,7 @@ pub enum SerdeError {
     #[cfg(feature = "json")]
     /// Json error
     JsonError(serde_json::Error),
-    /// For the "raw binary" format, use the functions suffixed by _bin
+    /// For the "raw binary" and "UTF-8 plain text" formats, use the functions suffixed by _bin
     UseSuffixedBinFunctions,
     /// Not copyable error for linter
     _IoError(std::io::Error),
diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..efeeba7 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -89,7 +89,9 @@ where
     M: Debug + DeserializeOwned,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -101,6 +103,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..57288d2 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -104,7 +104,9 @@ where
     W: Write,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -116,6 +118,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
-- 
2.43.0


From a0ac496870ddba19b8ca94ba196eeec1cdd03c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 07/13] fix: refuse a duplicate of a user message held until
 the ACK message

The duplicate was held too, and draining the held messages then failed with
InvalidNonce and lost all of them.
---
 src/minimal.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 8ef08de..a4a66d7 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -47,7 +47,8 @@ pub struct MinimalSecureLayer {
     peer_epk: Option<Vec<u8>>,
     peer_sig_pubkey: Option<Vec<u8>>,
     pub(crate) status: SecureLayerStatus,
-    tmp_stack_user_msgs: Vec<Vec<u8>>,
+    /// User messages received before the ACK message, with their nonces
+    tmp_stack_user_msgs: Vec<(u64, Vec<u8>)>,
 }
 
 impl MinimalSecureLayer {
@@ -131,9 +132,9 @@ impl MinimalSecureLayer {
     }
     /// Drain temporary stack of remote messages
     pub fn drain_tmp_stack_user_msgs(&mut self) -> Result<Vec<Message>> {
-        let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
+        let bin_msgs: Vec<(u64, Vec<u8>)> = self.tmp_stack_user_msgs.drain(..).collect();
         let mut msgs = Vec::with_capacity(bin_msgs.len());
-        for bin_msg in bin_msgs {
+        for (_, bin_msg) in bin_msgs {
             if let Some(msg) = self.read_inner(&bin_msg, false)? {
                 msgs.push(msg);
             }
@@ -247,7 +248,10 @@ impl MinimalSecureLayer {
             }
             MsgTypeHeaders::UserMsg { nonce } => {
                 // Verify nonce
-                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {
+                if nonce < self.next_nonce_expected
+                    || self.orphan_nonce_list.contains(&nonce)
+                    || self.tmp_stack_user_msgs.iter().any(|(n, _)| *n == nonce)
+                {
                     return Err(IncomingMsgErr::InvalidNonce.into());
                 }
 
@@ -256,7 +260,7 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
-                    self.tmp_stack_user_msgs.push(data);
+                    self.tmp_stack_user_msgs.push((nonce, data));
                     return Ok(None);
                 }
 
-- 
2.43.0


From d05ed75bbcad8454c695d4028d2e806ff9cf2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 08/13] fix: refuse a CONNECT message that carries our own
 ephemeral public key

A layer without expected peer key could complete the negotiation with itself
when its own CONNECT and ACK messages were sent back to it.
---
 src/minimal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index a4a66d7..b5e3986 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -204,6 +204,12 @@ impl MinimalSecureLayer {
                     return Err(IncomingMsgErr::InvalidHashOrSig.into());
                 }
 
+                // Refuse our own ephemeral public key (our CONNECT message sent back to us)
+                if peer_ephemeral_pk[..] == *self.ephemeral_pubkey.as_ref() {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
+                }
+
                 // Update status
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
-- 
2.43.0


From 4bf2e53c8b1b8434b592fd88143531c98520438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 09/13] fix: do not lose a valid CONNECT message because of a
 forged early ACK message

The ACK message held until the peer key is known cannot be verified before;
when it proved to be forged, reading the CONNECT message returned an error and
its custom data was lost, although the CONNECT message had been accepted.
---
 src/complete.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..d927f19 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -23,6 +23,7 @@ pub mod writer;
 #[cfg(feature = "ser")]
 pub use self::serde::IncomingMessage;
 
+use crate::errors::IncomingMsgErr;
 use crate::{Error, Message, MinimalSecureLayer, Result, SecureLayerConfig, Seed32};
 use flate2::write::{DeflateDecoder, DeflateEncoder};
 use message::IncomingBinaryMessage;
@@ -130,16 +131,21 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
-                    {
-                        messages.push(IncomingBinaryMessage::Ack {
-                            custom_data: if let Some(custom_data) = custom_data {
-                                Some(Self::uncompress(&custom_data)?)
-                            } else {
-                                None
-                            },
-                        });
+                    match self.minimal_secure_layer.take_ack_msg_recv_too_early() {
+                        Ok(Some(Message::Ack { custom_data })) => {
+                            messages.push(IncomingBinaryMessage::Ack {
+                                custom_data: if let Some(custom_data) = custom_data {
+                                    Some(Self::uncompress(&custom_data)?)
+                                } else {
+                                    None
+                                },
+                            });
+                        }
+                        Ok(_) => {}
+                        // Ignore an ACK message forged before the peer key was known,
+                        // it must not make us lose the valid CONNECT message
+                        Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidHashOrSig)) => {}
+                        Err(e) => return Err(e),
                     }
                 }
                 Message::Ack { custom_data } => {
-- 
2.43.0


From 120ea7274fe52b04a54a56e96b17bdc15b9ee3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 10/13] Expose the internal seeds to verification harnesses
 (guarded by --cfg pkstl_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 41d97e7..ac35b31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,6 +64,13 @@ pub use complete::message::IncomingBinaryMessage;
 #[cfg(feature = "zip-sign")]
 pub use complete::SecureLayer;
 
+/// Internal seeds, for verification harnesses only (built with `--cfg pkstl_verif`).
+#[cfg(pkstl_verif)]
+pub mod verif {
+    pub use crate::agreement::SharedSecret;
+    pub use crate::seeds::{Seed48, Seed64};
+}
+
 /// PKSTL Result
 pub type Result<T> = std::result::Result<T, Error>;
 
-- 
2.43.0


From e0e4bd080a62b600cff4bd15ac7709c2cb545fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 11/13] fix: do not print secrets in Debug output

Printing a seed or a secure layer with {:?} (in a log, in a panic message) showed
the seed bytes and the symmetric session key.
---
 src/encryption/chacha20_poly1305_aead.rs | 9 ++++++++-
 src/seeds.rs                             | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 803a983..6a4283a 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -23,7 +23,7 @@ use zeroize::Zeroize;
 
 const CHACHA20_TAG_SIZE: usize = 16;
 
-#[derive(Clone, Debug, Default, Zeroize)]
+#[derive(Clone, Default, Zeroize)]
 #[zeroize(drop)]
 /// Secret key used for encryption algo
 pub struct SecretKey {
@@ -32,6 +32,13 @@ pub struct SecretKey {
     aad: [u8; 4],
 }
 
+// The key must not appear when a secure layer is printed
+impl std::fmt::Debug for SecretKey {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        f.write_str("SecretKey(..)")
+    }
+}
+
 impl SecretKey {
     /// Create new secret key
     pub fn new(seed: &Seed48) -> SecretKey {
diff --git a/src/seeds.rs b/src/seeds.rs
index 60ecd37..f53575e 100644
--- a/src/seeds.rs
+++ b/src/seeds.rs
@@ -18,10 +18,17 @@
 use zeroize::Zeroize;
 
 /// Store a 32 bytes seed
-#[derive(Clone, Debug, Default, PartialEq, Zeroize)]
+#[derive(Clone, Default, PartialEq, Zeroize)]
 #[zeroize(drop)]
 pub struct Seed32([u8; 32]);
 
+// A seed is a secret, its bytes must never be printed
+impl std::fmt::Debug for Seed32 {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        f.write_str("Seed32(..)")
+    }
+}
+
 impl AsRef<[u8]> for Seed32 {
     fn as_ref(&self) -> &[u8] {
         &self.0
-- 
2.43.0


From f6c52043ef139040f887d1de0d1ab0878e74f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 12/13] fix: build without the zip-sign feature

SecureLayerConfig was compiled with the zip-sign feature only, though the minimal
layer, its fields and its Default implementation need it without that feature too.
---
 src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index b883b23..418e449 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -23,7 +23,6 @@ const DEFAULT_COMPRESSION_MIN_SIZE: usize = 8_192;
 #[cfg(feature = "ser")]
 use crate::format::MessageFormat;
 
-#[cfg(feature = "zip-sign")]
 #[derive(Clone, Copy, Debug, PartialEq)]
 /// PKSTL Configuration
 pub struct SecureLayerConfig {
-- 
2.43.0


From 529abf643bcac4def2833e1a9e15f2c15eaffc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 13/13] fix: do not take an encrypted message that starts with
 the magic value for a clear one

In one session of 2^32 the first four bytes of the keystream are zero, so that
all its user messages begin with the magic value on the wire. The reader took
them for clear messages and refused every one of them. The tag now decides.
---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6def5be..beb739d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -46,7 +46,10 @@ pub(crate) fn read(
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
-    if incoming_data.starts_with(&MAGIC_VALUE) {
+    // An encrypted message can also start with the magic value, only its tag tells it from a clear one
+    let starts_like_clear = incoming_data.starts_with(&MAGIC_VALUE);
+    let authenticates = |key| decrypt(incoming_data, key, &mut BufWriter::new(Vec::new())).is_ok();
+    if starts_like_clear && !encrypt_algo_with_secret_opt.map_or(false, authenticates) {
         // Data are not encrypted
         data_encrypted = false;
         buffer.write(incoming_data).map_err(Error::WriteError)?;
-- 
2.43.0

