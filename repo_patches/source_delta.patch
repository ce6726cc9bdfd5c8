From 3ddaeeeacd6339e9a1405a1558e0e16ffe7be330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 01/17] fix: use all 256 bits of the scalar in P-256 point
 multiplication

mult_scalar walked 7 limbs of 8 bits, so only 56 bits of the 256-bit scalar
took part: wrong multiples, and ephemeral keys with 56 bits of entropy.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From 4eefb5291ff205a67d578d116baca48b655da4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 02/17] fix: refuse peer coordinates that are not below the
 P-256 prime

Int256::from_bytes accepted any 256-bit value although field elements must be
reduced: a peer could send x + p for x (non-canonical point accepted), or crash
the curve check in builds with debug assertions.
---
 src/crypto/p256.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..d1368eb 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -599,7 +599,7 @@ pub mod int256 {
             b.to_vec()
         }
 
-        // big-endian.
+        // big-endian. returns `None` if the value is not smaller than P256.
         pub fn from_bytes(b: &[u8]) -> Option<Int256> {
             if b.len() != 32 {
                 return None;
@@ -614,6 +614,10 @@ pub mod int256 {
                 x.v[LIMBS - 1 - i] = vi;
             }
 
+            if x.reduce_once_zero().compare(&x).0 != 0 {
+                return None;
+            }
+
             Some(x)
         }
     }
-- 
2.43.0


From df0d433d3efc43097dac0d77dd3904c9859d9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/17] fix: hash HMAC keys longer than one block instead of
 panicking

---
 src/cipher/prf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..5d69f58 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,9 +8,9 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
+    // RFC 2104: keys longer than one block are hashed first
     if key.len() > B {
-        // FIXME
-        unimplemented!();
+        return hmac_sha256(&sha256(key), msg);
     }
 
     let mut i_msg = [0x36u8; B].to_vec();
-- 
2.43.0


From be8d38c65e45e9fa97b67b761e148c6092e43d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 04/17] fix: refuse bytes after the hello extension block

They were dropped silently, so they were missing from the transcript the
Finished messages cover: bytes inserted there went unnoticed.
---
 src/tls_item.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..7c434d5 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,13 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "{} trailing bytes",
+                        len as u64 - rest_reader.position()
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 9cc1f72f89e696233b38d210e9466edda00618a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 05/17] fix: refuse a named curve the client did not offer

The curve in ServerKeyExchange was parsed but never compared with secp256r1.
---
 src/cipher/ecdhe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..01418d1 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -122,6 +122,11 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
 
+        let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
+        if curve != NamedCurve::secp256r1 {
+            return tls_err!(IllegalParameter, "server sent a curve we did not offer");
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From b5c405e487b0f97689e9f2aeda755e139ba8558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 06/17] fix: report an over-long decrypted record instead of
 panicking

A peer that holds the keys could crash the client with a record whose
plaintext is longer than 2^14 bytes.
---
 src/tls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..d34097e 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,11 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(
+                        RecordOverflow,
+                        "decrypted record too long: {}",
+                        data.len()
+                    );
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From c349e220d52bb093901d12beb6f71b92a26225ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 07/17] fix: turn alerts, CCS and handshake messages after the
 handshake into errors

They hit unimplemented!(), so any peer could crash the client. HelloRequest
is ignored, as RFC 5246 7.4.1.1 allows.
---
 src/tls.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d34097e..e1db415 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -407,9 +407,18 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                // we treat every other alert as fatal.
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // we don't re-handshake: RFC 5246 7.4.1.1 lets us ignore the request.
+                HandshakeMessage(Handshake::hello_request(..)) => {}
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "unexpected Handshake message")
+                }
             }
         }
     }
-- 
2.43.0


From f2783567c09d8eccb2703075e9dea2bd7a62fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 08/17] fix: end the stream for good at close_notify and at
 fatal errors

read() took close_notify for an empty record and went on reading: it waited
for a peer that had said goodbye, and delivered data sent after it. It also
resumed after alerts and protocol violations.
---
 src/client.rs | 14 +++++++++++++-
 src/tls.rs    |  7 ++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..ab5c4ae 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -21,6 +21,8 @@ pub struct TlsClient<R: Read, W: Write> {
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
     buf: Vec<u8>,
+    // no more data: close_notify, an alert or a protocol violation was met.
+    read_closed: bool,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -30,6 +32,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             writer: TlsWriter::new(writer),
             rng,
             buf: Vec::new(),
+            read_closed: false,
         };
 
         // handshake failed. send alert if necessary
@@ -328,12 +331,21 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
+                if self.read_closed {
+                    break;
+                }
                 let data = match self.reader.read_application_data() {
                     Ok(data) => data,
-                    Err(_err) => {
+                    Err(err) => {
+                        // the transport may recover, the peer may not.
+                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                         break; // FIXME: stop if EOF. otherwise raise error?
                     }
                 };
+                if data.is_empty() {
+                    self.read_closed = true;
+                    break;
+                }
                 self.buf.extend(&data);
             }
 
diff --git a/src/tls.rs b/src/tls.rs
index e1db415..5ce11af 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -394,6 +394,7 @@ impl<R: ReadExt> TlsReader<R> {
         }
     }
 
+    /// Returns an empty vector only for close_notify; empty records are skipped.
     pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {
         if self.decryptor.is_none() {
             panic!("ApplicationData called before handshake");
@@ -401,7 +402,11 @@ impl<R: ReadExt> TlsReader<R> {
         loop {
             let msg = self.read_message()?;
             match msg {
-                ApplicationDataMessage(msg) => return Ok(msg),
+                ApplicationDataMessage(msg) => {
+                    if !msg.is_empty() {
+                        return Ok(msg);
+                    }
+                }
                 // TODO: handle other cases
                 AlertMessage(Alert {
                     level: _,
-- 
2.43.0


From 19d17870590938fdd52f3267dde4519c43777c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 09/17] fix: never seal two records under one nonce after a
 failed write

The sequence number was only advanced once the whole record had been
written, so a record written after a transport error reused the nonce of the
one that had been sent in part.
---
 src/tls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 5ce11af..5c82a3a 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -144,14 +144,15 @@ impl<W: Write> TlsWriter<W> {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
         }
 
+        // this sequence number is spent, even if only a part of the record gets out.
+        self.write_count += 1;
+
         self.writer.write_u8(record.content_type as u8)?;
         self.writer.write_u8(record.ver_major)?;
         self.writer.write_u8(record.ver_minor)?;
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From 0be45064852b7ca0377fc3ad2885fae16027c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 10/17] fix: retry an interrupted read instead of failing the
 connection

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..f0deabc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,10 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From b82f44a7fb90746f58458ad4e8aa34d2ed665aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 11/17] fix: flush the transport before waiting, after alerts
 and in flush()

---
 src/client.rs |  4 +++-
 src/tls.rs    | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index ab5c4ae..b32ee3c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -92,6 +92,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
         let client_hello = Handshake::new_client_hello(random, cipher_suite, extensions)?;
         self.writer.write_handshake(&client_hello)?;
+        self.writer.flush()?;
 
         let server_hello_data = expect!(server_hello);
         {
@@ -210,6 +211,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         };
         let finished = Handshake::new_finished(client_verify_data)?;
         self.writer.write_handshake(&finished)?;
+        self.writer.flush()?;
 
         // Although client->server is encrypted, server->client isn't yet.
         // server may send either ChangeCipherSpec or Alert.
@@ -296,7 +298,7 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        Ok(())
+        self.writer.get_mut().flush()
     }
 
     fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
diff --git a/src/tls.rs b/src/tls.rs
index 5c82a3a..fefa2b3 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -156,6 +156,12 @@ impl<W: Write> TlsWriter<W> {
         Ok(())
     }
 
+    /// Flush the underlying writer.
+    pub fn flush(&mut self) -> TlsResult<()> {
+        self.writer.flush()?;
+        Ok(())
+    }
+
     pub fn write_data(&mut self, ty: ContentType, data: &[u8]) -> TlsResult<()> {
         let (major, minor) = TLS_VERSION;
         // TODO: configurable maxlen
@@ -174,10 +180,12 @@ impl<W: Write> TlsWriter<W> {
         self.write_data(HandshakeTy, &data)
     }
 
+    /// An alert may be the last thing we say, so this also flushes the underlying writer.
     pub fn write_alert(&mut self, alert: &Alert) -> TlsResult<()> {
         let mut data = Vec::new();
         alert.tls_write(&mut data)?;
-        self.write_data(AlertTy, &data)
+        self.write_data(AlertTy, &data)?;
+        self.flush()
     }
 
     pub fn write_change_cipher_spec(&mut self) -> TlsResult<()> {
-- 
2.43.0


From 9460da2098b29834076ce00591e44d7a6668e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 12/17] fix: report a truncated handshake message as
 decode_error, not as an I/O failure

---
 src/cipher/ecdhe.rs | 11 +++++++++--
 src/handshake.rs    | 11 ++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 01418d1..8c1eef4 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter, IoFailure};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -120,7 +120,14 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: TlsResult<EcdheServerKeyExchange> = TlsItem::tls_read(&mut reader);
+        let ecdh_params = match ecdh_params {
+            // the whole message is in memory: running out of it is the peer's fault
+            Err(ref err) if err.kind == IoFailure => {
+                return tls_err!(DecodeError, "truncated ServerKeyExchange");
+            }
+            result => result?,
+        };
 
         let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
         if curve != NamedCurve::secp256r1 {
diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..a2f2f43 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, IoFailure, UnexpectedMessage};
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
 
@@ -367,8 +367,13 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
-        Ok(Some(message))
+        let message: TlsResult<Handshake> = TlsItem::tls_read(reader);
+        match message {
+            Ok(message) => Ok(Some(message)),
+            // the whole message is in memory: running out of it is the peer's fault
+            Err(ref err) if err.kind == IoFailure => tls_err!(DecodeError, "truncated message"),
+            Err(err) => Err(err),
+        }
     }
 }
 
-- 
2.43.0


From 841750269485aff09cf6e5766a34957f654138f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 13/17] fix: report bytes after a handshake message body as
 decode_error, not as an internal error

---
 src/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index a2f2f43..4744672 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, IoFailure, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, IoFailure, UnexpectedMessage};
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
 
@@ -246,7 +246,7 @@ macro_rules! tls_handshake(
                 let should_be_err = reader.read_u8();
                 match should_be_err {
                     Err(_) => {},
-                    Ok(_) => return tls_err!(InternalError, "expected EOF but found not"),
+                    Ok(_) => return tls_err!(DecodeError, "expected EOF but found not"),
                 }
 
                 Ok(ret)
-- 
2.43.0


From 9fee268376eb95d841e054ea2ef433e5e00c1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 14/17] fix: refuse bytes after the ServerKeyExchange signature

---
 src/cipher/ecdhe.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 8c1eef4..de4caec 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -128,6 +128,9 @@ impl KeyExchange for EllipticDiffieHellman {
             }
             result => result?,
         };
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "bytes after ServerKeyExchange");
+        }
 
         let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
         if curve != NamedCurve::secp256r1 {
-- 
2.43.0


From a33a2829dc3c585b6a2309f99b975602371048bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 15/17] fix: refuse ChangeCipherSpec inside a handshake message

---
 src/handshake.rs | 5 +++++
 src/tls.rs       | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 4744672..8c4a594 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -339,6 +339,11 @@ impl HandshakeBuffer {
         self.buf.extend(fragment);
     }
 
+    /// true if no part of a message is waiting for the rest.
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     // if message is arrived but has unknown type, the message is discarded and returns error.
     pub fn get_message(&mut self) -> TlsResult<Option<Handshake>> {
         let len = self.buf.len();
diff --git a/src/tls.rs b/src/tls.rs
index fefa2b3..1ada0c7 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -361,6 +361,12 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec inside a handshake message"
+                        );
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 098f0b5e1bc0192292fc3d28a344c63f2af1ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 16/17] fix: draw the ephemeral scalar from 1..n-1

---
 src/cipher/ecdhe.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index de4caec..6c78434 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -115,6 +115,12 @@ tls_struct!(
     }
 );
 
+/// order of `p256::G`, big-endian.
+const P256_ORDER: [u8; 32] = [
+    0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+    0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
+];
+
 pub struct EllipticDiffieHellman;
 
 impl KeyExchange for EllipticDiffieHellman {
@@ -153,9 +159,9 @@ impl KeyExchange for EllipticDiffieHellman {
                 for i in 0..8 {
                     x.v[i] = W(rng.next_u32());
                 }
-                let xx = x.reduce_once(W(0));
-                let x_is_okay = xx.compare(&x);
-                if x_is_okay == W(0) {
+                // 1 <= x < ORDER: other values give the point at infinity or a biased key.
+                let x_is_zero = x.compare(&p256::int256::ZERO) == W(0);
+                if !x_is_zero && x.to_bytes()[..] < P256_ORDER[..] {
                     return x;
                 }
             }
-- 
2.43.0


From 0caaf0f2636fd6456f043ef6f7b7a3e32570a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:32 +0000
Subject: [PATCH 17/17] fix: compare the ephemeral scalar with the group order
 in constant time

---
 src/cipher/ecdhe.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 6c78434..44c8aca 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -121,6 +121,15 @@ const P256_ORDER: [u8; 32] = [
     0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
 ];
 
+// `x` is SECRET (big-endian, same length as the order): every byte is looked at.
+fn is_below_order(x: &[u8]) -> bool {
+    let mut borrow = 0u16;
+    for (a, b) in x.iter().zip(P256_ORDER.iter()).rev() {
+        borrow = u16::from(*a).wrapping_sub(u16::from(*b)).wrapping_sub(borrow) >> 15;
+    }
+    borrow == 1
+}
+
 pub struct EllipticDiffieHellman;
 
 impl KeyExchange for EllipticDiffieHellman {
@@ -161,7 +170,7 @@ impl KeyExchange for EllipticDiffieHellman {
                 }
                 // 1 <= x < ORDER: other values give the point at infinity or a biased key.
                 let x_is_zero = x.compare(&p256::int256::ZERO) == W(0);
-                if !x_is_zero && x.to_bytes()[..] < P256_ORDER[..] {
+                if !x_is_zero && is_below_order(&x.to_bytes()) {
                     return x;
                 }
             }
-- 
2.43.0

