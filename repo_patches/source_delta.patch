From 15d4fa4127687a7ce65ac9a7824e4b9ecc7b0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 1/8] fix: encode the method bits above M3 at their RFC 5389
 positions

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 49545cae9e2f0dc3c4c050ed3122d56fbe4c09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 2/8] fix: encode the port of RESPONSE-PORT instead of zero

---
 src/rfc5780/attributes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..42cd1a8 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,8 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(
+    ResponsePortEncoder,
+    ResponsePort,
+    |item: Self::Item| u32::from(item.0) << 16
+);
-- 
2.43.0


From becd565382f8a0c8f1ca37e099737b20e37c1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 3/8] fix: decode the change IP / change port flags of
 CHANGE-REQUEST from their RFC 5780 bits

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 42cd1a8..833bbd2 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From f0936eccdbe347a70472a0ffd41c32d195158d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 4/8] fix: do not leave a rejected header half finished in the
 decoder

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index c70a474..3234db5 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -300,10 +300,10 @@ impl Decode for MessageHeaderDecoder {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let message_type = track!(self.message_type.finish_decoding())?;
-        let message_type = track!(Type::from_u16(message_type))?;
         let message_len = track!(self.message_len.finish_decoding())?;
         let magic_cookie = track!(self.magic_cookie.finish_decoding())?;
         let transaction_id = TransactionId::new(track!(self.transaction_id.finish_decoding())?);
+        let message_type = track!(Type::from_u16(message_type))?;
         track!(self.check_magic_cookie(magic_cookie); message_type, message_len, transaction_id)?;
         Ok((message_type, message_len, transaction_id))
     }
-- 
2.43.0


From 2e27590c4da6eb978c222c3a282d2bec98859c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 5/8] fix: reject a message whose last attribute is truncated
 regardless of how it is fed

---
 src/message.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3234db5..32ebaca 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,7 +345,13 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
-                Ok(size) => return Ok(size),
+                Ok(size) => {
+                    if self.inner.is_idle() || !eos.is_reached() {
+                        return Ok(size);
+                    }
+                    // The value of the last attribute is truncated
+                    self.last_error = Some(track!(Error::from(ErrorKind::UnexpectedEos)));
+                }
             }
         }
 
-- 
2.43.0


From 3be1196ed0c5f6868ae4f811880608b9e4328155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 6/8] fix: reset the attribute decoder after each message

---
 src/message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 32ebaca..f38e3d4 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -452,7 +452,9 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
-        match self.finish_decoding_with_header(method, class, transaction_id) {
+        let result = self.finish_decoding_with_header(method, class, transaction_id);
+        self.attributes = Default::default();
+        match result {
             Err(error) => Ok(Err(BrokenMessage {
                 method,
                 class,
-- 
2.43.0


From 1c6d4f903d3becc47b1500330df25ca67ecb2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 7/8] fix: do not overflow when fingerprinting a message of 64
 KiB or more

---
 src/rfc5389/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..774da8c 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,8 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From d55dc6723e535f81a112d8f837be5297a6a6bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 8/8] fix: leave the encoder untouched when a message cannot be
 encoded

---
 src/message.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index f38e3d4..3730a14 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -516,6 +516,8 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
     }
 
     fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -528,22 +530,25 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
             }
         }
 
-        let message_type = Type {
-            class: item.class,
-            method: item.method,
-        };
-        track!(self.message_type.start_encoding(message_type.as_u16()))?;
-        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
-        track!(self.transaction_id.start_encoding(item.transaction_id))?;
-        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
+        let mut attributes = PreEncode::default();
+        track!(attributes.start_encoding(item.attributes.into_iter()))?;
 
-        let message_len = self.attributes.exact_requiring_bytes();
+        let message_len = attributes.exact_requiring_bytes();
         track_assert!(
             message_len < 0x10000,
             ErrorKind::InvalidInput,
             "Too large message length: actual={}, limit=0xFFFF",
             message_len
         );
+        self.attributes = attributes;
+
+        let message_type = Type {
+            class: item.class,
+            method: item.method,
+        };
+        track!(self.message_type.start_encoding(message_type.as_u16()))?;
+        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
+        track!(self.transaction_id.start_encoding(item.transaction_id))?;
         track!(self.message_len.start_encoding(message_len as u16))?;
         Ok(())
     }
-- 
2.43.0

