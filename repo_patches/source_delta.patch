From e0894765cb7499b297cfe8d7955eb60f6337774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 01/10] fix: encode method bits above the fourth at their RFC
 5389 positions

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 784b1af0782bd274eeb9a2ca97b1e77edb34455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 02/10] fix: decode CHANGE-REQUEST flags from the bits RFC 5780
 assigns (and the encoder sets)

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From 4449702f58ebee2cde0b35979b02a5a3d1c782fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 03/10] fix: encode the port of RESPONSE-PORT instead of zero

---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From 29ced47088a5257cbe87ac758ea66820595b31bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 04/10] fix: reject messages too long for a FINGERPRINT instead
 of overflowing

---
 src/rfc5389/attributes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..3634d61 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,9 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        track_assert!(final_len <= 0xFFFF, ErrorKind::InvalidInput; final_len);
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From a9343ad0eb08b7a7c315a2d4e4665fad463314d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 05/10] fix: reject messages too long for a MESSAGE-INTEGRITY
 instead of truncating the length

---
 src/rfc5389/attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 3634d61..4e7daf4 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -463,6 +463,7 @@ impl MessageIntegrity {
     fn message_into_bytes<A: Attribute>(message: Message<A>) -> Result<Vec<u8>> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message))?;
         let adjusted_len = bytes.len() - 20 /*msg header*/+ 4 /*attr header*/ + 20 /*hmac*/;
+        track_assert!(adjusted_len <= 0xFFFF, ErrorKind::InvalidInput; adjusted_len);
         BigEndian::write_u16(&mut bytes[2..4], adjusted_len as u16);
         Ok(bytes)
     }
-- 
2.43.0


From 157e46755fa75e4e17999f072ccd52f7cc65a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 06/10] fix: enforce the documented length limit of
 MOBILITY-TICKET

---
 src/rfc8016/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..3eef56a 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -83,7 +83,7 @@ impl MobilityTicket {
     ///
     /// Fails on exceeding length.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From ce7a60506c790349a386ac4e14193c1c2ecee680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 07/10] fix: discard the partial state of a message that failed
 to decode

---
 src/message.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index c70a474..2bc3753 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -429,10 +429,8 @@ impl<A: Attribute> Default for MessageDecoder<A> {
         }
     }
 }
-impl<A: Attribute> Decode for MessageDecoder<A> {
-    type Item = DecodedMessage<A>;
-
-    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+impl<A: Attribute> MessageDecoder<A> {
+    fn decode_message(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
         if !self.header.is_idle() {
             bytecodec_try_decode!(self.header, offset, buf, eos);
@@ -443,16 +441,32 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
         bytecodec_try_decode!(self.attributes, offset, buf, eos);
         Ok(offset)
     }
+}
+impl<A: Attribute> Decode for MessageDecoder<A> {
+    type Item = DecodedMessage<A>;
+
+    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let result = self.decode_message(buf, eos);
+        if result.is_err() {
+            // Discards the partial message so that the decoder can be reused
+            *self = Self::default();
+        }
+        result
+    }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
         match self.finish_decoding_with_header(method, class, transaction_id) {
-            Err(error) => Ok(Err(BrokenMessage {
-                method,
-                class,
-                transaction_id,
-                error,
-            })),
+            Err(error) => {
+                // Discards the state left by the broken attributes
+                self.attributes = Default::default();
+                Ok(Err(BrokenMessage {
+                    method,
+                    class,
+                    transaction_id,
+                    error,
+                }))
+            }
             Ok(message) => Ok(Ok(message)),
         }
     }
-- 
2.43.0


From 1a8064653a659aecd86c901ba0f63a21cdf64cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 08/10] fix: leave the encoder usable when encoding cannot be
 started

---
 src/message.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 2bc3753..0e52a76 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -521,7 +521,26 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
         Ok(offset)
     }
 
-    fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        let result = self.start_encoding_message(item);
+        if result.is_err() {
+            // Discards the message so that the encoder can be reused
+            *self = Self::default();
+        }
+        result
+    }
+
+    fn requiring_bytes(&self) -> ByteCount {
+        ByteCount::Finite(self.exact_requiring_bytes())
+    }
+
+    fn is_idle(&self) -> bool {
+        self.transaction_id.is_idle() && self.attributes.is_idle()
+    }
+}
+impl<A: Attribute> MessageEncoder<A> {
+    fn start_encoding_message(&mut self, mut item: Message<A>) -> Result<()> {
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -553,14 +572,6 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
         track!(self.message_len.start_encoding(message_len as u16))?;
         Ok(())
     }
-
-    fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.exact_requiring_bytes())
-    }
-
-    fn is_idle(&self) -> bool {
-        self.transaction_id.is_idle() && self.attributes.is_idle()
-    }
 }
 impl<A: Attribute> SizedEncode for MessageEncoder<A> {
     fn exact_requiring_bytes(&self) -> u64 {
-- 
2.43.0


From 29167d7b92740b03818a2be783d1e4cec95292f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 09/10] fix: report an attribute that overruns the message as
 broken without waiting for more input

---
 src/message.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 0e52a76..3c90efd 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,7 +345,13 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
-                Ok(size) => return Ok(size),
+                Ok(size) => {
+                    if !eos.is_reached() || self.inner.is_idle() {
+                        return Ok(size);
+                    }
+                    // The last attribute is longer than the rest of the message
+                    self.last_error = Some(ErrorKind::UnexpectedEos.error().into());
+                }
             }
         }
 
-- 
2.43.0


From 31bafec717308bbd9b5987be1728206ff45a8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 10/10] fix: count characters, as documented, in
 Software::new_static

---
 src/rfc5389/attributes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 4e7daf4..b48c874 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -678,7 +678,17 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        // Counts characters (i.e., the bytes that are not UTF-8 continuation bytes)
+        let bytes = description.as_bytes();
+        let mut chars = 0;
+        let mut i = 0;
+        while i < bytes.len() {
+            if bytes[i] & 0xC0 != 0x80 {
+                chars += 1;
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0

