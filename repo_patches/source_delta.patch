From c9c2f0ac269b639340dd1c73d1012cc8a6f842c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 01/12] fix: encode method bits M4..M11 at the RFC 5389
 positions of the message type

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 50fc100a4194789a0b57aecb3093fb4b2863f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 02/12] fix: decode the CHANGE-REQUEST flags from the bits they
 are encoded in (RFC 5780 7.2)

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From f18bb35217a30e596702e391d136fc521c898661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 03/12] fix: encode the port of RESPONSE-PORT instead of zero

---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From 0dac6c140fc3f653809f26946e96d923e405e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 04/12] fix: make MobilityTicket::new fail on exceeding length,
 as documented

---
 src/rfc8016/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..3eef56a 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -83,7 +83,7 @@ impl MobilityTicket {
     ///
     /// Fails on exceeding length.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From c510f8ec4c9f34ee049f7114225905433f85eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 05/12] fix: do not overflow when computing the fingerprint of
 a message longer than 65535 bytes

---
 src/rfc5389/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..774da8c 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,8 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From c1bb9455d80d9313d334b8cd0ff9bdf769ab522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 06/12] fix: report a truncated last attribute instead of
 silently dropping it when decoding incrementally

---
 src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index c70a474..77bf3ff 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,6 +345,11 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
+                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
+                    // The last attribute is longer than the attribute part of the message
+                    let e = ErrorKind::UnexpectedEos.cause("Truncated attribute");
+                    self.last_error = Some(track!(Error::from(e)));
+                }
                 Ok(size) => return Ok(size),
             }
         }
-- 
2.43.0


From 455473595a42ebec64eaccee79d8de69f4d04b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 07/12] fix: do not let a broken or rejected message corrupt
 the following messages of the same decoder

---
 src/message.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 77bf3ff..db9ec12 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -398,13 +398,32 @@ impl<A: Attribute> MessageDecoder<A> {
         Self::default()
     }
 
+    fn decode_message(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        if !self.header.is_idle() {
+            bytecodec_try_decode!(self.header, offset, buf, eos);
+
+            let message_len = self.header.peek().expect("never fails").1;
+            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        }
+        bytecodec_try_decode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
+
     fn finish_decoding_with_header(
         &mut self,
         method: Method,
         class: MessageClass,
         transaction_id: TransactionId,
     ) -> Result<Message<A>> {
-        let attributes = track!(self.attributes.finish_decoding())?;
+        let attributes = match track!(self.attributes.finish_decoding()) {
+            Ok(attributes) => attributes,
+            Err(e) => {
+                // Discards the partially decoded attributes
+                self.attributes = Default::default();
+                return Err(e);
+            }
+        };
         let mut message = Message {
             class,
             method,
@@ -438,15 +457,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     type Item = DecodedMessage<A>;
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        if !self.header.is_idle() {
-            bytecodec_try_decode!(self.header, offset, buf, eos);
-
-            let message_len = self.header.peek().expect("never fails").1;
-            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        let result = self.decode_message(buf, eos);
+        if result.is_err() {
+            // Discards the partially decoded message
+            *self = Self::default();
         }
-        bytecodec_try_decode!(self.attributes, offset, buf, eos);
-        Ok(offset)
+        result
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-- 
2.43.0


From 6e1730e1becc4dc937b5cd0100d37ed256c635c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 08/12] fix: do not count the length of the previous message in
 the bytes MessageDecoder requires

---
 src/message.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index db9ec12..6e439a2 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -479,9 +479,11 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        self.header
-            .requiring_bytes()
-            .add_for_decoding(self.attributes.requiring_bytes())
+        if self.header.is_idle() {
+            self.attributes.requiring_bytes()
+        } else {
+            self.header.requiring_bytes()
+        }
     }
 
     fn is_idle(&self) -> bool {
-- 
2.43.0


From 765718155ced3077820b8b8566e7c707c4b1fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 09/12] fix: leave no trace of a rejected message in the
 encoder, and none of a message refused because another is in progress

---
 src/message.rs | 60 +++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 6e439a2..d210b34 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -505,32 +505,8 @@ impl<A: Attribute> MessageEncoder<A> {
     pub fn new() -> Self {
         Self::default()
     }
-}
-impl<A: Attribute> Default for MessageEncoder<A> {
-    fn default() -> Self {
-        MessageEncoder {
-            message_type: Default::default(),
-            message_len: Default::default(),
-            magic_cookie: Default::default(),
-            transaction_id: Default::default(),
-            attributes: Default::default(),
-        }
-    }
-}
-impl<A: Attribute> Encode for MessageEncoder<A> {
-    type Item = Message<A>;
 
-    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        bytecodec_try_encode!(self.message_type, offset, buf, eos);
-        bytecodec_try_encode!(self.message_len, offset, buf, eos);
-        bytecodec_try_encode!(self.magic_cookie, offset, buf, eos);
-        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
-        bytecodec_try_encode!(self.attributes, offset, buf, eos);
-        Ok(offset)
-    }
-
-    fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+    fn start_encoding_message(&mut self, mut item: Message<A>) -> Result<()> {
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -562,6 +538,40 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
         track!(self.message_len.start_encoding(message_len as u16))?;
         Ok(())
     }
+}
+impl<A: Attribute> Default for MessageEncoder<A> {
+    fn default() -> Self {
+        MessageEncoder {
+            message_type: Default::default(),
+            message_len: Default::default(),
+            magic_cookie: Default::default(),
+            transaction_id: Default::default(),
+            attributes: Default::default(),
+        }
+    }
+}
+impl<A: Attribute> Encode for MessageEncoder<A> {
+    type Item = Message<A>;
+
+    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        bytecodec_try_encode!(self.message_type, offset, buf, eos);
+        bytecodec_try_encode!(self.message_len, offset, buf, eos);
+        bytecodec_try_encode!(self.magic_cookie, offset, buf, eos);
+        bytecodec_try_encode!(self.transaction_id, offset, buf, eos);
+        bytecodec_try_encode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
+
+    fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        let result = self.start_encoding_message(item);
+        if result.is_err() {
+            // Discards the partially encoded message
+            *self = Self::default();
+        }
+        result
+    }
 
     fn requiring_bytes(&self) -> ByteCount {
         ByteCount::Finite(self.exact_requiring_bytes())
-- 
2.43.0


From 277ca1a451979b0257618552f74e88f14d65bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 10/12] fix: count characters, not bytes, in
 Software::new_static, as documented

---
 src/rfc5389/attributes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 774da8c..caf26c0 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -676,7 +676,17 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        let bytes = description.as_bytes();
+        let mut chars = 0;
+        let mut i = 0;
+        while i < bytes.len() {
+            // Continuation bytes do not start a character
+            if bytes[i] & 0b1100_0000 != 0b1000_0000 {
+                chars += 1;
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0


From 2586ea5b144b4cee3e9302e22ab9843d03b102c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 11/12] fix: share the preceding bytes of MESSAGE-INTEGRITY so
 that decoding many of them does not take cubic time

---
 src/rfc5389/attributes.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index caf26c0..14fc069 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -18,6 +18,7 @@ use hmac::{Hmac, Mac};
 use sha1::Sha1;
 use std::borrow::Cow;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::vec;
 
 macro_rules! impl_decode {
@@ -370,7 +371,7 @@ impl_encode!(MappedAddressEncoder, MappedAddress, |item: Self::Item| item
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct MessageIntegrity {
     hmac_sha1: [u8; 20],
-    preceding_message_bytes: Vec<u8>,
+    preceding_message_bytes: Arc<[u8]>,
 }
 impl MessageIntegrity {
     /// The codepoint of the type of the attribute.
@@ -399,7 +400,7 @@ impl MessageIntegrity {
         let hmac_sha1 = Self::generate_hmac_token(key, &preceding_message_bytes);
         Ok(MessageIntegrity {
             hmac_sha1,
-            preceding_message_bytes,
+            preceding_message_bytes: preceding_message_bytes.into(),
         })
     }
 
@@ -419,7 +420,7 @@ impl MessageIntegrity {
         let hmac_sha1 = Self::generate_hmac_token(&key.0[..], &preceding_message_bytes);
         Ok(MessageIntegrity {
             hmac_sha1,
-            preceding_message_bytes,
+            preceding_message_bytes: preceding_message_bytes.into(),
         })
     }
 
@@ -475,7 +476,7 @@ impl Attribute for MessageIntegrity {
     }
 
     fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
-        self.preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?;
+        self.preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?.into();
         Ok(())
     }
 }
@@ -492,7 +493,7 @@ impl MessageIntegrityDecoder {
 impl_decode!(MessageIntegrityDecoder, MessageIntegrity, |hmac_sha1| Ok(
     MessageIntegrity {
         hmac_sha1,
-        preceding_message_bytes: Vec::new() // dummy
+        preceding_message_bytes: Arc::from([]) // dummy
     }
 ));
 
-- 
2.43.0


From 00a32af5c616dcd12eae6bb09a2dd8ed1ddac23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 12/12] fix: do not reuse the padding of a received attribute
 whose value has changed length

---
 src/attribute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index bec8de4..deafdc2 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -525,7 +525,11 @@ impl<T: Attribute> Encode for LosslessAttributeEncoder<T> {
             self.known_value.exact_requiring_bytes() + self.unknown_value.exact_requiring_bytes();
         track_assert!(value_len < 0x10000, ErrorKind::InvalidInput; value_len);
 
-        let padding = padding.unwrap_or_else(|| Padding::new(value_len as usize));
+        // The padding kept by the decoder is usable only if the length of the value has not changed
+        let zero_padding = Padding::new(value_len as usize);
+        let padding = padding
+            .filter(|p| p.len == zero_padding.len)
+            .unwrap_or(zero_padding);
         track!(self.value_len.start_encoding(value_len as u16))?;
         track!(self.padding.start_encoding(padding))?;
         Ok(())
-- 
2.43.0

