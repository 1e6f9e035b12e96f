From cf4cca23f4e602619480515ae0fd78f7acfafdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 01/44] fix: reset the cached message size in every mutating
 accessor

---
 codec/src/message/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..0337586 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -109,6 +109,7 @@ impl Message {
     #[inline]
     /// Mut ref tp application property
     pub fn app_properties_mut(&mut self) -> Option<&mut VecStringMap> {
+        self.0.size.set(0);
         self.0.application_properties.as_mut()
     }
 
@@ -181,6 +182,7 @@ impl Message {
     #[inline]
     /// Mut reference to message annotations
     pub fn message_annotations_mut(&mut self) -> Option<&mut VecSymbolMap> {
+        self.0.size.set(0);
         self.0.message_annotations.as_mut()
     }
 
@@ -193,6 +195,7 @@ impl Message {
     #[inline]
     /// Mut reference to delivery annotations
     pub fn delivery_annotations_mut(&mut self) -> Option<&mut VecSymbolMap> {
+        self.0.size.set(0);
         self.0.delivery_annotations.as_mut()
     }
 
@@ -229,6 +232,7 @@ impl Message {
     #[inline]
     /// Mutable message body
     pub fn body_mut(&mut self) -> &mut MessageBody {
+        self.0.size.set(0);
         &mut self.0.body
     }
 
@@ -242,6 +246,7 @@ impl Message {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(&mut self, v: V) -> &mut Self {
         self.0.body.value = Some(v.into());
+        self.0.size.set(0);
         self
     }
 
-- 
2.43.0


From 23b2b1fe7a237b8386a777dc32046021e2c5cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 02/44] fix: reject compound headers whose size does not cover
 the count

---
 codec/src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..832989a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +603,10 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From 4b6aa5710a644ddf98580e9ea6da18c5786e66e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 03/44] fix: decode list and array elements only from the bytes
 the header announces

---
 codec/src/codec/decode.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 832989a..b5752bf 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -263,7 +263,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut array_input = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut array_input)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -273,7 +274,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         };
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
         }
         // todo: ensure header.size bytes were read out from input
@@ -338,9 +339,11 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
         }
         Ok(List(result))
@@ -350,11 +353,13 @@ impl DecodeFormatted for List {
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
 
         let descr = T::descriptor();
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
-- 
2.43.0


From 6fd7467ee67c9c891173e1ddeaae34d6fda4e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 04/44] fix: do not reserve memory for element counts the input
 cannot hold

---
 codec/src/codec/decode.rs | 17 ++++++++++-------
 codec/src/types/array.rs  |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index b5752bf..d400d8f 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -247,8 +247,10 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
+            map_input.len().min(count as usize),
+            Default::default(),
+        );
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
@@ -272,7 +274,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(array_input.len().min(header.count as usize));
         for _ in 0..header.count {
             let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
@@ -288,7 +290,7 @@ impl DecodeFormatted for VecSymbolMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(map_input.len().min(count as usize));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -305,7 +307,7 @@ impl DecodeFormatted for VecStringMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(map_input.len().min(count as usize));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -341,7 +343,8 @@ impl DecodeFormatted for List {
         let header = ListHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut list_input = input.split_to(header.size as usize);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> =
+            Vec::with_capacity(list_input.len().min(header.count as usize));
         for _ in 0..header.count {
             let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
@@ -357,7 +360,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
         let mut list_input = input.split_to(header.size as usize);
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(list_input.len().min(header.count as usize));
         for _ in 0..header.count {
             if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..e192ea5 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -39,7 +39,7 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(buf.len().min(self.count as usize));
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
-- 
2.43.0


From f04e09816275c900a322be003b0ec96f7a9caedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 05/44] fix: hash maps used as map keys instead of panicking

---
 codec/src/types/variant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..1c4090d 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -253,8 +253,9 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // entries have no defined order, equal maps have equal length
+        self.map.len().hash(state);
     }
 }
 
-- 
2.43.0


From 03f64be83b42b9b24af736c243bd0345da849d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 06/44] fix: limit the nesting of decoded variants

---
 codec/src/codec/decode.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index d400d8f..865115b 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{cell::Cell, char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -376,8 +376,37 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     }
 }
 
+/// Max nesting of values inside of a single `Variant`
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Keeps track of the current nesting level, decoding of nested values is recursive
+struct Nesting;
+
+impl Nesting {
+    fn enter() -> Result<Nesting, AmqpParseError> {
+        NESTING.with(|level| {
+            if level.get() >= MAX_NESTING {
+                return Err(AmqpParseError::UnexpectedType("Nesting is too deep"));
+            }
+            level.set(level.get() + 1);
+            Ok(Nesting)
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|level| level.set(level.get().saturating_sub(1)));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        let _nesting = Nesting::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
-- 
2.43.0


From d9a4341b13f7ac6c9256ab0dee451c94c399ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:13 +0000
Subject: [PATCH 07/44] fix: do not wrap link credit around when the peer
 reduces it below what is in flight

---
 src/session.rs | 13 +++++++++++++
 src/sndlink.rs | 13 +++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 099cfbc..3816599 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -22,6 +22,19 @@ use crate::{ConnectionRef, ControlFrame, cell::Cell, types::Action};
 
 pub(crate) const INITIAL_NEXT_OUTGOING_ID: TransferNumber = 1;
 
+/// Part of the `granted` amount that is not used by `in_flight` items.
+///
+/// `in_flight` is a difference of two serial numbers, it is negative
+/// if the peer is ahead of us.
+pub(crate) fn remaining(granted: u32, in_flight: u32) -> u32 {
+    let in_flight = in_flight.cast_signed();
+    if in_flight < 0 {
+        granted.saturating_add(in_flight.unsigned_abs())
+    } else {
+        granted.saturating_sub(in_flight.unsigned_abs())
+    }
+}
+
 #[derive(Clone)]
 pub struct Session {
     pub(crate) inner: Cell<SessionInner>,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..b31bb0e 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -9,7 +9,7 @@ use ntex_util::channel::{condition, oneshot, pool};
 use ntex_util::future::{Either, Ready};
 
 use crate::delivery::TransferBuilder;
-use crate::session::{Session, SessionInner};
+use crate::session::{Session, SessionInner, remaining};
 use crate::{Handle, cell::Cell, error::AmqpProtocolError};
 
 #[derive(Clone)]
@@ -292,11 +292,12 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // deliveries the peer has not seen yet use up the new credit,
+            // they can exceed it if the peer reduces the credit
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(0));
+            let new_credit = remaining(credit, in_flight);
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From 49ddce7d655110d11dbdbad2b3ebb7c09b2faea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:13 +0000
Subject: [PATCH 08/44] fix: do not wrap the session window around when the
 peer reduces it

---
 src/session.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 3816599..c950736 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1143,11 +1143,12 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // transfers the peer has not seen yet use up the new window,
+        // they can exceed it if the peer reduces the window
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = remaining(flow.incoming_window(), in_flight);
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
-- 
2.43.0


From e21f25456985629b8f48ca3b5094df8707128680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 09/44] fix: leave room for the transfer performative when the
 peer's frame size is small

---
 src/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index c950736..97461cc 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1255,7 +1255,8 @@ impl SessionInner {
         } else if max_frame_size == 0 {
             u32::MAX
         } else {
-            max_frame_size
+            // leave space for transfer performative
+            cmp::max(max_frame_size / 2, 1)
         } as usize;
 
         // body is larger than allowed frame size, send body as a set of transfers
-- 
2.43.0


From 2e28627a145fe5af6e3ca34979ba5d43c3a01cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:32 +0000
Subject: [PATCH 10/44] fix: zero max-message-size in attach means there is no
 limit

---
 src/session.rs | 1 +
 src/sndlink.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 97461cc..2bb380d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -903,6 +903,7 @@ impl SessionInner {
                             cell,
                             attach
                                 .max_message_size()
+                                .filter(|v| *v != 0)
                                 .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
                         ));
                         let local_sender = mem::replace(
diff --git a/src/sndlink.rs b/src/sndlink.rs
index b31bb0e..d56cb54 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -212,8 +212,10 @@ impl SenderLinkInner {
         name.trimdown();
 
         let delivery_count = frame.initial_delivery_count().unwrap_or(0);
+        // zero means there is no limit
         let max_message_size = frame
             .max_message_size()
+            .filter(|size| *size != 0)
             .map(|size| u32::try_from(size).unwrap_or(u32::MAX));
 
         SenderLinkInner::new(
-- 
2.43.0


From 623b27f2b633e8a407d6adc4c062011850c7fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 11/44] fix: enforce the announced message size limit on every
 received transfer

---
 src/rcvlink.rs | 29 ++++++++++++++++++-----------
 src/session.rs |  4 ++++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..1709b20 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -100,7 +100,7 @@ impl ReceiverLink {
 
     /// Set max message size.
     pub fn set_max_message_size(&self, size: u64) {
-        self.inner.get_mut().max_message_size = size;
+        self.inner.get_mut().set_max_message_size(size);
     }
 
     /// Check deliveries
@@ -289,6 +289,10 @@ impl ReceiverLinkInner {
         }
     }
 
+    pub(crate) fn set_max_message_size(&mut self, size: u64) {
+        self.max_message_size = size;
+    }
+
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
         self.credit += credit;
         self.session
@@ -318,6 +322,19 @@ impl ReceiverLinkInner {
             }
 
             // handle batched transfer
+            // zero means there is no limit
+            let size = self.partial_body.as_ref().map_or(0, BytesMut::len)
+                + transfer.0.body.as_ref().map_or(0, TransferBody::len);
+            if self.max_message_size != 0 && size as u64 > self.max_message_size {
+                let err = Error(Box::new(codec::ErrorInner {
+                    condition: LinkError::MessageSizeExceeded.into(),
+                    description: None,
+                    info: None,
+                }));
+                let _ = self.close(Some(err));
+                return Action::None;
+            }
+
             if let Some(ref mut body) = self.partial_body {
                 if transfer.0.delivery_id.is_some() {
                     // if delivery_id is set, then it should be equal to first transfer
@@ -338,16 +355,6 @@ impl ReceiverLinkInner {
 
                 // merge transfer data and check size
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
                     transfer_body.encode(body);
                 }
 
diff --git a/src/session.rs b/src/session.rs
index 2bb380d..58046d0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -674,6 +674,10 @@ impl SessionInner {
             token as u32,
             &frame,
         ));
+        // enforce the limit peer is going to be told about
+        inner
+            .get_mut()
+            .set_max_message_size(frame.max_message_size().unwrap_or(0));
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
-- 
2.43.0


From addf6e3830e58c3b42c800340ebaa25475b1f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 12/44] fix: receiver's delivery count is a serial number, it
 must not overflow

---
 src/rcvlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 1709b20..d16d5d0 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -363,7 +363,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -430,7 +430,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
-- 
2.43.0


From 13352e37db8072538852b9dd2f90b1b74bed574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:02 +0000
Subject: [PATCH 13/44] fix: discard aborted deliveries instead of delivering
 them truncated

---
 src/delivery.rs |  5 +++++
 src/rcvlink.rs  | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..4d6fd20 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -115,6 +115,11 @@ impl Delivery {
         }
     }
 
+    /// Peer aborted the delivery, it is implicitly settled
+    pub(crate) fn aborted(self) {
+        self.set_flag(Flags::REMOTE_SETTLED);
+    }
+
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
         if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index d16d5d0..06dc5c8 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -317,7 +317,7 @@ impl ReceiverLinkInner {
             let _ = self.close(Some(err));
             Action::None
         } else {
-            if !transfer.0.more {
+            if !transfer.0.more || transfer.0.aborted {
                 self.credit -= 1;
             }
 
@@ -353,6 +353,16 @@ impl ReceiverLinkInner {
                     }
                 }
 
+                // discard aborted delivery
+                if transfer.0.aborted {
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
+                    self.partial_body = None;
+                    if let Some((delivery, _)) = self.queue.pop_back() {
+                        delivery.aborted();
+                    }
+                    return Action::None;
+                }
+
                 // merge transfer data and check size
                 if let Some(transfer_body) = transfer.0.body.take() {
                     transfer_body.encode(body);
@@ -385,6 +395,9 @@ impl ReceiverLinkInner {
                         Action::None
                     }
                 }
+            } else if transfer.0.aborted {
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+                Action::None
             } else if transfer.more() {
                 // handle first transfer in batch
                 if let Some(id) = transfer.delivery_id() {
-- 
2.43.0


From cc1580a84b1b652e5dba67bff387b58c3fddec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 14/44] fix: receiver must not allow more deliveries than the
 credit it announced

---
 src/rcvlink.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 06dc5c8..4e33822 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -1,6 +1,6 @@
 use std::{
-    collections::VecDeque, future::Future, future::poll_fn, hash, pin::Pin, task::Context,
-    task::Poll,
+    cmp, collections::VecDeque, future::Future, future::poll_fn, hash, pin::Pin,
+    task::Context, task::Poll,
 };
 
 use ntex_amqp_codec::protocol::{
@@ -294,7 +294,9 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        // peer replaces the credit it has left with the new one,
+        // but it does not know about reduced credit yet
+        self.credit = cmp::max(self.credit, credit);
         self.session
             .inner
             .get_mut()
-- 
2.43.0


From e028e0417013b1ea9ebea712a1aca43603e01814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 15/44] fix: count received transfers, flow frames reported a
 stale next-incoming-id

---
 src/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 58046d0..597fb04 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -827,6 +827,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -861,7 +863,6 @@ impl SessionInner {
                                 }
                                 ReceiverLinkState::Established(link) => {
                                     // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
-- 
2.43.0


From 9c78c0e137728f766e0cc5de017d3d991dbd5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 16/44] fix: take delivery count and handle of a local receiver
 link from the peer's attach

---
 src/rcvlink.rs | 6 ++++++
 src/session.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 4e33822..ec561d7 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -246,6 +246,12 @@ impl ReceiverLinkInner {
         }
     }
 
+    /// Peer answered local attach
+    pub(crate) fn remote_attached(&mut self, frame: &Attach) {
+        self.remote_handle = frame.handle();
+        self.delivery_count = frame.initial_delivery_count().unwrap_or(0);
+    }
+
     fn wake(&self) {
         self.reader_task.wake();
     }
diff --git a/src/session.rs b/src/session.rs
index 597fb04..c21b8cc 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -931,6 +931,7 @@ impl SessionInner {
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
                                 self.remote_handles.insert(attach.handle(), *index);
+                                link.get_mut().remote_attached(attach);
 
                                 *item = ReceiverLinkState::Established(
                                     EstablishedReceiverLink::new(link.clone()),
-- 
2.43.0


From 212459d9cc8556c7fdb2e7da82635a7512c124ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 17/44] fix: deliveries the peer settled before the wait leave
 the waiter hanging and are settled again

---
 src/delivery.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 4d6fd20..11c0ba1 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -88,11 +88,18 @@ impl Delivery {
 
     pub fn is_remote_settled(&self) -> bool {
         self.is_set(Flags::REMOTE_SETTLED)
+            || self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -122,7 +129,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -164,9 +171,16 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
+            if inner.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
             }
+            if inner.settled {
+                // settled without outcome, there is nothing to wait for
+                return Ok(None);
+            }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
             inner.tx = Some(tx);
@@ -221,10 +235,11 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
-
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+        if let Some(delivery) = deliveries.remove(&self.id) {
+            if !delivery.settled
+                && !self.is_set(Flags::REMOTE_SETTLED)
+                && !self.is_set(Flags::LOCAL_SETTLED)
+            {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
-- 
2.43.0


From ddd083a77260e50a4ef4d74499582665309f172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:07 +0000
Subject: [PATCH 18/44] fix: ranges of a disposition can wrap around and must
 not be walked id by id

---
 src/session.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index c21b8cc..b81f322 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1130,14 +1130,14 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
-                    delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
+            // delivery ids are serial numbers, the range can include the wrap around.
+            // its length is up to the peer, so look at known deliveries only
+            let len = to.wrapping_sub(from);
+            if len <= i32::MAX as u32 {
+                for (no, delivery) in deliveries.iter_mut() {
+                    if no.wrapping_sub(from) <= len {
+                        delivery.handle_disposition(disp);
+                    }
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From 792a69508151232d07837964a51141717fe403ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 19/44] fix: end a session by its own channel, not by the
 peer's channel number

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index b81f322..8b3e35e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -118,7 +118,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
-- 
2.43.0


From 8130303c79d1fb44e786fc7b6542272040d6ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 20/44] fix: connection failure must complete sessions that are
 being ended

---
 src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..422ba77 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -220,8 +220,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
-- 
2.43.0


From 6de318109ae6433d29f670c5acafc2c321f1ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 21/44] fix: detach must fail transfers of the link that wait
 for the session window

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 8b3e35e..15c050f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -997,7 +997,7 @@ impl SessionInner {
 
                         // drop pending transfers
                         let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
+                        let handle = link.inner.get_ref().id();
                         while idx < self.pending_transfers.len() {
                             if self.pending_transfers[idx].link_handle == handle {
                                 let tr = self.pending_transfers.remove(idx).unwrap();
-- 
2.43.0


From 33c665c46702f2b83ca7ea92a368cd70feb95700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 22/44] fix: local close must wake sends and receives waiting
 on the link

---
 src/rcvlink.rs |  4 +++-
 src/session.rs | 45 +++++++++++++++++++++++++++++++++++----------
 src/sndlink.rs | 31 +++++++++++++++++++++----------
 3 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index ec561d7..58f5102 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -498,7 +498,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
diff --git a/src/session.rs b/src/session.rs
index 15c050f..9316681 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -296,6 +296,23 @@ struct PendingTransfer {
     link_handle: Handle,
 }
 
+/// Fail transfers of the link
+fn drop_transfers(
+    transfers: &mut VecDeque<PendingTransfer>,
+    link_handle: Handle,
+    err: &AmqpProtocolError,
+) {
+    let mut idx = 0;
+    while idx < transfers.len() {
+        if transfers[idx].link_handle == link_handle {
+            let tr = transfers.remove(idx).unwrap();
+            let _ = tr.tx.send(Err(err.clone()));
+        } else {
+            idx += 1;
+        }
+    }
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -526,6 +543,11 @@ impl SessionInner {
                 }
                 SenderLinkState::Established(sender_link) => {
                     let sender_link = sender_link.clone();
+                    drop_transfers(
+                        &mut self.pending_transfers,
+                        id,
+                        &AmqpProtocolError::Disconnected,
+                    );
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -996,16 +1018,11 @@ impl SessionInner {
                         self.links_by_name.remove(link.inner.name());
 
                         // drop pending transfers
-                        let mut idx = 0;
-                        let handle = link.inner.get_ref().id();
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
+                        drop_transfers(
+                            &mut self.pending_transfers,
+                            link.inner.get_ref().id(),
+                            &err,
+                        );
 
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
@@ -1223,6 +1240,14 @@ impl SessionInner {
         format: Option<MessageFormat>,
     ) -> Result<DeliveryNumber, AmqpProtocolError> {
         loop {
+            // session or link could be closed while waiting for the window
+            if let Some(ref err) = self.error {
+                return Err(err.clone());
+            }
+            if self.get_sender_link_by_local_handle(link_handle).is_none() {
+                return Err(AmqpProtocolError::Disconnected);
+            }
+
             if self.remote_incoming_window == 0 {
                 log::trace!(
                     "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
diff --git a/src/sndlink.rs b/src/sndlink.rs
index d56cb54..64dc2fe 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
@@ -270,9 +266,7 @@ impl SenderLinkInner {
         if self.closed {
             Either::Left(Ready::Ok(()))
         } else {
-            self.closed = true;
-            self.on_close.notify_and_lock_readiness();
-            self.on_credit.notify_and_lock_readiness();
+            self.local_closed();
 
             let (tx, rx) = oneshot::channel();
 
@@ -291,6 +285,18 @@ impl SenderLinkInner {
         }
     }
 
+    /// Link is closed from our side, nothing can be sent over it anymore
+    fn local_closed(&mut self) {
+        self.closed = true;
+
+        // drop pending transfers
+        for tx in self.pending_transfers.drain(..) {
+            let _ = tx.send(Err(AmqpProtocolError::Disconnected));
+        }
+        self.on_close.notify_and_lock_readiness();
+        self.on_credit.notify_and_lock_readiness();
+    }
+
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
@@ -340,6 +346,13 @@ impl SenderLinkInner {
             let tag = self.get_tag(tag);
 
             loop {
+                // link could be closed while waiting for credit
+                if let Some(ref err) = self.error {
+                    return Err(err.clone());
+                }
+                if self.closed {
+                    return Err(AmqpProtocolError::Disconnected);
+                }
                 if self.link_credit == 0 || !self.pending_transfers.is_empty() {
                     log::trace!(
                         "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
@@ -412,9 +425,7 @@ impl Drop for EstablishedSenderLink {
     fn drop(&mut self) {
         let inner = self.0.inner.get_mut();
         if !inner.closed {
-            inner.closed = true;
-            inner.on_close.notify_and_lock_readiness();
-            inner.on_credit.notify_and_lock_readiness();
+            inner.local_closed();
         }
     }
 }
-- 
2.43.0


From 4a45868905ba005bc4c545d8f5887ce4a8f1d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 23/44] fix: removal of a link must remove its name and its
 remote handle

---
 src/session.rs | 30 +++++++++++++-----------------
 src/sndlink.rs |  4 ----
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 9316681..bdc3859 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -386,6 +386,7 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.remote_handles.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -586,6 +587,15 @@ impl SessionInner {
         }
     }
 
+    /// Remove link, its name and its remote handle
+    fn remove_link(&mut self, idx: usize) {
+        if self.links.contains(idx) {
+            self.links.remove(idx);
+        }
+        self.links_by_name.retain(|_, id| *id != idx);
+        self.remote_handles.retain(|_, id| *id != idx);
+    }
+
     /// Detach unconfirmed sender link
     pub(crate) fn detach_unconfirmed_sender_link(
         &mut self,
@@ -620,9 +630,7 @@ impl SessionInner {
         }));
         self.post_frame(detach.into());
 
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
+        self.remove_link(token);
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -767,9 +775,7 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
+                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -788,9 +794,6 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
@@ -992,7 +995,6 @@ impl SessionInner {
             return Action::None;
         };
 
-        let handle = frame.handle();
         let mut action = Action::None;
 
         let remove = if let Some(link) = self.links.get_mut(idx) {
@@ -1014,9 +1016,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         drop_transfers(
                             &mut self.pending_transfers,
@@ -1117,10 +1116,7 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
-            self.remote_handles.remove(&handle);
+            self.remove_link(idx);
         }
         action
     }
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 64dc2fe..9112c8d 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From 9e5c69547911ba8d6e91980378725cf036bb7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 24/44] fix: detach must not use handle of the peer as a local
 handle

---
 src/session.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index bdc3859..f0285ca 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -987,8 +987,6 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
-            frame.handle() as usize
         } else {
             // should not happen, error
             log::info!("{}: Detaching unknown link: {frame:?}", self.tag());
-- 
2.43.0


From b8ee1f3ef08785a8d87f2a6756026ce4c74017ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 25/44] fix: attach with a name of an established or an
 opposite link must be answered

---
 src/session.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index f0285ca..1cd71d3 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -914,7 +914,7 @@ impl SessionInner {
 
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
-                Some(Either::Left(item)) => {
+                Some(Either::Left(item)) if attach.0.role == Role::Receiver => {
                     if item.is_opening() {
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
@@ -944,9 +944,17 @@ impl SessionInner {
                         if let SenderLinkState::Opening(Some(tx)) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
+                        return true;
+                    }
+                    if matches!(item, SenderLinkState::Closing(_))
+                        && !self.remote_handles.values().any(|id| id == index)
+                    {
+                        // link is closed while it is opening, wait for detach
+                        self.remote_handles.insert(attach.handle(), *index);
+                        return true;
                     }
                 }
-                Some(Either::Right(item)) => {
+                Some(Either::Right(item)) if attach.0.role == Role::Sender => {
                     if item.is_opening() {
                         log::trace!(
                             "{}: Local receiver link attached: {name:?} {index} -> {}",
@@ -967,18 +975,14 @@ impl SessionInner {
                                 log::error!("{}: Inconsistent session state, bug", self.tag());
                             }
                         }
+                        return true;
                     }
                 }
-                _ => {
-                    // TODO: error in proto, have to close connection
-                    log::trace!("Protocol error");
-                }
+                _ => (),
             }
-            true
-        } else {
-            // cannot handle remote attach
-            false
         }
+        // cannot handle remote attach
+        false
     }
 
     #[allow(clippy::too_many_lines)]
-- 
2.43.0


From 0074d539c6bd15d4be440d5240600d62f42c2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:07 +0000
Subject: [PATCH 26/44] fix: nothing can be sent over a session after its end,
 and over a link after its detach

---
 src/rcvlink.rs |  3 +++
 src/session.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 58f5102..b5ac8d1 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -300,6 +300,9 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
+        if self.closed {
+            return;
+        }
         // peer replaces the credit it has left with the new one,
         // but it does not know about reduced credit yet
         self.credit = cmp::max(self.credit, credit);
diff --git a/src/session.rs b/src/session.rs
index 1cd71d3..72c7362 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -471,6 +471,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Err(err) = self.check_ended() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -694,6 +698,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Err(err) = self.check_ended() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -1239,9 +1247,7 @@ impl SessionInner {
     ) -> Result<DeliveryNumber, AmqpProtocolError> {
         loop {
             // session or link could be closed while waiting for the window
-            if let Some(ref err) = self.error {
-                return Err(err.clone());
-            }
+            self.check_ended()?;
             if self.get_sender_link_by_local_handle(link_handle).is_none() {
                 return Err(AmqpProtocolError::Disconnected);
             }
@@ -1374,7 +1380,23 @@ impl SessionInner {
         Ok(delivery_id)
     }
 
+    /// Session that is ended or is going to end cannot be used
+    fn check_ended(&self) -> Result<(), AmqpProtocolError> {
+        if let Some(ref err) = self.error {
+            Err(err.clone())
+        } else if self.flags.intersects(Flags::ENDED | Flags::ENDING) {
+            Err(AmqpProtocolError::Disconnected)
+        } else {
+            Ok(())
+        }
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        if self.flags.intersects(Flags::ENDED | Flags::ENDING) {
+            // nothing can be sent after end of the session
+            log::trace!("{}: Session is ended, frame is dropped", self.tag());
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From b5ac7f90fce254bc35a96a09a6e080513d32cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 27/44] fix: refused sender link must be attached as a sender

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 72c7362..dca82b9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -612,7 +612,7 @@ impl SessionInner {
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: token as Handle,
-            role: attach.0.role,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
-- 
2.43.0


From 011da0392d797c0adefc0ab552a604e65a45dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 28/44] fix: receiver link that is being opened can be detached

---
 src/session.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index dca82b9..c17eca9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -807,7 +807,15 @@ impl SessionInner {
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(_) => {
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        closed,
+                        error,
+                        handle: id,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -985,6 +993,13 @@ impl SessionInner {
                         }
                         return true;
                     }
+                    if matches!(item, ReceiverLinkState::Closing(_))
+                        && !self.remote_handles.values().any(|id| id == index)
+                    {
+                        // link is closed while it is opening, wait for detach
+                        self.remote_handles.insert(attach.handle(), *index);
+                        return true;
+                    }
                 }
                 _ => (),
             }
-- 
2.43.0


From 4e909b2815b289944d418c01992322b83239441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:05 +0000
Subject: [PATCH 29/44] fix: flow and detach for a link that is not confirmed
 yet must not be lost

---
 src/connection.rs |   9 +--
 src/dispatcher.rs |   4 ++
 src/rcvlink.rs    |   5 ++
 src/session.rs    | 179 +++++++++++++++++++++++++++++++++-------------
 src/sndlink.rs    |   2 +-
 5 files changed, 142 insertions(+), 57 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 422ba77..88a74a5 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -424,11 +423,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..35d09c8 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -331,6 +331,10 @@ where
         } else {
             match frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(ref frm, ref mut pfrm, ref link) => {
+                    // link is detached already
+                    if link.is_closed() {
+                        return Ok(());
+                    }
                     let link = link.clone();
                     let fut = self
                         .service
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index b5ac8d1..eca96a0 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -85,6 +85,10 @@ impl ReceiverLink {
 
     pub(crate) fn confirm_receiver_link(&self, response: Attach) {
         let inner = self.inner.get_mut();
+        // link is detached or the session is ended already
+        if inner.closed {
+            return;
+        }
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
         inner
@@ -268,6 +272,7 @@ impl ReceiverLinkInner {
         // drop pending transfers
         self.queue.clear();
         self.closed = true;
+        self.wake();
     }
 
     pub(crate) fn close(
diff --git a/src/session.rs b/src/session.rs
index c17eca9..96c0f22 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -251,7 +251,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(SenderLink, ByteString),
     Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
@@ -397,9 +397,17 @@ impl SessionInner {
                         let _ = tx.send(Err(err.clone()));
                     }
                 }
+                Either::Left(SenderLinkState::OpeningRemote(link, _)) => {
+                    link.inner.get_mut().remote_detached(err.clone());
+                }
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
+                Either::Right(ReceiverLinkState::Opening(item)) => {
+                    if let Some((link, _)) = item.take() {
+                        link.get_mut().detached();
+                    }
+                }
                 _ => (),
             }
         }
@@ -440,10 +448,19 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = SenderLink::new(Cell::new(SenderLinkInner::with(id, attach, cell)));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(
+            link.clone(),
+            attach.0.name.clone(),
+        )));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -462,7 +479,7 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (link, attach)
     }
 
     /// Open sender link
@@ -506,13 +523,17 @@ impl SessionInner {
         );
         let token = link.id;
 
+        // link is detached or the session is ended already
+        if link.closed {
+            return SenderLink::new(link);
+        }
+
         if let Some(source) = attach.source()
             && let Some(ref addr) = source.address
         {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
         *self
             .links
             .get_mut(token)
@@ -567,12 +588,10 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
-                    let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
+                SenderLinkState::OpeningRemote(_, name) => {
+                    let name = name.clone();
+                    *link = SenderLinkState::Closing(Some(tx));
+                    self.refuse_sender_link(id, name, closed, error);
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -607,11 +626,30 @@ impl SessionInner {
         link: &Cell<SenderLinkInner>,
         error: Option<Error>,
     ) {
-        let token = link.id;
+        // link is detached or the session is ended already
+        if link.closed {
+            return;
+        }
+        link.get_mut().local_closed();
 
+        if let Some(state) = self.links.get_mut(link.id) {
+            // wait for detach of the peer
+            *state = Either::Left(SenderLinkState::Closing(None));
+        }
+        self.refuse_sender_link(link.id(), attach.0.name.clone(), true, error);
+    }
+
+    /// Attach and detach sender link
+    fn refuse_sender_link(
+        &mut self,
+        token: Handle,
+        name: ByteString,
+        closed: bool,
+        error: Option<Error>,
+    ) {
         let attach = Attach(Box::new(codec::AttachInner {
-            name: attach.0.name.clone(),
-            handle: token as Handle,
+            name,
+            handle: token,
             role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
@@ -628,13 +666,11 @@ impl SessionInner {
         self.post_frame(attach.into());
 
         let detach = Detach(Box::new(codec::DetachInner {
-            handle: token as Handle,
-            closed: true,
+            handle: token,
+            closed,
             error,
         }));
         self.post_frame(detach.into());
-
-        self.remove_link(token);
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -757,33 +793,13 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    if let Some((inner, source)) = inner.take() {
-                        let attach = Attach(Box::new(codec::AttachInner {
-                            source,
-                            max_message_size: None,
-                            name: inner.name().clone(),
-                            handle: id,
-                            role: Role::Receiver,
-                            snd_settle_mode: SenderSettleMode::Mixed,
-                            rcv_settle_mode: ReceiverSettleMode::First,
-                            target: None,
-                            unsettled: None,
-                            incomplete_unsettled: false,
-                            initial_delivery_count: Some(0),
-                            offered_capabilities: None,
-                            desired_capabilities: None,
-                            properties: None,
-                        }));
-                        self.post_frame(attach.into());
+                    let inner = inner.take();
+                    // wait for detach of the peer
+                    *link = ReceiverLinkState::Closing(None);
+                    if let Some((inner, source)) = inner {
+                        self.refuse_receiver_link(inner.name().clone(), id, source, closed, error);
                     }
-                    let detach = Detach(Box::new(codec::DetachInner {
-                        closed,
-                        error,
-                        handle: id,
-                    }));
-                    self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    self.remove_link(id as usize);
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -826,6 +842,41 @@ impl SessionInner {
         }
     }
 
+    /// Attach and detach receiver link
+    fn refuse_receiver_link(
+        &mut self,
+        name: ByteString,
+        handle: Handle,
+        source: Option<Source>,
+        closed: bool,
+        error: Option<Error>,
+    ) {
+        let attach = Attach(Box::new(codec::AttachInner {
+            source,
+            name,
+            handle,
+            max_message_size: None,
+            role: Role::Receiver,
+            snd_settle_mode: SenderSettleMode::Mixed,
+            rcv_settle_mode: ReceiverSettleMode::First,
+            target: None,
+            unsettled: None,
+            incomplete_unsettled: false,
+            initial_delivery_count: Some(0),
+            offered_capabilities: None,
+            desired_capabilities: None,
+            properties: None,
+        }));
+        self.post_frame(attach.into());
+
+        let detach = Detach(Box::new(codec::DetachInner {
+            closed,
+            error,
+            handle,
+        }));
+        self.post_frame(detach.into());
+    }
+
     pub(crate) fn get_receiver_link_by_local_handle(&self, hnd: Handle) -> Option<&ReceiverLink> {
         if let Some(Either::Right(ReceiverLinkState::Established(link))) =
             self.links.get(hnd as usize)
@@ -855,8 +906,14 @@ impl SessionInner {
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
-                            return Ok(Action::Flow((*link).clone(), flow));
+                        match link {
+                            SenderLinkState::Established(link) => {
+                                return Ok(Action::Flow((*link).clone(), flow));
+                            }
+                            SenderLinkState::OpeningRemote(link, _) => {
+                                return Ok(Action::Flow(link.clone(), flow));
+                            }
+                            _ => (),
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
@@ -1063,11 +1120,19 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
+                    SenderLinkState::OpeningRemote(link, name) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
+                        let (link, name) = (link.clone(), name.clone());
+                        link.inner
+                            .get_mut()
+                            .remote_detached(AmqpProtocolError::LinkDetached(
+                                frame.0.error.clone(),
+                            ));
+                        self.refuse_sender_link(link.id(), name, true, None);
+                        action = Action::DetachSender(link, frame);
                         true
                     }
                     SenderLinkState::Closing(tx) => {
@@ -1082,7 +1147,21 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        if let Some((link, source)) = item.take() {
+                            let link = ReceiverLink::new(link);
+                            link.remote_detached(frame.0.error.take());
+                            self.refuse_receiver_link(
+                                link.name().clone(),
+                                link.handle(),
+                                source,
+                                true,
+                                None,
+                            );
+                            action = Action::DetachReceiver(link, frame);
+                        }
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 9112c8d..e914ab7 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -282,7 +282,7 @@ impl SenderLinkInner {
     }
 
     /// Link is closed from our side, nothing can be sent over it anymore
-    fn local_closed(&mut self) {
+    pub(crate) fn local_closed(&mut self) {
         self.closed = true;
 
         // drop pending transfers
-- 
2.43.0


From d681aa1d35cd699a2879f4c76f7af21237ac340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 30/44] fix: close frame must be sent once and must be the last
 frame

---
 src/connection.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 88a74a5..92926d3 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -155,9 +155,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -166,14 +164,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -191,14 +182,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -234,7 +218,21 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        // `Close` is the last frame, it can be sent once
+        if self.state == ConnectionState::Normal {
+            self.post_frame(AmqpFrame::new(0, Frame::Close(Close { error })));
+            self.state = ConnectionState::Closing;
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        if self.state != ConnectionState::Normal {
+            log::trace!("{}: Connection is closed, frame is dropped", self.io.tag());
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
@@ -357,7 +355,7 @@ impl ConnectionInner {
         match frame {
             Frame::Empty => Ok(Action::None),
             Frame::Close(close) => {
-                if self.state == ConnectionState::Closing {
+                if self.state != ConnectionState::Normal {
                     log::trace!("{}: Connection closed: {:?}", self.io.tag(), close);
                     self.set_error(AmqpProtocolError::Disconnected);
                     Ok(Action::None)
-- 
2.43.0


From 1ccaba46b80317e000e34afcbd5d0801d92d9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 31/44] fix: Begin must not replace a session or create one on
 failed connection

---
 src/connection.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index 92926d3..bb842dd 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -370,6 +370,18 @@ impl ConnectionInner {
                 }
             }
             Frame::Begin(begin) => {
+                if self.error.is_some() || self.state != ConnectionState::Normal {
+                    log::error!(
+                        "{}: Connection closed but new session is requested",
+                        self.io.tag()
+                    );
+                    return Ok(Action::None);
+                }
+                if self.sessions_map.contains_key(&channel_id) {
+                    log::error!("{}: Channel {channel_id} is in use", self.io.tag());
+                    return Err(AmqpProtocolError::Unexpected(Frame::Begin(begin)));
+                }
+
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
-- 
2.43.0


From fd1a68b08dc0f128073c6de36199610d68164b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 32/44] fix: channel limit of the peer and of remote sessions
 must be enforced

---
 src/connection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index bb842dd..d38962d 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -68,7 +68,7 @@ impl Connection {
             control_queue: Rc::default(),
             error: None,
             on_close: Condition::new(),
-            channel_max: local_config.channel_max,
+            channel_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -255,6 +255,10 @@ impl ConnectionInner {
 
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.channel_max as usize {
+            log::trace!("{}: Too many channels: {local_token:?}", self.io.tag());
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -594,7 +598,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From a89984c28e243ba32aec70c9603f55ea7a4da336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:20 +0000
Subject: [PATCH 33/44] fix: sasl outcome after a challenge must not wait for
 one more sasl frame

---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From a9fb9f31fea457c704e41ccc6871383f65a51753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:20 +0000
Subject: [PATCH 34/44] fix: failed sasl negotiation must not allow to open
 connection

---
 src/server/sasl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 7478882..922765e 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -163,6 +163,11 @@ impl SaslInit {
             .await
             .map_err(HandshakeError::from)?;
 
+        // connection cannot be opened if authentication failed
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
+
         Ok(SaslSuccess {
             state,
             local_config,
@@ -212,6 +217,11 @@ impl SaslResponse {
             .await
             .map_err(HandshakeError::from)?;
 
+        // connection cannot be opened if authentication failed
+        if code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(code));
+        }
+
         Ok(SaslSuccess {
             state,
             local_config,
-- 
2.43.0


From 77feceb76ed44fae42560c49b4952b348a6ddedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:20 +0000
Subject: [PATCH 35/44] fix: enforce handshake timeout for client protocol
 negotiation

---
 src/client/connector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..b9ce6ef 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -139,8 +139,11 @@ where
     ) -> Result<Client, Error<ConnectError>> {
         log::trace!("{}: Negotiation client protocol id: Amqp", io.tag());
 
-        connect_plain_inner(io, self.config.clone(), hostname)
+        let fut = connect_plain_inner(io, self.config.clone(), hostname);
+        timeout_checked(self.config.handshake_timeout, fut)
             .await
+            .map_err(|()| Error::from(ConnectError::HandshakeTimeout))
+            .and_then(|res| res)
             .map_err(|e| e.set_service(self.config.service()))
     }
 
@@ -153,8 +156,11 @@ where
     ) -> Result<Client, Error<ConnectError>> {
         log::trace!("{}: Negotiation client protocol id: Amqp", io.tag());
 
-        connect_sasl_inner(io, auth, self.config.clone(), hostname)
+        let fut = connect_sasl_inner(io, auth, self.config.clone(), hostname);
+        timeout_checked(self.config.handshake_timeout, fut)
             .await
+            .map_err(|()| Error::from(ConnectError::HandshakeTimeout))
+            .and_then(|res| res)
             .map_err(|e| e.set_service(self.config.service()))
     }
 }
-- 
2.43.0


From ba615b204199636f0740d12643d597808981e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 36/44] fix: enforce frame size limit during handshake

---
 src/client/connector.rs | 2 +-
 src/server/handshake.rs | 2 +-
 src/server/sasl.rs      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index b9ce6ef..d280f05 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -195,7 +195,7 @@ async fn connect_sasl_inner(
         )));
     }
 
-    let codec = AmqpCodec::<SaslFrame>::new();
+    let codec = AmqpCodec::<SaslFrame>::new().max_size(config.max_frame_size as usize);
 
     // processing sasl-mechanisms
     let _ = io
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..6d918cb 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -52,7 +52,7 @@ impl HandshakeAmqp {
     pub async fn open(self) -> Result<HandshakeAmqpOpened, HandshakeError> {
         let state = self.state;
         let local_config = self.local_config;
-        let codec = AmqpCodec::<AmqpFrame>::new();
+        let codec = AmqpCodec::<AmqpFrame>::new().max_size(local_config.max_size);
 
         let frame = state.recv(&codec).await?.ok_or_else(|| {
             log::trace!(
diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 922765e..20a4fb7 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -56,7 +56,7 @@ impl Sasl {
         }
         .into();
 
-        let codec = AmqpCodec::<SaslFrame>::new();
+        let codec = AmqpCodec::<SaslFrame>::new().max_size(local_config.max_size);
         state
             .send(frame, &codec)
             .await
@@ -258,7 +258,7 @@ impl SaslSuccess {
                     .map_err(HandshakeError::from)?;
 
                 // Wait for connection open frame
-                let codec = AmqpCodec::<AmqpFrame>::new();
+                let codec = AmqpCodec::<AmqpFrame>::new().max_size(self.local_config.max_size);
                 let frame = state
                     .recv(&codec)
                     .await?
-- 
2.43.0


From fa09f8efa54ae51fcc071096b1013e85b8a09f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 37/44] fix: short idle timeout of the peer must not disable
 keep-alive

---
 src/client/connection.rs |  4 ++--
 src/dispatcher.rs        |  2 +-
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 5 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 35d09c8..eea9484 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -35,7 +35,7 @@ where
         ctl_service: Pipeline<Ctl>,
         idle_timeout: Millis,
     ) -> Self {
-        let idle_timeout = Millis(cmp::min(idle_timeout.0 >> 1, 1000));
+        let idle_timeout = Millis(cmp::min(idle_timeout.0.div_ceil(2), 1000));
         Dispatcher {
             sink,
             idle_timeout,
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..bdc4152 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Part of the idle timeout of the peer, it is never zero for non-zero timeout
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - self.idle_time_out / 4)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index 6d918cb..4c671e6 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 6f5d209130d656a51bd0713ef4b72443d0dcdaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 38/44] fix: router must not keep handlers of detached and
 refused links

---
 src/router.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..adc6ad5 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -99,10 +99,14 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         match hnd.create(link).await {
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
-                                self.0
-                                    .get_mut()
-                                    .handlers
-                                    .insert(rcv_link.clone(), Some(Pipeline::new(srv)));
+                                let srv = Pipeline::new(srv);
+                                if let Some(item) = self.0.get_mut().handlers.get_mut(&rcv_link) {
+                                    *item = Some(srv);
+                                } else {
+                                    // link is detached already
+                                    srv.shutdown().await;
+                                    return Ok(());
+                                }
                                 if let Some((delivery, tr)) = rcv_link.get_delivery() {
                                     service_call(rcv_link, delivery, tr, &self.0).await
                                 } else {
@@ -110,6 +114,7 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                 }
                             }
                             Err(e) => {
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 log::error!(
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
-- 
2.43.0


From 03d9212fdd46a27f4049029e76e803d4a460ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 39/44] fix: publish service must be notified about links that
 are closed locally

---
 src/dispatcher.rs | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index eea9484..dc4a6f5 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -9,7 +9,9 @@ use ntex_util::{future::Either, task::LocalWaker};
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
-use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
+use crate::{
+    ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, connection::Connection, types,
+};
 
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
@@ -225,28 +227,14 @@ where
                     }
                     types::Action::DetachReceiver(link, frm) => {
                         let lnk = link.clone();
-                        let fut = self.service.call(types::Message::Detached(lnk));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.notify_service(types::Message::Detached(lnk));
                         self.call_control_service(ControlFrame::new(
                             link.session().inner.clone(),
                             ControlFrameKind::RemoteDetachReceiver(frm, link),
                         ));
                     }
                     types::Action::SessionEnded(links) => {
-                        let receivers = links
-                            .iter()
-                            .filter_map(|either| match either {
-                                Either::Right(link) => Some(link.clone()),
-                                Either::Left(_) => None,
-                            })
-                            .collect();
-
-                        let fut = self.service.call(types::Message::DetachedAll(receivers));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.notify_service(types::Message::DetachedAll(receivers(&links)));
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::RemoteSessionEnded(links),
                         ));
@@ -296,11 +284,30 @@ where
     Ctl: Service<ControlFrame, Response = ()> + 'static,
     Error: From<Sr::Error> + From<Ctl::Error>,
 {
+    /// Notify publish service
+    fn notify_service(&self, msg: types::Message) {
+        let fut = self.service.call(msg);
+        spawn(async move {
+            let _ = fut.await;
+        });
+    }
+
     fn handle_control_frame(
         &self,
         frame: &ControlFrame,
         err: Option<Error>,
     ) -> Result<(), AmqpDispatcherError> {
+        // links that are closed locally are gone for publish service as well
+        match frame.0.get_ref().kind {
+            ControlFrameKind::LocalDetachReceiver(_, ref link) => {
+                self.notify_service(types::Message::Detached(link.clone()));
+            }
+            ControlFrameKind::LocalSessionEnded(ref links) => {
+                self.notify_service(types::Message::DetachedAll(receivers(links)));
+            }
+            _ => (),
+        }
+
         if let Some(err) = err {
             match &frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(_, _, link)
@@ -380,6 +387,16 @@ where
     }
 }
 
+fn receivers(links: &[Either<SenderLink, ReceiverLink>]) -> Vec<ReceiverLink> {
+    links
+        .iter()
+        .filter_map(|either| match either {
+            Either::Right(link) => Some(link.clone()),
+            Either::Left(_) => None,
+        })
+        .collect()
+}
+
 pin_project_lite::pin_project! {
     pub struct ServiceResult<'f, F, E>
     where F: 'f
-- 
2.43.0


From 6364cc7e1ea89ed263205cc984581363df8281c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:38 +0000
Subject: [PATCH 40/44] fix: router must own the handler while it is in use

---
 src/router.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index adc6ad5..c4b7bbf 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -204,7 +204,9 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // handler can be removed while it is in use
+    let srv = inner.handlers.get(&link).cloned().flatten();
+    if let Some(srv) = srv {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0


From 82999ecb183843dd497b7313f14f5696c4ee2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 41/44] fix: fail unsettled deliveries when detach of a closed
 link is confirmed

---
 src/session.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 96c0f22..18b3662 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1136,6 +1136,13 @@ impl SessionInner {
                         true
                     }
                     SenderLinkState::Closing(tx) => {
+                        // peer is not going to settle transfers of this link anymore
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_snd_deliveries.values_mut() {
+                            if delivery.handle() as usize == idx {
+                                delivery.set_error(err.clone());
+                            }
+                        }
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
@@ -1203,6 +1210,13 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // peer is not going to settle transfers of this link anymore
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+                            if delivery.handle() as usize == idx {
+                                delivery.set_error(err.clone());
+                            }
+                        }
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
-- 
2.43.0


From 61babb6621b39cf3df7008c33a9ac1dc10667676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:50 +0000
Subject: [PATCH 42/44] fix: mark link as closed when it is detached before it
 is confirmed

---
 src/session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 18b3662..6bed120 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -588,8 +588,9 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote(_, name) => {
+                SenderLinkState::OpeningRemote(sender_link, name) => {
                     let name = name.clone();
+                    sender_link.inner.get_mut().local_closed();
                     *link = SenderLinkState::Closing(Some(tx));
                     self.refuse_sender_link(id, name, closed, error);
                 }
@@ -797,6 +798,7 @@ impl SessionInner {
                     // wait for detach of the peer
                     *link = ReceiverLinkState::Closing(None);
                     if let Some((inner, source)) = inner {
+                        inner.get_mut().detached();
                         self.refuse_receiver_link(inner.name().clone(), id, source, closed, error);
                     }
                     let _ = tx.send(Ok(()));
-- 
2.43.0


From 91fd208c74e74730f267bc21b5c4d3d43c145ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 43/44] fix: keep sending keep-alive frames when the peer is
 silent

---
 src/dispatcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index dc4a6f5..2364a15 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -150,6 +150,9 @@ where
             );
             self.sink.post_frame(AmqpFrame::new(0, Frame::Empty));
             self.idle_sleep.reset(self.idle_timeout);
+
+            // register waker for the restarted timer
+            let _ = self.idle_sleep.poll_elapsed(cx);
         }
 
         Ok(())
-- 
2.43.0


From 9b0a1fc47310ba7140820e7262c11b142296606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 44/44] fix: release link service if the link is gone before it
 is attached

---
 src/dispatcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2364a15..c1400c3 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -350,11 +350,15 @@ where
                         .service
                         .call(types::Message::Attached(frm.clone(), link.clone()));
                     let response = pfrm.take();
+                    let service = self.service.clone();
 
                     ntex_rt::spawn(async move {
                         let result = fut.await;
                         if let Err(err) = result {
                             let _ = link.close_with_error(Error::from(err)).await;
+                        } else if link.is_closed() {
+                            // link is gone while publish service was attaching it
+                            let _ = service.call(types::Message::Detached(link)).await;
                         } else {
                             link.confirm_receiver_link(response);
                             link.set_link_credit(50);
-- 
2.43.0

