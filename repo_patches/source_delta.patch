From 59b68413ec54504a7b54fc2defeb46e0fbc0fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 01/13] fix: encode the reference number of a simulation
 identifier

It was always written as zero.
---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From d61ccb1134b157a4e8147c455ade14c06c487254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 02/13] fix: encode the other dead reckoning parameters

Fifteen zero bytes were written instead.
---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From f25a9cc8f25ff1455dabc46f70e6d87df8993640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 03/13] fix: give entity markings their eleven octets

The text was written without padding or truncation, which moved every field
after it, and decoding stored the number of bytes left in the buffer instead of
the text.
---
 src/common/data_types/entity_marking.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..01472f2 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Octets of marking text on the wire, zero-filled
+    const STRING_LENGTH: usize = Self::LENGTH - 1;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,20 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        let marking = self.entity_marking_string.as_bytes();
+        let used = marking.len().min(Self::STRING_LENGTH);
+        buf.put_slice(&marking[..used]);
+        buf.put_bytes(0u8, Self::STRING_LENGTH - used);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::STRING_LENGTH];
+        buf.copy_to_slice(&mut marking);
+        let marking = String::from_utf8_lossy(&marking);
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: marking.trim_end_matches('\0').to_string(),
         }
     }
 }
-- 
2.43.0


From 80ad62471da608bcbc3f430c0d62aeeff2917451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 04/13] fix: refuse PDUs larger than the maximum PDU size

Sizes between MAX_PDU_SIZE_OCTETS and 65535 were encoded; only what did not fit
the 16-bit length was refused.
---
 src/pdu_macro.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..64757c5 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,10 +284,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
-                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
-                    size: len,
-                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-                })
+                u16::try_from(len)
+                    .ok()
+                    .filter(|_| len <= $crate::common::constants::MAX_PDU_SIZE_OCTETS)
+                    .ok_or($crate::common::dis_error::DISError::PduSizeExceeded {
+                        size: len,
+                        max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    })
             }
 
             fn header(&self) -> &Self::Header {
-- 
2.43.0


From 5d0883c674a8fcf49b52da2bac88fde16c6e9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 05/13] fix: take header timestamps from one clock reading

Minutes, seconds and fractions came from three readings, so a rollover between
them gave a time up to an hour away from the real one.
---
 src/common/live_entity_pdu_header.rs | 7 ++++---
 src/common/pdu_header.rs             | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..f97fffe 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -124,9 +124,10 @@ impl LiveEntityPduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..1c532de 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -246,9 +246,10 @@ impl PduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
-- 
2.43.0


From f29160d93db82f3f86abbedb638af4fa1e8eadff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 06/13] fix: check the header given to
 deserialize_without_header

A header of another PDU type was accepted although the documentation promises
an error.
---
 src/pdu_macro.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 64757c5..c9cb515 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -347,6 +347,13 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+
                 let mut body = Self::deserialize_body(buf);
                 body.header = header;
                 Ok(body)
-- 
2.43.0


From f8eec525f90941ca731941e13bd112d531c18a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 07/13] fix: decode variable datums to the value that was
 encoded

The value came back preceded by as many zero bytes, the padding to 64 bits was
left in the buffer for the next field to read, and it was missing from the
reported length.
---
 src/common/data_types/datum_records.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..591824c 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,12 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Octets of padding that bring the value to a 64-bit boundary
+    const fn padding_count(length_bits: u32) -> usize {
+        let pad_bits = (64u32 - (length_bits % 64)) % 64;
+        (pad_bits / 8) as usize
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -87,10 +93,11 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value = vec![];
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        buf.advance(Self::padding_count(length_bits));
 
         Self {
             datum_id,
@@ -114,6 +121,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_count(self.length_bits)
     }
 }
-- 
2.43.0


From 8b35f5d38ee1bf5b07fd3c3303ed94376327f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 08/13] fix: encode every value of a record specification
 element

Values beyond length * count were dropped while still being counted in the
length, missing ones panicked, and the product overflowed 16 bits.
---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..fdde754 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From 0834a0dd30de0c88819427e3c86a637634f97c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 09/13] fix: report truncated packets as buffer underflow

Decoding panicked when the buffer ended inside a PDU, whatever its source, and
counts taken from the packet could make it build hundreds of megabytes first.
---
 src/common/data_types/datum_records.rs        |   7 +-
 src/common/data_types/record_specification.rs |   8 +-
 .../record_specification_element.rs           |   7 +-
 src/pdu_macro.rs                              | 132 +++++++++++++++++-
 4 files changed, 136 insertions(+), 18 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index 591824c..98d349e 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_elements};
 
 #[derive(Clone, Debug)]
 pub struct FixedDatumRecord {
@@ -93,10 +93,7 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![];
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        let value = deserialize_elements(buf, value_bytes);
         buf.advance(Self::padding_count(length_bits));
 
         Self {
diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..7937097 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_elements};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -36,10 +36,8 @@ impl RecordSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_record_sets = buf.get_u32();
-        let mut record_sets: Vec<RecordSpecificationElement> = vec![];
-        for _i in 0..number_of_record_sets {
-            record_sets.push(RecordSpecificationElement::deserialize(buf));
-        }
+        let record_sets: Vec<RecordSpecificationElement> =
+            deserialize_elements(buf, number_of_record_sets as usize);
         Self {
             number_of_record_sets,
             record_sets,
diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index fdde754..4d555c6 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_elements};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -48,10 +48,7 @@ impl RecordSpecificationElement {
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
         let num_record_values = usize::from(record_length) * usize::from(record_count);
-        let mut record_values: Vec<u8> = vec![];
-        for _ in 0..num_record_values {
-            record_values.push(buf.get_u8());
-        }
+        let record_values: Vec<u8> = deserialize_elements(buf, num_record_values);
 
         Self {
             record_id,
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index c9cb515..c6edbe4 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -8,6 +8,7 @@
 //! Place this file at crate root and `pub mod pdu_macro;` in lib.rs.
 //! Use `use crate::define_pdu;` in PDU modules.
 
+use crate::common::dis_error::DISError;
 use bytes::{Buf, BufMut, BytesMut};
 
 /// Serialize a single field into the buffer.
@@ -47,6 +48,125 @@ where
     }
 }
 
+/// View of a buffer that tolerates reads past its end: such a read yields zeros, uses up what
+/// is left and is remembered, so that decoding a truncated PDU can be refused afterwards.
+pub struct CheckedBuf<'a, B: Buf> {
+    inner: &'a mut B,
+    underflow: Option<(usize, usize)>,
+}
+
+impl<'a, B: Buf> CheckedBuf<'a, B> {
+    pub const fn new(inner: &'a mut B) -> Self {
+        Self {
+            inner,
+            underflow: None,
+        }
+    }
+
+    /// # Errors
+    ///
+    /// Will return `DISError::BufferUnderflow` if anything was read past the end of the buffer
+    pub const fn check(&self) -> Result<(), DISError> {
+        match self.underflow {
+            Some((attempted, available)) => Err(DISError::buffer_underflow(attempted, available)),
+            None => Ok(()),
+        }
+    }
+
+    fn has(&mut self, attempted: usize) -> bool {
+        let available = self.inner.remaining();
+        if attempted > available {
+            self.underflow.get_or_insert((attempted, available));
+            self.inner.advance(available);
+        }
+        attempted <= available
+    }
+
+    fn take_array<const N: usize>(&mut self) -> [u8; N] {
+        let mut bytes = [0u8; N];
+        self.copy_to_slice(&mut bytes);
+        bytes
+    }
+}
+
+impl<B: Buf> Buf for CheckedBuf<'_, B> {
+    fn remaining(&self) -> usize {
+        self.inner.remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.inner.chunk()
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        if self.has(cnt) {
+            self.inner.advance(cnt);
+        }
+    }
+
+    fn copy_to_slice(&mut self, dst: &mut [u8]) {
+        if self.has(dst.len()) {
+            self.inner.copy_to_slice(dst);
+        } else {
+            dst.fill(0);
+        }
+    }
+
+    fn get_u8(&mut self) -> u8 {
+        u8::from_be_bytes(self.take_array())
+    }
+
+    fn get_i8(&mut self) -> i8 {
+        i8::from_be_bytes(self.take_array())
+    }
+
+    fn get_u16(&mut self) -> u16 {
+        u16::from_be_bytes(self.take_array())
+    }
+
+    fn get_i16(&mut self) -> i16 {
+        i16::from_be_bytes(self.take_array())
+    }
+
+    fn get_u32(&mut self) -> u32 {
+        u32::from_be_bytes(self.take_array())
+    }
+
+    fn get_i32(&mut self) -> i32 {
+        i32::from_be_bytes(self.take_array())
+    }
+
+    fn get_u64(&mut self) -> u64 {
+        u64::from_be_bytes(self.take_array())
+    }
+
+    fn get_i64(&mut self) -> i64 {
+        i64::from_be_bytes(self.take_array())
+    }
+
+    fn get_f32(&mut self) -> f32 {
+        f32::from_be_bytes(self.take_array())
+    }
+
+    fn get_f64(&mut self) -> f64 {
+        f64::from_be_bytes(self.take_array())
+    }
+}
+
+/// Deserialize `count` elements. A count that the buffer cannot hold ends with the element
+/// that runs past the end of it.
+pub fn deserialize_elements<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize) -> Vec<T> {
+    let mut elements = vec![];
+    for _ in 0..count {
+        let exhausted = !buf.has_remaining();
+        elements.push(T::deserialize_field(buf));
+        if exhausted {
+            break;
+        }
+    }
+    elements
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -328,8 +448,11 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                let mut buf = $crate::pdu_macro::CheckedBuf::new(buf);
+
                 // deserialize header using its associated function
-                let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
+                let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(&mut buf);
+                buf.check()?;
 
                 // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                 if header.pdu_type() != $pdu_type {
@@ -340,7 +463,8 @@ macro_rules! define_pdu {
                 }
 
                 // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(&mut buf);
+                buf.check()?;
                 body.header = header;
                 Ok(body)
             }
@@ -354,7 +478,9 @@ macro_rules! define_pdu {
                     ));
                 }
 
-                let mut body = Self::deserialize_body(buf);
+                let mut buf = $crate::pdu_macro::CheckedBuf::new(buf);
+                let mut body = Self::deserialize_body(&mut buf);
+                buf.check()?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From 5dd680959bcfe55acc8cb345bd582a73696eed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 10/13] fix: decode the lists of PDUs

Every list field came back empty and its elements were left in the buffer. A
`count` attribute now names the field that holds the number of elements.
---
 src/distributed_emissions.rs                  |  7 +++++++
 src/entity_information.rs                     |  3 +++
 src/entity_management.rs                      |  6 ++++++
 src/logistics.rs                              |  3 +++
 src/minefield.rs                              |  7 +++++++
 src/pdu_macro.rs                              | 18 ++++++++++++------
 src/radio_communications.rs                   |  4 ++++
 src/simulation_management.rs                  | 14 ++++++++++++++
 src/simulation_management_with_reliability.rs | 15 +++++++++++++++
 src/synthetic_environment.rs                  |  3 +++
 src/warfare.rs                                |  3 +++
 11 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/src/distributed_emissions.rs b/src/distributed_emissions.rs
index ad6170c..237aac6 100644
--- a/src/distributed_emissions.rs
+++ b/src/distributed_emissions.rs
@@ -45,6 +45,7 @@ define_pdu! {
             pub state_update_indicator: EEAttributeStateIndicator,
             pub number_of_systems: u8,
             padding: u16,
+            #[count = number_of_systems]
             pub systems: Vec<ElectromagneticEmissionSystemData>,
         }
     }
@@ -91,8 +92,11 @@ define_pdu! {
             pub number_of_shafts: u8,
             pub number_of_apas: u8,
             pub number_of_ua_emitter_systems: u8,
+            #[count = number_of_shafts]
             pub shaft_rpms: Vec<ShaftRPMs>,
+            #[count = number_of_apas]
             pub apa_data: Vec<ApaData>,
+            #[count = number_of_ua_emitter_systems]
             pub emitter_systems: Vec<AcousticEmitterSystem>,
         }
     }
@@ -116,6 +120,7 @@ define_pdu! {
             pub layer_header: LayerHeader,
             pub beam_data: BeamData,
             pub secondary_operational_data: SecondaryOperationalData,
+            #[count = secondary_operational_data.number_of_iff_fundamental_parameter_records]
             pub iff_parameters: Vec<IFFFundamentalParameterData>,
         }
     }
@@ -135,7 +140,9 @@ define_pdu! {
             pub radar_cross_section_signature_representation_index: u16,
             pub number_of_propulsion_systems: u16,
             pub number_of_vectoring_nozzle_systems: u16,
+            #[count = number_of_propulsion_systems]
             pub propulsion_system_data: Vec<PropulsionSystemData>,
+            #[count = number_of_vectoring_nozzle_systems]
             pub vectoring_nozzle_system_data: Vec<VectoringNozzleSystemData>,
         }
     }
diff --git a/src/entity_information.rs b/src/entity_information.rs
index f97adce..3032605 100644
--- a/src/entity_information.rs
+++ b/src/entity_information.rs
@@ -46,6 +46,7 @@ define_pdu! {
             pub dead_reckoning_parameters: DeadReckoningParameters,
             pub entity_marking: EntityMarking,
             pub entity_capabilities: EntityCapabilities,
+            #[count = number_of_articulation_parameters]
             pub articulation_parameter: Vec<VariableParameter>,
         }
     }
@@ -113,6 +114,7 @@ define_pdu! {
             pub entity_location: WorldCoordinate,
             pub entity_orientation: EulerAngles,
             pub entity_appearance: u32,
+            #[count = number_of_variable_parameters]
             pub variable_parameter_records: Vec<VariableParameter>,
         }
     }
@@ -135,6 +137,7 @@ define_pdu! {
             pub action_code: DISAttributeActionCode,
             padding3: u8,
             pub number_of_attribute_record_sets: u16,
+            #[count = number_of_attribute_record_sets]
             pub attribute_record_sets: Vec<AttributeRecordSet>,
         }
     }
diff --git a/src/entity_management.rs b/src/entity_management.rs
index 157600e..63e4ca7 100644
--- a/src/entity_management.rs
+++ b/src/entity_management.rs
@@ -49,12 +49,17 @@ define_pdu! {
             pub number_of_dis_entities: u16,
             pub number_of_silent_aggregate_types: u16,
             pub number_of_silent_entity_types: u16,
+            #[count = number_of_dis_aggregates]
             pub aggregate_id_list: Vec<AggregateId>,
+            #[count = number_of_dis_entities]
             pub entity_id_list: Vec<EntityId>,
             padding: Vec<u8>,
+            #[count = number_of_silent_aggregate_types]
             pub silent_aggregate_system_list: Vec<EntityType>,
+            #[count = number_of_silent_entity_types]
             pub silent_entity_system_list: Vec<EntityType>,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_list: Vec<VariableDatumRecord>,
         }
     }
@@ -74,6 +79,7 @@ define_pdu! {
             padding: u32,
             pub latitude: f64,
             pub longitude: f64,
+            #[count = number_of_grouped_entities]
             pub grouped_entity_descriptions: Vec<u64>,
         }
     }
diff --git a/src/logistics.rs b/src/logistics.rs
index 5aa9c6d..d76d720 100644
--- a/src/logistics.rs
+++ b/src/logistics.rs
@@ -32,6 +32,7 @@ define_pdu! {
             pub service_type_requested: ServiceRequestServiceTypeRequested,
             pub number_of_supply_types: u8,
             padding: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -50,6 +51,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -68,6 +70,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
diff --git a/src/minefield.rs b/src/minefield.rs
index af2f039..61aba31 100644
--- a/src/minefield.rs
+++ b/src/minefield.rs
@@ -38,7 +38,9 @@ define_pdu! {
             pub minefield_orientation: EulerAngles,
             pub appearance: u16,
             pub protocol_mode: MinefieldStateProtocolMode,
+            #[count = number_of_perimeter_points]
             pub perimeter_points: Vec<Point>,
+            #[count = number_of_mine_types]
             pub mine_type: Vec<EntityType>,
         }
     }
@@ -60,7 +62,9 @@ define_pdu! {
             pub number_of_sensor_types: u8,
             pub data_filter: u32,
             pub requested_mine_type: EntityType,
+            #[count = number_of_perimeter_points]
             pub requested_perimeter_points: Vec<Point>,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
         }
     }
@@ -85,7 +89,9 @@ define_pdu! {
             padding: u8,
             pub data_filter: u32,
             pub mine_type: EntityType,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
+            #[count = number_of_mines_in_this_pdu]
             pub mine_location: Vec<EntityCoordinateVector>,
             pub ground_burial_depth_offset: Vec<Option<f32>>,
             pub water_burial_depth_offset: Vec<Option<f32>>,
@@ -117,6 +123,7 @@ define_pdu! {
             pub requesting_entity_id: EntityId,
             pub request_id: u8,
             pub number_of_missing_pdus: u8,
+            #[count = number_of_missing_pdus]
             pub missing_pdu_sequence_numbers: Vec<u64>,
         }
     }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index c6edbe4..964577a 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -218,6 +218,11 @@ macro_rules! __pdu_deserialize_field {
         );
     };
 
+    // Vec<T> with a count attribute -> read that many elements
+    ( count = $count:expr ; $field:ident, $t:ty, $buf:ident ) => {
+        let $field: $t = $crate::pdu_macro::deserialize_elements($buf, ($count) as usize);
+    };
+
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
@@ -342,7 +347,7 @@ macro_rules! define_pdu {
             protocol_family: $protocol_family:expr,
             fields: {
                 $(
-                    $(#[len = $len_field:ident])? $fvis:vis $field:ident : $ftype:ty,
+                    $(#[len = $len_field:ident])? $(#[count = $count:expr])? $fvis:vis $field:ident : $ftype:ty,
                 )*
             }
 
@@ -376,11 +381,12 @@ macro_rules! define_pdu {
             /// you should write custom code in the manual body impl below or adapt the macro.
             fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
                 $(
-                    // Each field can optionally be annotated with `#[len = name]`.
-                    // The helper macro below will either call the plain `FieldDeserialize`
-                    // or the length-aware `FieldDeserializeWithLen` depending on the
-                    // annotation.
-                    $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
+                    // Each field can optionally be annotated with `#[len = name]`, or with
+                    // `#[count = expression]` in terms of the fields before it.
+                    // The helper macro below will either call the plain `FieldDeserialize`,
+                    // the length-aware `FieldDeserializeWithLen` or `deserialize_elements`
+                    // depending on the annotation.
+                    $crate::__pdu_deserialize_field!( $( len = $len_field )? $( count = $count )? ; $field, $ftype, buf );
                 )*
 
                 Self {
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..a5d99c2 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -59,6 +59,7 @@ define_pdu! {
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
             pub antenna_pattern: Option<AntennaPattern>,
+            #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
     }
@@ -79,6 +80,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -118,6 +120,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -143,6 +146,7 @@ define_pdu! {
             pub master_intercom_number: u16,
             pub master_channel_id: u16,
             pub intercom_parameters_length: u32,
+            #[count = intercom_parameters_length / 8]
             pub intercom_parameters: Vec<IntercomCommunicationsParameters>,
         }
     }
diff --git a/src/simulation_management.rs b/src/simulation_management.rs
index 8c6a4bc..26c1fef 100644
--- a/src/simulation_management.rs
+++ b/src/simulation_management.rs
@@ -118,7 +118,9 @@ define_pdu! {
             pub action_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -138,7 +140,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -158,7 +162,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -178,7 +184,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -198,7 +206,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -218,7 +228,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -236,7 +248,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
diff --git a/src/simulation_management_with_reliability.rs b/src/simulation_management_with_reliability.rs
index 0af891b..1cdec78 100644
--- a/src/simulation_management_with_reliability.rs
+++ b/src/simulation_management_with_reliability.rs
@@ -137,7 +137,9 @@ define_pdu! {
             padding3: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -157,7 +159,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -180,7 +184,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_ids: Vec<VariableRecordTypes>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_ids: Vec<VariableRecordTypes>,
         }
     }
@@ -202,7 +208,9 @@ define_pdu! {
             pub request_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -224,7 +232,9 @@ define_pdu! {
             padding2: u16,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -244,7 +254,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -262,7 +274,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -284,6 +298,7 @@ define_pdu! {
             pub event_type: RecordQueryREventType,
             pub time: u32,
             pub number_of_records: u32,
+            #[count = number_of_records]
             pub record_ids: Vec<u32>,
         }
     }
diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index f9dddd9..b52b996 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -40,6 +40,7 @@ define_pdu! {
             pub environment_status: u8,
             pub number_of_environment_records: u16,
             pub sequence_number: u16,
+            #[count = number_of_environment_records]
             pub environment_records: Vec<Environment>,
         }
     }
@@ -115,6 +116,7 @@ define_pdu! {
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
             pub object_type: ObjectType,
+            #[count = number_of_segments]
             pub linear_segment_parameters: Vec<LinearSegmentParameter>,
         }
     }
@@ -139,6 +141,7 @@ define_pdu! {
             pub number_of_points: u16,
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
+            #[count = number_of_points]
             pub object_location: Vec<WorldCoordinate>,
         }
     }
diff --git a/src/warfare.rs b/src/warfare.rs
index ce0641e..b6393bb 100644
--- a/src/warfare.rs
+++ b/src/warfare.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub detonation_result: DetonationResult,
             pub number_of_variable_parameters: u8,
             padding: u16,
+            #[count = number_of_variable_parameters]
             pub variable_parameters: Vec<VariableParameter>,
         }
     }
@@ -90,6 +91,7 @@ define_pdu! {
             padding3: u32,
             padding4: u16,
             pub number_of_de_records: u16,
+            #[count = number_of_de_records]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
@@ -107,6 +109,7 @@ define_pdu! {
             padding: u16,
             padding2: u16,
             pub number_of_damage_descriptions: u16,
+            #[count = number_of_damage_descriptions]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
-- 
2.43.0


From fa7df3d57a0510ac8046c39877d6d1ffcc8e61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 11/13] fix: decode the antenna pattern of a transmitter

Its length field was neither set when encoding nor used when decoding, so the
pattern was dropped and its bytes were read as variable parameters.
---
 src/pdu_macro.rs            | 2 +-
 src/radio_communications.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 964577a..b58e717 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -180,7 +180,7 @@ macro_rules! __pdu_prep_serialize_field {
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
+        $self.$len_field = TryFrom::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
             &$self.$field,
         ))
         .unwrap_or_default();
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index a5d99c2..35b9d40 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,6 +58,7 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
             #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
-- 
2.43.0


From 09f447759a8c176c2359241a8accaf480feea89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 12/13] fix: decode the record type of variable transmitter
 parameters in full

It is encoded in four octets but only one was read, which shifted the length and
the fields after it.
---
 src/common/data_types/variable_transmitter_parameters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..d2337fc 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,7 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type = VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From 9596e1076730249919c4f7c2bfd99d16eac4f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 13/13] fix: decode the enumerations of a grid data record in
 full

Both are encoded in two octets, but only one was read and counted in the
length.
---
 src/common/data_types/grid_data_record.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..0e6f811 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -4,6 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
@@ -131,8 +132,9 @@ impl GridDataRecord {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let sample_type = GriddedDataSampleType::deserialize(buf);
-        let data_representation = GriddedDataDataRepresentation::deserialize(buf);
+        let sample_type = GriddedDataSampleType::from_u16(buf.get_u16()).unwrap_or_default();
+        let data_representation =
+            GriddedDataDataRepresentation::from_u16(buf.get_u16()).unwrap_or_default();
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
@@ -210,6 +212,6 @@ impl FieldDeserialize for GridDataRecord {
 
 impl FieldLen for GridDataRecord {
     fn field_len(&self) -> usize {
-        self.sample_type.field_len() + self.data_representation.field_len() + self.data.field_len()
+        2 /* sample_type u16 */ + 2 /* data_representation u16 */ + self.data.field_len()
     }
 }
-- 
2.43.0

