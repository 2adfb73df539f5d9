From 0980f0f0b7d89b4fdc4f255fe807e71669e077d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:07 +0000
Subject: [PATCH 01/31] fix: reject truncated wired frames instead of
 underflowing in the checksum check

---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From e68d13bbc7f1038c6d5ceb4c629dd821663d4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:25 +0000
Subject: [PATCH 02/31] fix: require the second start byte of wired long frames

---
 crates/wired-mbus-link-layer/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..7a7f436 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -83,6 +83,9 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
         match first_byte {
             0x68 => {
+                if *data.get(3).ok_or(FrameError::LengthShort)? != 0x68 {
+                    return Err(FrameError::InvalidStartByte);
+                }
                 validate_checksum(data.get(4..).ok_or(FrameError::LengthShort)?)?;
 
                 let length = *data.get(1).ok_or(FrameError::LengthShort)? as usize;
-- 
2.43.0


From 0aace85b7ae25037c0d29386ab5d8615816af439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:48 +0000
Subject: [PATCH 03/31] fix: accept the single character frame only when it is
 the whole input

A wireless telegram whose length field is 0xE5 was reported as an
acknowledgement because everything after the first byte was ignored.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 7a7f436..ebc65b0 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -74,7 +74,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
     fn try_from(data: &'a [u8]) -> Result<Self, FrameError> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
-        if first_byte == 0xE5 {
+        if first_byte == 0xE5 && data.len() == 1 {
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From dda4ac9064225f2f5912059e2c82065715879197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:04 +0000
Subject: [PATCH 04/31] fix: report an over-long VIFE chain as an error instead
 of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..e31c55f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -59,14 +59,12 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-                vife.push(current_vife);
+                vife.try_push(current_vife)
+                    .map_err(|_| DataInformationError::InvalidValueInformation)?;
                 offset += 1;
                 if !has_extension {
                     break;
                 }
-                if vife.len() > MAX_VIFE_RECORDS {
-                    return Err(DataInformationError::InvalidValueInformation);
-                }
             }
             if standard_plaintex_vib && vif.value_information_contains_ascii() {
                 plaintext_vife = Some(extract_plaintext_vife(
-- 
2.43.0


From 8883985a5ee52329e88849d9dae9f9f9d91caf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:19 +0000
Subject: [PATCH 05/31] fix: report an over-long plain text VIF as an error
 instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e31c55f..d6dab5e 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -89,7 +89,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::DataTooLong)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From 064d2aecc21b7b335d60dbcca6e1bf9f4593be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:51 +0000
Subject: [PATCH 06/31] fix: return an error for the reserved VIF 0x7D instead
 of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index d6dab5e..eeb17a7 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -157,13 +157,12 @@ impl From<&ValueInformationField> for ValueInformationCoding {
         match value_information.data {
             0x00..=0x7B | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
-            0xFD => Self::MainVIFExtension,
+            0x7D | 0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
             0x7E => Self::ManufacturerSpecific,
             0xFE => Self::ManufacturerSpecific,
             0x7F => Self::ManufacturerSpecific,
             0xFF => Self::ManufacturerSpecific,
-            _ => unreachable!("Invalid value information: {:X}", value_information.data),
         }
     }
 }
-- 
2.43.0


From 444788a28b5b61a372d415c2746724277d190569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:17 +0000
Subject: [PATCH 07/31] fix: return an error when a VIFE chain yields too many
 labels or units

---
 .../src/value_information.rs                    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index eeb17a7..9e63582 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -5,6 +5,9 @@ use super::data_information::DataInformationError;
 use arrayvec::ArrayVec;
 
 const MAX_VIFE_RECORDS: usize = 10;
+// Most labels and units a VIF with a full VIFE chain can contribute.
+const MAX_COLLECTED_LABELS: usize = MAX_VIFE_RECORDS + 1;
+const MAX_COLLECTED_UNITS: usize = 2 * (MAX_VIFE_RECORDS + 1);
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[derive(Debug, PartialEq, Copy, Clone)]
@@ -211,8 +214,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
     fn try_from(
         value_information_block: &ValueInformationBlock,
     ) -> Result<Self, DataInformationError> {
-        let mut units = ArrayVec::<Unit, 10>::new();
-        let mut labels = ArrayVec::<ValueLabel, 10>::new();
+        let mut units = ArrayVec::<Unit, MAX_COLLECTED_UNITS>::new();
+        let mut labels = ArrayVec::<ValueLabel, MAX_COLLECTED_LABELS>::new();
         let mut decimal_scale_exponent: isize = 0;
         let mut decimal_offset_exponent = 0;
         let vife_slice = match &value_information_block.value_information_extension {
@@ -704,17 +707,19 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
 
         Ok(Self {
             decimal_offset_exponent,
-            labels,
+            labels: ArrayVec::try_from(labels.as_slice())
+                .map_err(|_| DataInformationError::InvalidValueInformation)?,
             decimal_scale_exponent,
-            units,
+            units: ArrayVec::try_from(units.as_slice())
+                .map_err(|_| DataInformationError::InvalidValueInformation)?,
         })
     }
 }
 
 fn consume_orthhogonal_vife(
     vife: &[ValueInformationFieldExtension],
-    labels: &mut ArrayVec<ValueLabel, 10>,
-    units: &mut ArrayVec<Unit, 10>,
+    labels: &mut ArrayVec<ValueLabel, MAX_COLLECTED_LABELS>,
+    units: &mut ArrayVec<Unit, MAX_COLLECTED_UNITS>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
 ) {
-- 
2.43.0


From 9523d1be3748f4871a8d05307a3eab08d19d36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:31 +0000
Subject: [PATCH 08/31] fix: decode a zero-length variable integer without
 underflowing the shift

---
 crates/m-bus-application-layer/src/data_information.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..3f211f0 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,7 +563,11 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
+    let msb = if shift == 0 {
+        0
+    } else {
+        (data_value >> (shift - 1)) & 1
+    };
     let data_value = if byte_size < 8 && msb == 1 {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
-- 
2.43.0


From 8c54ff992927424c4a4a13fa4cab74f43b698b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:54 +0000
Subject: [PATCH 09/31] fix: place the first DIFE storage bits directly after
 the DIF storage bit

Storage number bits 1-4 come from the first DIFE (EN 13757-3); they were
shifted into bits 5-8.
---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 3f211f0..7d91a07 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << (((extension_index - 1) * 4) + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From 0edf86749a347b974018530e3312d9e0a882fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:21 +0000
Subject: [PATCH 10/31] fix: read the year of type F and type I dates from the
 date bytes

The year was always taken from the first two bytes, which only hold the
date in type G; for type F and I they hold minutes, hours and seconds.
---
 .../m-bus-application-layer/src/data_information.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 7d91a07..b8839fe 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -499,9 +499,9 @@ macro_rules! parse_month {
 }
 
 macro_rules! parse_year {
-    ($input:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
-        let byte1 = u16::from($input.get(1).copied().unwrap_or(0) & $mask_byte1);
-        let byte2 = u16::from($input.get(0).copied().unwrap_or(0) & $mask_byte2);
+    ($input:expr, $day_index:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
+        let byte1 = u16::from($input.get($day_index + 1).copied().unwrap_or(0) & $mask_byte1);
+        let byte2 = u16::from($input.get($day_index).copied().unwrap_or(0) & $mask_byte2);
         let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);
         if year == $all_value {
             SingleEveryOrInvalid::Every()
@@ -776,7 +776,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(1).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 0, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::Date(day, month, year)),
@@ -803,7 +803,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 2, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -867,7 +867,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 3, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From ccf979b67d4d8c3533ab1be44e1dfa4ed643e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:41 +0000
Subject: [PATCH 11/31] fix: treat day 31 of type F and type I dates as a day,
 not as every day

In EN 13757-3 day 0 means every day, as already handled for type G.
---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index b8839fe..df7a022 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -799,7 +799,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -863,7 +863,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From cbf4f49d8d95c28e916c05abbbb78decb53edeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:16 +0000
Subject: [PATCH 12/31] fix: decode month 15 as every month

---
 crates/m-bus-application-layer/src/data_information.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index df7a022..877ea42 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -493,6 +493,7 @@ macro_rules! parse_month {
             0xA => SingleEveryOrInvalid::Single(Month::October),
             0xB => SingleEveryOrInvalid::Single(Month::November),
             0xC => SingleEveryOrInvalid::Single(Month::December),
+            0xF => SingleEveryOrInvalid::Every(),
             _ => SingleEveryOrInvalid::Invalid(),
         }
     };
-- 
2.43.0


From 09e2b6b019e5b37abeb386b79b5a114645167f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:39 +0000
Subject: [PATCH 13/31] fix: choose the date coding by the width of the data
 field

A date VIF combined with another data field width made the record consume
the wrong number of bytes, so every later record was misread.
---
 .../m-bus-application-layer/src/data_record.rs  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..95b006a 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -203,14 +203,17 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // so we must do some additional checks to determine the correct data field coding
 
             if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
+                if d.data_field_coding == DataFieldCoding::Integer16Bit {
+                    d.data_field_coding = DataFieldCoding::DateTypeG;
+                }
             } else if v.labels.contains(&ValueLabel::DateTime) {
-                // VIF 0x6D with a 6-byte data field is a type I date and time
-                // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
-                    DataFieldCoding::DateTimeTypeF
+                // The width of the data field selects the type of VIF 0x6D
+                // (EN 13757-3): 3 bytes type J, 4 bytes type F, 6 bytes type I.
+                d.data_field_coding = match d.data_field_coding {
+                    DataFieldCoding::Integer24Bit => DataFieldCoding::DateTimeTypeJ,
+                    DataFieldCoding::Integer32Bit => DataFieldCoding::DateTimeTypeF,
+                    DataFieldCoding::Integer48Bit => DataFieldCoding::DateTimeTypeI,
+                    other => other,
                 };
             } else if v.labels.contains(&ValueLabel::Time) {
                 d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
-- 
2.43.0


From 84f0574f33c1d22da0f4250c4405ad12c474e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:54 +0000
Subject: [PATCH 14/31] fix: consume three bytes for type J times and require
 six for type I

---
 crates/m-bus-application-layer/src/data_information.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 877ea42..ee8e116 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -833,10 +833,13 @@ impl DataFieldCoding {
 
                 Ok(Data {
                     value: Some(DataType::Time(seconds, minutes, hours)),
-                    size: 4,
+                    size: 3,
                 })
             }
             Self::DateTimeTypeI => {
+                if input.len() < 6 {
+                    return Err(DataRecordError::InsufficientData);
+                }
                 // note: more information can be extracted from the data,
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
-- 
2.43.0


From 5c78caa7ab182f639253400974521f374e7f0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:54 +0000
Subject: [PATCH 15/31] fix: do not return a stripped Format A frame whose
 length does not fit the L-field

---
 crates/wireless-mbus-link-layer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/wireless-mbus-link-layer/src/lib.rs b/crates/wireless-mbus-link-layer/src/lib.rs
index c3b5652..5ee024a 100644
--- a/crates/wireless-mbus-link-layer/src/lib.rs
+++ b/crates/wireless-mbus-link-layer/src/lib.rs
@@ -87,7 +87,8 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
         }
     }
 
-    output[0] = (out_pos - 1) as u8;
+    // The L-field cannot describe more than 255 following bytes.
+    output[0] = u8::try_from(out_pos - 1).ok()?;
     Some(&output[..out_pos])
 }
 
-- 
2.43.0


From 2eb38386ecdc8bb7f3549aa19a32054d798805bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:07 +0000
Subject: [PATCH 16/31] fix: reject an extended link layer nested in extended
 link layer I

---
 crates/m-bus-application-layer/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..640b5d1 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1132,6 +1132,11 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     receiver_address: None,
                     encryption: None,
                 });
+                // Another extended link layer cannot follow; accepting one would
+                // recurse and drop its encryption fields.
+                if matches!(iter.as_slice().first(), Some(0x8C..=0x8E)) {
+                    return Err(ApplicationLayerError::MissingControlInformation);
+                }
                 match UserDataBlock::try_from(iter.as_slice()) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
-- 
2.43.0


From 6f8ece5a2722ba6ee2bf441b4979c0eb98b4104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:30 +0000
Subject: [PATCH 17/31] fix: do not expose records of a payload encrypted at
 the extended link layer

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 640b5d1..673beff 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -581,10 +581,16 @@ impl<'a> UserDataBlock<'a> {
                 long_tpl_header,
             )),
             Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
                 short_tpl_header,
                 variable_data_block,
-                ..
-            } if !short_tpl_header.is_encrypted() => Some(parse_data_records(variable_data_block)),
+            } if !short_tpl_header.is_encrypted()
+                && !extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some()) =>
+            {
+                Some(parse_data_records(variable_data_block))
+            }
             Self::VariableDataStructureWithoutTplHeader {
                 variable_data_block,
                 ..
-- 
2.43.0


From ac26d30a5ce7a38ef128c9c53ab7cd87dc97b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:44 +0000
Subject: [PATCH 18/31] fix: report short header payloads as encrypted when
 they are

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 673beff..5bf4e1d 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -605,6 +605,16 @@ impl<'a> UserDataBlock<'a> {
             Self::VariableDataStructureWithLongTplHeader {
                 long_tpl_header, ..
             } => Some(long_tpl_header.is_encrypted()),
+            Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
+                short_tpl_header,
+                ..
+            } => Some(
+                short_tpl_header.is_encrypted()
+                    || extended_link_layer
+                        .as_ref()
+                        .is_some_and(|ell| ell.encryption.is_some()),
+            ),
             _ => None,
         }
     }
-- 
2.43.0


From 9f74316cd66e7b1acbf91cf35d987dd8e14c23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:00 +0000
Subject: [PATCH 19/31] fix: summarise extended link layer encrypted payloads
 as encrypted

---
 src/mbus_data.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 4a22f16..6432109 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -281,16 +281,7 @@ fn hex_string(data: &[u8]) -> String {
 
 #[cfg(feature = "std")]
 fn user_data_is_encrypted(user_data: Option<&user_data::UserDataBlock>) -> bool {
-    use user_data::UserDataBlock;
-    match user_data {
-        Some(UserDataBlock::VariableDataStructureWithLongTplHeader {
-            long_tpl_header, ..
-        }) => long_tpl_header.is_encrypted(),
-        Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
-            short_tpl_header, ..
-        }) => short_tpl_header.is_encrypted(),
-        _ => false,
-    }
+    user_data.and_then(|block| block.is_encrypted()) == Some(true)
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 4e0efb9b9dae865d284db449584aa6baa5bd2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:55 +0000
Subject: [PATCH 20/31] fix: report VIFE FD 33 in minutes instead of metres

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 9e63582..45404f7 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -454,7 +454,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x33 => {
-                        units.push(unit!(Meter));
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x34 => {
-- 
2.43.0


From 2b94d884d2278edb4c5cd55a2d20850db3a0ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:08 +0000
Subject: [PATCH 21/31] fix: report VIFE FD 6F battery operating time in years

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 45404f7..d4b95a3 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -513,7 +513,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
-- 
2.43.0


From 3284402383e1843694b31803a18260e35d45afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:20 +0000
Subject: [PATCH 22/31] fix: report VIFE FB 00 and FB 01 energies in watt hours

---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index d4b95a3..bc88027 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -592,8 +592,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
-- 
2.43.0


From 8e26376c4067c89ea73affdc603d297fa3e733f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:32 +0000
Subject: [PATCH 23/31] fix: treat the per litre VIFE as a reciprocal unit

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index bc88027..470429f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -793,7 +793,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From 93663752b3c2f8d966faeade3fd8b420f804ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:45 +0000
Subject: [PATCH 24/31] fix: decode begin/end and first/last of the E110 1f1b
 date VIFEs

---
 crates/m-bus-application-layer/src/value_information.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 470429f..7e2d0ae 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -952,9 +952,9 @@ fn consume_orthhogonal_vife(
                 0x69 => labels.push(ValueLabel::LeakageValues),
                 0x6D => labels.push(ValueLabel::OverflowValues),
                 0x6A => labels.push(ValueLabel::DateOfBeginFirst),
-                0x6B => labels.push(ValueLabel::DateOfBeginLast),
-                0x6E => labels.push(ValueLabel::DateOfEndLast),
-                0x6F => labels.push(ValueLabel::DateOfEndFirst),
+                0x6B => labels.push(ValueLabel::DateOfEndFirst),
+                0x6E => labels.push(ValueLabel::DateOfBeginLast),
+                0x6F => labels.push(ValueLabel::DateOfEndLast),
                 0x70..=0x77 => {
                     *decimal_scale_exponent += (v.data & 0b111) as isize - 6;
                 }
-- 
2.43.0


From 320ddccb64b91a27778328879c32120e805e6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:44 +0000
Subject: [PATCH 25/31] fix: do not read the true VIF after FB or FD as an
 additive offset

---
 src/output.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..39811de 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1733,10 +1733,18 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
+    // After FB and FD the first extension is the true VIF, and the extensions of
+    // a manufacturer specific VIF have no standard meaning.
+    let true_vif_extensions = match block.value_information.data {
+        0xFB | 0xFD => 1,
+        0xFE | 0xFF => return None,
+        _ => 0,
+    };
     block
         .value_information_extension
         .as_ref()?
         .iter()
+        .skip(true_vif_extensions)
         .filter_map(|extension| {
             let code = extension.data & 0x7F;
             (0x78..=0x7B)
-- 
2.43.0


From ea69e0d44ea8ba1ce4d5c4cbb50afdb7a93bd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:14 +0000
Subject: [PATCH 26/31] fix: do not read the second-table VIF after FD FD as a
 combinable extension

---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 7e2d0ae..f87c4d2 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -547,9 +547,11 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     },
                     _ => labels.push(ValueLabel::Reserved),
                 }
-                // Skip vife_slice[0] — it's the true VIF (already consumed above)
+                // Skip the true VIF (already consumed above): vife_slice[0], and
+                // vife_slice[1] when the first one only selects the second table
+                let consumed = if first_vife_data & 0x7F == 0x7D { 2 } else { 1 };
                 consume_orthhogonal_vife(
-                    vife_slice.get(1..).unwrap_or(&[]),
+                    vife_slice.get(consumed..).unwrap_or(&[]),
                     &mut labels,
                     &mut units,
                     &mut decimal_scale_exponent,
-- 
2.43.0


From ade265efd82c955f7adc6e13902fde23a461ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:03 +0000
Subject: [PATCH 27/31] fix: find the offset code behind FD FD and skip
 manufacturer bytes after FC in decimal output

---
 src/output.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 39811de..752ae7a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1733,25 +1733,30 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
-    // After FB and FD the first extension is the true VIF, and the extensions of
-    // a manufacturer specific VIF have no standard meaning.
+    let extensions = block.value_information_extension.as_ref()?;
+    // After FB and FD the first extension is the true VIF (after FD FD the second
+    // one), and the extensions of a manufacturer specific VIF have no standard
+    // meaning.
     let true_vif_extensions = match block.value_information.data {
+        0xFD if extensions.first().is_some_and(|code| code.data & 0x7F == 0x7D) => 2,
         0xFB | 0xFD => 1,
         0xFE | 0xFF => return None,
         _ => 0,
     };
-    block
-        .value_information_extension
-        .as_ref()?
-        .iter()
-        .skip(true_vif_extensions)
-        .filter_map(|extension| {
-            let code = extension.data & 0x7F;
-            (0x78..=0x7B)
-                .contains(&code)
-                .then(|| isize::from(extension.data & 0b11) - 3)
-        })
-        .next_back()
+    let mut offset = None;
+    let mut extended_table = false;
+    for extension in extensions.iter().skip(true_vif_extensions) {
+        if extension.data == 0xFC {
+            // The next code belongs to the extended combinable table.
+            extended_table = true;
+            continue;
+        }
+        if !extended_table && (0x78..=0x7B).contains(&(extension.data & 0x7F)) {
+            offset = Some(isize::from(extension.data & 0b11) - 3);
+        }
+        extended_table = false;
+    }
+    offset
 }
 
 fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-- 
2.43.0


From 2a4ff2c8fbe43bdda80bd047765be04795fe846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:11 +0000
Subject: [PATCH 28/31] fix: print long variable-length BCD values from the raw
 digits instead of the rounded float

---
 src/output.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 752ae7a..e458ecc 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1665,7 +1665,10 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
 fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     let marker = *data.first()?;
     match marker {
-        0xC0..=0xC9 | 0xD0..=0xD9 => Some(format!("{parsed:.0}")),
+        0xC0..=0xC9 | 0xD0..=0xD9 => {
+            let length = usize::from(marker & 0x0F);
+            Some(exact_bcd_significand(data.get(1..=length)?, parsed))
+        }
         0xE0..=0xEF => {
             let length = usize::from(marker - 0xE0);
             signed_le_decimal(data.get(1..=length)?)
@@ -1680,6 +1683,34 @@ fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     }
 }
 
+/// Up to 18 BCD digits do not fit an `f64`, so they are read from the bytes; the
+/// parsed value tells the sign and in which order the bytes were sent.
+fn exact_bcd_significand(bytes: &[u8], parsed: f64) -> String {
+    let mut first_most_significant = 0u64;
+    for byte in bytes.iter() {
+        first_most_significant =
+            first_most_significant * 100 + u64::from(byte >> 4) * 10 + u64::from(byte & 0x0F);
+    }
+    let mut last_most_significant = 0u64;
+    for byte in bytes.iter().rev() {
+        last_most_significant =
+            last_most_significant * 100 + u64::from(byte >> 4) * 10 + u64::from(byte & 0x0F);
+    }
+    let approximate = parsed.abs() as u64;
+    let magnitude = if first_most_significant.abs_diff(approximate)
+        < last_most_significant.abs_diff(approximate)
+    {
+        first_most_significant
+    } else {
+        last_most_significant
+    };
+    if parsed.is_sign_negative() {
+        format!("-{magnitude}")
+    } else {
+        magnitude.to_string()
+    }
+}
+
 fn signed_le_decimal(bytes: &[u8]) -> Option<String> {
     if bytes.is_empty() {
         return None;
-- 
2.43.0


From a965f302a2b53e37489aedc7a09f213a2019d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:19 +0000
Subject: [PATCH 29/31] fix: no superfluous leading zeros in decimal output
 after adding an offset

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index e458ecc..3377729 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1862,6 +1862,9 @@ fn add_abs(left: &str, right: &str) -> String {
         output.push(b'0' + sum % 10);
         carry = sum / 10;
     }
+    while output.len() > 1 && output.last() == Some(&b'0') {
+        output.pop();
+    }
     output.reverse();
     String::from_utf8(output).unwrap_or_else(|_| "0".to_string())
 }
-- 
2.43.0


From a41629082e30bba411e1f8d7a6c0492b75477563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:22 +0000
Subject: [PATCH 30/31] fix: read records of frames with a long header in the
 byte order the header tells

---
 src/output.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 3377729..e22c776 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -420,6 +420,14 @@ pub fn decode_bytes(data: &[u8], options: &DecodeOptions) -> Result<DecodedOutpu
                 parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
             } else if security.encrypted {
                 parsed.data_records = None;
+            } else if let Some(user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                variable_data_block,
+                ..
+            }) = parsed.user_data.as_ref()
+            {
+                // The header tells in which order the bytes were sent.
+                parsed.data_records =
+                    decrypted_records(parsed.user_data.as_ref(), variable_data_block);
             }
             return Ok(build_wired_output(
                 data,
@@ -447,6 +455,14 @@ pub fn decode_bytes(data: &[u8], options: &DecodeOptions) -> Result<DecodedOutpu
                 parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
             } else if security.encrypted {
                 parsed.data_records = None;
+            } else if let Some(user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                variable_data_block,
+                ..
+            }) = parsed.user_data.as_ref()
+            {
+                // The header tells in which order the bytes were sent.
+                parsed.data_records =
+                    decrypted_records(parsed.user_data.as_ref(), variable_data_block);
             }
             Ok(build_wireless_output(
                 data,
@@ -1769,7 +1785,12 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
     // one), and the extensions of a manufacturer specific VIF have no standard
     // meaning.
     let true_vif_extensions = match block.value_information.data {
-        0xFD if extensions.first().is_some_and(|code| code.data & 0x7F == 0x7D) => 2,
+        0xFD if extensions
+            .first()
+            .is_some_and(|code| code.data & 0x7F == 0x7D) =>
+        {
+            2
+        }
         0xFB | 0xFD => 1,
         0xFE | 0xFF => return None,
         _ => 0,
-- 
2.43.0


From bee06ceb59a1697a6c994d57a2bda77ceeb640c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:51 +0000
Subject: [PATCH 31/31] fix: do not report unset seconds of a date and time as
 zero

A date and time with seconds was written as a complete ISO 8601 text when
only its seconds were unset or invalid. It is written as components now.
---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index e22c776..b98f62e 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1604,11 +1604,12 @@ fn temporal_iso(
     let year = single(year);
     let hour = hour.and_then(single);
     let minute = minute.and_then(single);
+    let has_seconds = second.is_some();
     let second = second.and_then(single);
     match kind {
         "date" => Some(format!("{:04}-{:02}-{:02}", year?, month?, day?)),
         "time" => Some(format!("{:02}:{:02}:{:02}", hour?, minute?, second?)),
-        _ if second.is_some() => Some(format!(
+        _ if has_seconds => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year?, month?, day?, hour?, minute?, second?
         )),
-- 
2.43.0

