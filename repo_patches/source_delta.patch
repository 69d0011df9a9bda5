From 60420629742ae49e046df79141bb1c77ec067622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 01/22] fix: as_i32/as_i64 wrapped positive integers above MAX
 to negative values

A non-negative INTEGER such as 00 ff ff ff ff was cast to i32 and returned
as -1. Return IntegerTooLarge, as already done for wider values.
---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..b54eb85 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                <i64>::try_from(<u64>::from_be_bytes(decode_array_uint8(bytes)?))
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
@@ -441,7 +442,8 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                <i32>::try_from(<u32>::from_be_bytes(decode_array_uint4(bytes)?))
+                    .map_err(|_| BerError::IntegerTooLarge)?
             };
             Ok(result)
         } else {
-- 
2.43.0


From 9a806d98175e24bfc34e57ee396e5cf8c7374719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 02/22] fix: integer accessors overflowed the stack on long
 runs of leading zeroes

remove_zeroes recursed once per leading zero byte, so an INTEGER with a few
hundred thousand leading zeroes aborted the process in unoptimized builds.
---
 src/ber/integer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..3cb23fe 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -5,16 +5,15 @@ use crate::error::*;
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+    // skip leading 0s (not recursive: the number of zeroes is controlled by the input)
+    let mut bytes = bytes;
+    while let [0, rest @ ..] = bytes {
+        if rest.is_empty() {
+            break;
+        }
+        bytes = rest;
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 582d97950b418aadad8223b295b91a8484078070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 03/22] fix: into_iter on an empty SEQUENCE or SET yielded the
 object itself

---
 src/ber/ber.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index b54eb85..0835459 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -788,6 +788,8 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         let res = match self.val.content {
             BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
             BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            // end of sequence or set (possibly empty)
+            BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => None,
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From a431f05745bec9afb7427fbf8afbf03d7ee284c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 04/22] fix: serializing a tag number above 30 panicked
 (unimplemented)

---
 src/ber/serialize.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..657b02b 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -35,6 +35,17 @@ fn encode_length<'a, W: Write + 'a, Len: Into<Length>>(len: Len) -> impl Seriali
     }
 }
 
+/// Encode tag number in base 128, using the minimum number of bytes
+fn encode_high_tag(tag: Tag) -> Vec<u8> {
+    let mut v = vec![(tag.0 & 0x7f) as u8];
+    let mut t = tag.0 >> 7;
+    while t > 0 {
+        v.insert(0, 0x80 | (t & 0x7f) as u8);
+        t >>= 7;
+    }
+    v
+}
+
 /// Encode header as object
 ///
 /// The `len` field must be correct
@@ -45,7 +56,13 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
         if hdr.tag().0 > 30 {
-            unimplemented!();
+            // high-tag-number form (X.690 8.1.2.4)
+            let byte_0 = class_u8 | pc_u8 | 0b0001_1111;
+            return tuple((
+                be_u8(byte_0),
+                slice(encode_high_tag(hdr.tag())),
+                encode_length(hdr.length()),
+            ))(out);
         }
         let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
         // length octets (X.690 8.1.3)
-- 
2.43.0


From aa00273fa324a6563a42695df471b4028d321375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:15 +0000
Subject: [PATCH 05/22] fix: END-OF-CONTENTS was serialized with a content
 octet (00 01 00)

---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 657b02b..f800420 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -134,7 +134,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From d3960b519a1cbc16ebb5332963a5f8c746a1c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 06/22] fix: ENUMERATED value 0 was serialized without content
 octets

---
 src/ber/serialize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index f800420..dbbefdc 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -145,6 +145,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
         }
         BerObjectContent::OctetString(s) => slice(s)(out),
         BerObjectContent::Null => Ok(out),
+        // content octets cannot be empty (X.690 8.4 and 8.3.1)
+        BerObjectContent::Enum(0) => be_u8(0)(out),
         BerObjectContent::Enum(i) => {
             let v: Vec<u8> = i
                 .to_be_bytes()
-- 
2.43.0


From 6d4e76aed5f4e985a57be01aee051c1813af48c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 07/22] fix: serialized UTCTime and GeneralizedTime did not
 parse back to the same value

UTCTime was written with a four-digit year, milliseconds were not padded
(5 ms was written as .5) and the time zone was always written as Z.
---
 src/ber/serialize.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index dbbefdc..dce8bd3 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -1,7 +1,7 @@
 #![cfg(feature = "std")]
 use crate::ber::*;
 use crate::oid::Oid;
-use asn1_rs::ASN1DateTime;
+use asn1_rs::{ASN1DateTime, ASN1TimeZone};
 use cookie_factory::bytes::be_u8;
 use cookie_factory::combinator::slice;
 use cookie_factory::gen_simple;
@@ -77,9 +77,33 @@ fn ber_encode_oid<'a, W: Write + 'a>(oid: &'a Oid) -> impl SerializeFn<W> + 'a {
     }
 }
 
-fn ber_encode_datetime<'a, W: Write + 'a>(time: &'a ASN1DateTime) -> impl SerializeFn<W> + 'a {
+fn ber_encode_datetime<'a, W: Write + 'a>(
+    time: &'a ASN1DateTime,
+    utc_time: bool,
+) -> impl SerializeFn<W> + 'a {
     move |out| {
-        let s = format!("{}", time);
+        // UTCTime has a two-digit year, and no fractional seconds (X.680 section 47)
+        let mut s = if utc_time {
+            format!("{:02}", time.year % 100)
+        } else {
+            format!("{:04}", time.year)
+        };
+        s += &format!(
+            "{:02}{:02}{:02}{:02}{:02}",
+            time.month, time.day, time.hour, time.minute, time.second
+        );
+        match time.millisecond {
+            Some(ms) if !utc_time => s += &format!(".{:03}", ms),
+            _ => (),
+        }
+        match time.tz {
+            ASN1TimeZone::Undefined if !utc_time => (),
+            ASN1TimeZone::Undefined | ASN1TimeZone::Z => s.push('Z'),
+            ASN1TimeZone::Offset(hh, mm) => {
+                let sign = if hh < 0 || mm < 0 { '-' } else { '+' };
+                s += &format!("{}{:02}{:02}", sign, hh.unsigned_abs(), mm.unsigned_abs());
+            }
+        }
         slice(s)(out)
     }
 }
@@ -157,9 +181,8 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
             slice(v)(out)
         }
         BerObjectContent::OID(oid) | BerObjectContent::RelativeOID(oid) => ber_encode_oid(oid)(out),
-        BerObjectContent::UTCTime(time) | BerObjectContent::GeneralizedTime(time) => {
-            ber_encode_datetime(time)(out)
-        }
+        BerObjectContent::UTCTime(time) => ber_encode_datetime(time, true)(out),
+        BerObjectContent::GeneralizedTime(time) => ber_encode_datetime(time, false)(out),
         BerObjectContent::NumericString(s)
         | BerObjectContent::GeneralString(s)
         | BerObjectContent::ObjectDescriptor(s)
-- 
2.43.0


From e83e10938df231e559d54b588064f6f55a6c1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 08/22] fix: an absent OPTIONAL was serialized as
 END-OF-CONTENTS (00 00)

---
 src/ber/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index dce8bd3..3e3c9f8 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -240,6 +240,10 @@ pub fn ber_encode_object<'a, 'b: 'a, W: Write + Default + AsRef<[u8]> + 'a>(
     obj: &'b BerObject,
 ) -> impl SerializeFn<W> + 'a {
     move |out| {
+        // an absent optional value has no encoding, and no header
+        if let BerObjectContent::Optional(None) = obj.content {
+            return Ok(out);
+        }
         // XXX should we make an exception for tagged values here ?
         let v = gen_simple(ber_encode_object_content(&obj.content), W::default())?;
         let len = v.as_ref().len();
-- 
2.43.0


From 251a467f233a384591344c96ff1d94ddd67761c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 09/22] fix: DER BIT STRING with empty content or empty value
 was not rejected

03 00 returned Incomplete (or looked at the byte following the object), and
03 01 05 (no bits, but 5 of them unused) was accepted.
---
 src/der/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..304e240 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -583,6 +583,10 @@ fn der_read_element_content_recursive<'a>(
 }
 
 fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectContent<'_>> {
+    // check length first: if empty, the next byte (if any) is not part of the object
+    if len == 0 {
+        return Err(Err::Error(BerError::InvalidLength));
+    }
     let (i, ignored_bits) = be_u8(i)?;
     if ignored_bits > 7 {
         return Err(Err::Error(BerError::invalid_value(
@@ -590,8 +594,12 @@ fn der_read_content_bitstring(i: &[u8], len: usize) -> BerResult<'_, DerObjectCo
             "More than 7 unused bits".to_owned(),
         )));
     }
-    if len == 0 {
-        return Err(Err::Error(BerError::InvalidLength));
+    if len == 1 && ignored_bits != 0 {
+        // an empty bitstring has no unused bits (X.690 section 8.6.2.3)
+        return Err(Err::Error(BerError::invalid_value(
+            Tag::BitString,
+            "Empty bitstring with unused bits".to_owned(),
+        )));
     }
     let (i, data) = take(len - 1)(i)?;
     if len > 1 {
-- 
2.43.0


From 1124804a55a2b9dc4e3946cad53ea9f0fb57f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:43 +0000
Subject: [PATCH 10/22] fix: constructed OCTET STRING was accepted as DER
 (X.690 section 10.2)

---
 src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 304e240..c731e39 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -521,7 +521,8 @@ pub fn der_read_element_content_as(
                 _ => (),
             }
         }
-        Tag::NumericString
+        Tag::OctetString
+        | Tag::NumericString
         | Tag::VisibleString
         | Tag::PrintableString
         | Tag::Ia5String
-- 
2.43.0


From cf2e0fe868e3460a168b7cb204b70509cb97f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 11/22] fix: DER INTEGER with redundant leading FF octets was
 accepted (X.690 section 8.3.2)

---
 src/der/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index c731e39..8f89758 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -518,6 +518,11 @@ pub fn der_read_element_content_as(
                         DerConstraint::IntegerLeadingZeroes,
                     )));
                 }
+                [0xff, byte, ..] if byte >= 0x80 => {
+                    return Err(Err::Error(BerError::DerConstraintFailed(
+                        DerConstraint::IntegerLeadingFF,
+                    )));
+                }
                 _ => (),
             }
         }
-- 
2.43.0


From 7b1a39fea51797705287407df64c031820fcaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 12/22] fix: end of indefinite-length content was detected on
 any class with tag number 0

An element such as 80 00 ([0] IMPLICIT NULL) or 20 00 ended the enclosing
indefinite-length object, silently dropping the following elements, and a
3-byte end-of-contents (00 81 00) left a stray byte in the content. The
same helper is now used for nested elements.
---
 src/ber/parser.rs   | 10 +++++++++-
 src/ber/wrap_any.rs | 40 ++++++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..4948147 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -3,6 +3,7 @@ use crate::error::*;
 use asn1_rs::FromBer;
 use nom::bytes::streaming::take;
 use nom::{Err, Offset};
+use rusticata_macros::custom_check;
 
 /// Default maximum recursion limit
 pub const MAX_RECURSION: usize = 50;
@@ -21,7 +22,12 @@ pub(crate) fn ber_skip_object_content<'a>(
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
+            // other classes can use tag number 0 (for ex. `[0] IMPLICIT NULL` is `80 00`)
+            if l == 0
+                && hdr.tag() == Tag::EndOfContent
+                && hdr.is_universal()
+                && hdr.is_primitive()
+            {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
@@ -38,6 +44,8 @@ pub(crate) fn ber_skip_object_content<'a>(
                 let (i2, header2) = ber_read_element_header(i)?;
                 let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
                 if eoc {
+                    // End-Of-Content is exactly 2 bytes (X.690 section 8.1.5)
+                    custom_check!(i, i.offset(i3) != 2, BerError::InvalidLength)?;
                     // return false, since top object was not EndOfContent
                     return Ok((i3, false));
                 }
diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 8d8a878..0f8b5b2 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -1,7 +1,9 @@
 use alloc::string::String;
 
 use super::{BerObject, BerObjectContent, BitStringObject};
-use crate::ber::{ber_get_object_content, MAX_OBJECT_SIZE};
+use crate::ber::{
+    ber_get_object_content, ber_read_element_header, MAX_OBJECT_SIZE, MAX_RECURSION,
+};
 use crate::error::{BerError, BerResult};
 use alloc::vec::Vec;
 use asn1_rs::*;
@@ -12,7 +14,7 @@ use rusticata_macros::custom_check;
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     any.header.assert_tag(tag)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
@@ -23,14 +25,16 @@ pub fn parse_ber_any_with_tag_r(i: &[u8], tag: Tag, max_depth: usize) -> BerResu
 /// Raise an error if the maximum recursion depth was reached.
 pub fn parse_ber_any_r(i: &[u8], max_depth: usize) -> BerResult<'_> {
     custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
-    let (rem, any) = Any::from_ber(i)?;
+    let (rem, any) = parse_ber_any(i)?;
     let obj = try_berobject_from_any(any, max_depth)?;
     Ok((rem, obj))
 }
 
 /// Parse any BER object (not recursive)
 pub fn parse_ber_any(i: &[u8]) -> BerResult<'_, Any<'_>> {
-    Any::from_ber(i)
+    let (i, header) = ber_read_element_header(i)?;
+    let (rem, data) = ber_get_object_content(i, &header, MAX_RECURSION)?;
+    Ok((rem, Any::new(header, data)))
 }
 
 macro_rules! from_obj {
@@ -75,6 +79,18 @@ pub(crate) fn try_read_berobjectcontent_as(
     Ok((rem, object.content))
 }
 
+// read all objects from the content of a sequence or set
+fn try_berobjects_from_content(data: &[u8], max_depth: usize) -> Result<Vec<BerObject<'_>>> {
+    let mut data = data;
+    let mut objects = Vec::new();
+    while !data.is_empty() {
+        let (rem, any) = parse_ber_any(data)?;
+        objects.push(try_berobject_from_any(any, max_depth)?);
+        data = rem;
+    }
+    Ok(objects)
+}
+
 // note: we cannot implement TryFrom because of the `max_depth` argument
 fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
     custom_check!(any.data, max_depth == 0, BerError::BerMaxDepth)?;
@@ -144,24 +160,12 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
         }
         Tag::Sequence => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SequenceIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_berobjects_from_content(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Sequence(objects)))
         }
         Tag::Set => {
             header.assert_constructed()?;
-            let objects: Result<Vec<_>> = SetIterator::<Any, BerParser>::new(any.data)
-                .map(|item| {
-                    let item = item?;
-                    try_berobject_from_any(item, max_depth - 1)
-                })
-                .collect();
-            let objects = objects?;
+            let objects = try_berobjects_from_content(any.data, max_depth - 1)?;
             Ok(obj_from(header, BerObjectContent::Set(objects)))
         }
         Tag::TeletexString => from_obj!(STRING TeletexString, T61String, any, header),
-- 
2.43.0


From 4905797c4f6874db49c8636c6a9978806d7e40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 13/22] fix: parse_der did not verify DER constraints on
 elements nested in SEQUENCE or SET

The content of constructed types was handed to the BER parser, so
indefinite lengths, non-canonical booleans or integers, constructed strings,
etc. were accepted at every level except the outermost one.
---
 src/der/parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 8f89758..77221b8 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -3,6 +3,7 @@ use crate::der::*;
 use crate::der_constraint_fail_if;
 use crate::error::*;
 use alloc::borrow::ToOwned;
+use alloc::vec::Vec;
 use asn1_rs::{Any, FromDer};
 use nom::bytes::streaming::take;
 use nom::number::streaming::be_u8;
@@ -45,6 +46,7 @@ pub fn parse_der(i: &[u8]) -> DerResult<'_> {
 /// assert_eq!(obj.header.tag(), Tag::Integer);
 /// ```
 pub fn parse_der_recursive(i: &[u8], max_depth: usize) -> DerResult<'_> {
+    custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
     let (i, hdr) = der_read_element_header(i)?;
     // safety check: length cannot be more than 2^32 bytes
     if let Length::Definite(l) = hdr.length() {
@@ -548,6 +550,24 @@ pub fn der_read_element_content_as(
                 )));
             }
         }
+        Tag::Sequence | Tag::Set if constructed => {
+            // DER constraints also apply to nested elements
+            custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
+            let (rem, mut data) = take(l)(i)?;
+            let mut objects = Vec::new();
+            while !data.is_empty() {
+                // an incomplete element is an error: more input will not help
+                let (rest, obj) = parse_der_recursive(data, max_depth - 1)
+                    .map_err(|e| Err::Error(BerError::from(e)))?;
+                objects.push(obj);
+                data = rest;
+            }
+            let content = match tag {
+                Tag::Sequence => DerObjectContent::Sequence(objects),
+                _ => DerObjectContent::Set(objects),
+            };
+            return Ok((rem, content));
+        }
         _ => (),
     }
     ber_read_element_content_as(i, tag, length, constructed, max_depth)
-- 
2.43.0


From f0aed6b45acb33fdfbd970c9da8fe4e53d8e85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 14/22] fix: conversion of an indefinite-length Any to
 BerObject failed (or dropped elements)

---
 src/ber/ber.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 0835459..51fd345 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -731,7 +731,8 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // if length is indefinite, `data` does not include End-Of-Content
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
@@ -748,7 +749,8 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
         let (_, content) = ber_read_element_content_as(
             data,
             header.tag(),
-            header.length(),
+            // if length is indefinite, `data` does not include End-Of-Content
+            Length::Definite(data.len()),
             header.constructed(),
             MAX_RECURSION,
         )?;
-- 
2.43.0


From 1016dba6990c6197c1fbc6677167c9849fcdd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 15/22] fix: parse_der_explicit_optional and parse_der_implicit
 accepted indefinite lengths

They were forwarded to the BER combinators.
---
 src/der/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 77221b8..73959c0 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -315,7 +315,7 @@ pub fn parse_der_explicit_optional<F>(i: &[u8], tag: Tag, f: F) -> DerResult<'_>
 where
     F: Fn(&[u8]) -> DerResult,
 {
-    parse_ber_explicit_optional(i, tag, f)
+    parse_ber_optional(parse_der_tagged_explicit(tag, f))(i)
 }
 
 /// Parse an implicit tagged object, applying function to read content
@@ -363,7 +363,7 @@ where
     F: Fn(&'a [u8], &'_ Header, usize) -> BerResult<'a, DerObjectContent<'a>>,
     T: Into<Tag>,
 {
-    parse_ber_implicit(i, tag, f)
+    parse_der_tagged_implicit(tag, f)(i)
 }
 
 /// Parse DER object and try to decode it as a 32-bits signed integer
-- 
2.43.0


From af9bd6013845193abc18724285dc4b280788bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:32 +0000
Subject: [PATCH 16/22] fix: implicit tagged objects with indefinite length
 could not be parsed

The content passed to the parsing function does not include the
end-of-contents octets, while the header announced an indefinite length.
---
 src/ber/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ber/tagged.rs b/src/ber/tagged.rs
index cef5642..dc1e7fb 100644
--- a/src/ber/tagged.rs
+++ b/src/ber/tagged.rs
@@ -252,6 +252,8 @@ where
     let tag = tag.into();
     parse_ber_container(move |i, hdr| {
         hdr.assert_tag(tag).map_err(|e| Err::Error(e.into()))?;
+        // End-Of-Content (if length is indefinite) is not part of `i`
+        let hdr = hdr.with_length(Length::Definite(i.len()));
         // XXX MAX_RECURSION should not be used, it resets the depth counter
         f(i, hdr, MAX_RECURSION)
         // trailing bytes are ignored
-- 
2.43.0


From d12787de2118eeb33ee324e3654a66fbd44722ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:27 +0000
Subject: [PATCH 17/22] fix: encode_oid! first octet overflow

encode_oid!(6.16) and above passed the range check although 40 * first +
second does not fit in the octet they share: wrong bytes when the macro is
built without overflow checks.
---
 der-oid-macro/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..cfa6db2 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -12,7 +12,11 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
             }
             panic!("Need at least two components for non-relative oid");
         }
-        if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
+        // both components share the first octet
+        if dec[0] >= 7u8.into()
+            || dec[1] >= 40u8.into()
+            || &dec[0] * 40u8 + &dec[1] > 255u8.into()
+        {
             panic!("First components are too big");
         }
         enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
-- 
2.43.0


From 1561cb2dc6370e033d70f34e3a82f1d3a63980ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 18/22] fix: encode_oid! refused long relative OIDs

The text of the tokens is wrapped after "rel" when it is long.
---
 der-oid-macro/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index cfa6db2..74374b9 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -70,7 +70,8 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let s = input.to_string();
 
-    let (rem, relative) = if s.starts_with("rel ") {
+    // tokens are separated by a line break if the text is long
+    let (rem, relative) = if s.starts_with("rel ") || s.starts_with("rel\n") {
         (&s[4..], true)
     } else {
         (s.as_ref(), false)
-- 
2.43.0


From 5d865f7cb82b2fe97cf2587366956d360e2888b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 19/22] fix: pretty printer panicked when the indentation
 exceeds 65535 columns

---
 src/ber/print.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index 3553815..ed36c86 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -66,12 +66,20 @@ impl<'a> PrettyBer<'a> {
     pub fn next_indent<'b>(&self, obj: &'b BerObject) -> PrettyBer<'b> {
         PrettyBer {
             obj,
-            indent: self.indent + self.inc,
+            indent: self.indent.saturating_add(self.inc),
             inc: self.inc,
             flags: self.flags.to_vec(),
         }
     }
 
+    /// Write the current indentation (the width of a format specification is limited to `u16`)
+    fn write_indent(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        for _ in 0..self.indent {
+            f.write_str(" ")?;
+        }
+        Ok(())
+    }
+
     #[inline]
     fn is_recursive(&self) -> bool {
         self.is_flag_set(PrettyPrinterFlag::Recursive)
@@ -102,9 +110,7 @@ fn dbg_header(header: &Header, f: &mut fmt::Formatter) -> fmt::Result {
 impl fmt::Debug for PrettyBer<'_> {
     #[rustfmt::skip]
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if self.indent > 0 {
-            write!(f, "{:1$}", " ", self.indent)?;
-        };
+        self.write_indent(f)?;
         if self.flags.contains(&PrettyPrinterFlag::ShowHeader) {
             dbg_header(&self.obj.header, f)?;
             write!(f, " ")?;
@@ -166,9 +172,7 @@ impl fmt::Debug for PrettyBer<'_> {
             BerObjectContent::Tagged(class, tag, ref obj) => {
                 writeln!(f, "ContextSpecific [{} {}] {{", class, tag.0)?;
                 write!(f, "{:?}", self.next_indent(obj))?;
-                if self.indent > 0 {
-                    write!(f, "{:1$}", " ", self.indent)?;
-                };
+                self.write_indent(f)?;
                 write!(f, "}}")?;
                 Ok(())
             },
@@ -180,9 +184,7 @@ impl fmt::Debug for PrettyBer<'_> {
                     for o in v {
                         write!(f, "{:?}", self.next_indent(o))?;
                     };
-                    if self.indent > 0 {
-                        write!(f, "{:1$}", " ", self.indent)?;
-                    };
+                    self.write_indent(f)?;
                     write!(f, "]")?;
                 } else {
                     write!(f, "{}", ty)?;
-- 
2.43.0


From a9b6f72b0f1f4e02a1f3d72713d1b72fe90aa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 20/22] fix: pretty printer showed an implicitly tagged
 SEQUENCE as Set

---
 src/ber/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ber/print.rs b/src/ber/print.rs
index ed36c86..36b7e2f 100644
--- a/src/ber/print.rs
+++ b/src/ber/print.rs
@@ -3,7 +3,7 @@ use crate::ber::{BerObject, BerObjectContent};
 use alloc::string::{String, ToString};
 use alloc::vec;
 use alloc::vec::Vec;
-use asn1_rs::{Class, Header, Length, Tag};
+use asn1_rs::{Class, Header, Length};
 use core::fmt;
 use core::iter::FromIterator;
 use core::str;
@@ -178,7 +178,7 @@ impl fmt::Debug for PrettyBer<'_> {
             },
             BerObjectContent::Set(ref v) |
             BerObjectContent::Sequence(ref v)        => {
-                let ty = if self.obj.header.tag() == Tag::Sequence { "Sequence" } else { "Set" };
+                let ty = if let BerObjectContent::Sequence(_) = self.obj.content { "Sequence" } else { "Set" };
                 if self.is_recursive() {
                     writeln!(f, "{}[", ty)?;
                     for o in v {
-- 
2.43.0


From 4f6b838b2992168b565933e7e51e115b2ba60f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 21/22] fix: conversion of an Any that is not universal read it
 as the universal type of that tag number

---
 src/ber/ber.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 51fd345..aeb1ad3 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -727,6 +727,12 @@ impl<'a> TryFrom<Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
     fn try_from(any: Any<'a>) -> Result<Self, Self::Error> {
+        // the tag number denotes a universal type only in the universal class
+        if any.class() != Class::Universal {
+            let header = any.header.clone();
+            let content = BerObjectContent::Unknown(any);
+            return Ok(BerObject::from_header_and_content(header, content));
+        }
         let (header, data) = (any.header, any.data);
         let (_, content) = ber_read_element_content_as(
             data,
@@ -745,6 +751,9 @@ impl<'a, 'b> TryFrom<&'b Any<'a>> for BerObject<'a> {
     type Error = asn1_rs::Error;
 
     fn try_from(any: &'b Any<'a>) -> Result<Self, Self::Error> {
+        if any.class() != Class::Universal {
+            return Self::try_from(any.clone());
+        }
         let (header, data) = (any.header.clone(), any.data);
         let (_, content) = ber_read_element_content_as(
             data,
-- 
2.43.0


From bed0a519ff7fd2c222f8ba4e705a8eaacc5cf144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 22/22] fix: contents octets of NULL and END-OF-CONTENTS were
 accepted and dropped

---
 src/ber/wrap_any.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ber/wrap_any.rs b/src/ber/wrap_any.rs
index 0f8b5b2..d4e0b27 100644
--- a/src/ber/wrap_any.rs
+++ b/src/ber/wrap_any.rs
@@ -129,7 +129,10 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
             let b = any.bool()?;
             Ok(obj_from(header, BerObjectContent::Boolean(b)))
         }
-        Tag::EndOfContent => Ok(obj_from(header, BerObjectContent::EndOfContent)),
+        Tag::EndOfContent => {
+            custom_check!(any.data, !any.data.is_empty(), BerError::InvalidLength)?;
+            Ok(obj_from(header, BerObjectContent::EndOfContent))
+        }
         Tag::Enumerated => {
             let obj = any.enumerated()?;
             Ok(obj_from(header, BerObjectContent::Enum(obj.0 as u64)))
@@ -145,7 +148,10 @@ fn try_berobject_from_any(any: Any, max_depth: usize) -> Result<BerObject> {
             let obj = obj_from(header, BerObjectContent::Integer(any.data));
             Ok(obj)
         }
-        Tag::Null => Ok(obj_from(header, BerObjectContent::Null)),
+        Tag::Null => {
+            custom_check!(any.data, !any.data.is_empty(), BerError::InvalidLength)?;
+            Ok(obj_from(header, BerObjectContent::Null))
+        }
         Tag::NumericString => from_obj!(STRING NumericString, any, header),
         Tag::ObjectDescriptor => from_obj!(STRING ObjectDescriptor, any, header),
         Tag::OctetString => Ok(obj_from(header, BerObjectContent::OctetString(any.data))),
-- 
2.43.0

