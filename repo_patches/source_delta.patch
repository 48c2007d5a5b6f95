From 0c9c3abdf2149a77591bb7f1e090c94cc6fc63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 01/16] fix: return an error or a value instead of panicking
 for deserialize_any, ignored_any, str and bytes

---
 dlhn/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..2430bb4 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_any is not supported: the format is not self-describing"))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +236,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +378,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_ignored_any is not supported: the format is not self-describing"))
     }
 
     #[inline]
-- 
2.43.0


From 0f2dbe674c963452852e04cdd66815165ad548ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 02/16] fix: report an error when a decoded date overflows
 instead of panicking or wrapping

---
 dlhn/src/date.rs        | 6 ++++--
 dlhn/src/format/date.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..650a91a 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -61,11 +61,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..6749844 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -25,11 +25,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 74b0c08b91f47baebc929c8752dfeb9b21e285a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 03/16] fix: report an error when a decoded instant is past the
 supported range instead of panicking

---
 dlhn/src/date_time.rs        | 9 +++++----
 dlhn/src/format/date_time.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..1ca3b15 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -1,6 +1,6 @@
 use serde::{Deserialize, Serialize};
 #[cfg(feature = "time")]
-use time::{ext::NumericalDuration, OffsetDateTime};
+use time::OffsetDateTime;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct DateTime {
@@ -23,9 +23,10 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
     type Error = ();
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
-        OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+        OffsetDateTime::from_unix_timestamp_nanos(
+            self.unix_timestamp as i128 * 1_000_000_000 + self.nanosecond as i128,
+        )
+        .or(Err(()))
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..02f4673 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -4,7 +4,7 @@ use serde::{
     ser::SerializeSeq,
     Deserializer, Serializer,
 };
-use time::{ext::NumericalDuration, OffsetDateTime};
+use time::OffsetDateTime;
 
 struct OffsetDateTimeVisitor;
 
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
-            .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+        OffsetDateTime::from_unix_timestamp_nanos(
+            unix_timestamp as i128 * 1_000_000_000 + nanosecond as i128,
+        )
+        .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))
     }
 }
 
-- 
2.43.0


From b03b106083f6d2326714dbd9c2c1a17efa929d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 04/16] fix: do not reserve memory for an array length that was
 only declared

---
 dlhn/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..846b49a 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -113,7 +113,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::new();
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From 327f2e56a2869f3e7d9a7880fe3c943831cfc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 05/16] fix: do not reserve memory for a header element count
 that was only declared

---
 dlhn/src/header/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..6c54ade 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +61,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From d15db8327fc821e5669c636db66e45c81175fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 06/16] fix: refuse a header with more than 65535 elements
 instead of truncating its count

---
 dlhn/src/header/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..0ff8c03 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,7 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,6 +293,12 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        if inner.len() > u16::MAX as usize {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "too many elements in a header",
+            ));
+        }
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
         let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
-- 
2.43.0


From 032c2a4b3d91c41ec68c2c8ae30a5986437585ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 07/16] fix: read the variant index with the width it is
 written with

---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 2430bb4..07b3e10 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From e4772089ba00ab4250766b2a0d477fd0d9456412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 08/16] fix: leave skipped fields of enum variants out of the
 derived header

---
 dlhn_derive/src/lib.rs | 78 +++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..891c834 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -82,7 +82,24 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
 
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let mut types = Vec::new();
+
+                    for field in variant.fields.iter() {
+                        if has_skip_serializing_if(field.attrs.iter()) {
+                            return syn::Error::new(
+                                Span::call_site(),
+                                "skip_serializing_if is not supported",
+                            )
+                            .to_compile_error()
+                            .into();
+                        }
+
+                        if !is_skip_field(field.attrs.iter()) {
+                            types.push(field.ty.to_token_stream());
+                        }
+                    }
+
+                    if types.is_empty() {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
@@ -93,62 +110,21 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         )
                         .into_token_stream()]);
                     } else {
-                        if variant.fields.len() > 1 {
-                            match &variant.fields {
-                                syn::Fields::Named(fields) => {
-                                    // let mut buf = vec![STRUCT_CODE];
-                                    let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
-                                    outers.push(
-                                        proc_macro2::TokenStream::from_str(
-                                            format!("{:?}", buf).as_str(),
-                                        )
-                                        .unwrap(),
-                                    );
-
-                                    let mut field_types = Vec::new();
-                                    fields.named.iter().for_each(|field| {
-                                        field_types.push(field.ty.to_token_stream());
-                                    });
-                                    inners.push(field_types);
-                                }
-                                syn::Fields::Unnamed(fields) => {
-                                    let mut buf = vec![TUPLE_CODE];
-                                    buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
-                                    );
-                                    outers.push(
-                                        proc_macro2::TokenStream::from_str(
-                                            format!("{:?}", buf).as_str(),
-                                        )
-                                        .unwrap(),
-                                    );
-
-                                    inners.push(
-                                        fields
-                                            .unnamed
-                                            .iter()
-                                            .map(|field| field.ty.to_token_stream())
-                                            .collect(),
-                                    );
-                                }
-                                syn::Fields::Unit => todo!(),
-                            }
+                        if types.len() > 1 {
+                            // let mut buf = vec![STRUCT_CODE];
+                            let mut buf = vec![TUPLE_CODE];
+                            buf.append(&mut (types.len() as u16).encode_prefix_varint_vec());
+                            outers.push(
+                                proc_macro2::TokenStream::from_str(format!("{:?}", buf).as_str())
+                                    .unwrap(),
+                            );
                         } else {
                             outers.push(
                                 Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                     .into_token_stream(),
                             );
-                            let mut field_types = Vec::new();
-                            variant.fields.iter().for_each(|field| {
-                                field_types.push(field.ty.to_token_stream());
-                            });
-                            inners.push(field_types);
                         }
+                        inners.push(types);
                     }
                 }
             }
-- 
2.43.0


From 17aba8cfae27923ea3743215c313cb6f3222e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 09/16] fix: read the scale of a native decimal whenever the
 digits are not empty, as BigDecimal does

---
 dlhn/src/format/big_decimal.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..11f6fd5 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,12 +21,11 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        let digits = BigInt::from_signed_bytes_le(signed_bytes.as_slice());
+        if signed_bytes.is_empty() {
             Ok(BigDecimal::from(digits))
         } else {
             Ok(BigDecimal::new(
-- 
2.43.0


From 3ed5d86c3857da1937bcb88ebbd1fdd2242deb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 10/16] fix: refuse a sequence or map of unknown length instead
 of writing it without its count

---
 dlhn/src/big_decimal.rs        |  4 ++--
 dlhn/src/big_int.rs            |  4 ++--
 dlhn/src/big_uint.rs           |  4 ++--
 dlhn/src/format/big_decimal.rs |  4 ++--
 dlhn/src/format/big_int.rs     |  4 ++--
 dlhn/src/format/big_uint.rs    |  4 ++--
 dlhn/src/format/date_time.rs   |  4 ++--
 dlhn/src/ser.rs                | 10 ++++------
 8 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..3f87aa0 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -46,7 +46,7 @@ impl Serialize for BigDecimal {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(2)?;
 
         if self.signed_bytes == [] {
             seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/big_int.rs b/dlhn/src/big_int.rs
index 7406693..5601798 100644
--- a/dlhn/src/big_int.rs
+++ b/dlhn/src/big_int.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigInt {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/big_uint.rs b/dlhn/src/big_uint.rs
index 14a84de..ca4871c 100644
--- a/dlhn/src/big_uint.rs
+++ b/dlhn/src/big_uint.rs
@@ -3,7 +3,7 @@ use crate::de::Error;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserialize, Serialize,
 };
 
@@ -33,7 +33,7 @@ impl Serialize for BigUint {
     where
         S: serde::Serializer,
     {
-        let mut seq = serializer.serialize_seq(None)?;
+        let mut seq = serializer.serialize_tuple(1)?;
 
         seq.serialize_element(&self.0)?;
 
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 11f6fd5..134329d 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -4,7 +4,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -38,7 +38,7 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
 }
 
 pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(2)?;
 
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_int.rs b/dlhn/src/format/big_int.rs
index 7391d11..cc875b6 100644
--- a/dlhn/src/format/big_int.rs
+++ b/dlhn/src/format/big_int.rs
@@ -3,7 +3,7 @@ use num_bigint::BigInt;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigIntVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_int: &BigInt, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_int.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/big_uint.rs b/dlhn/src/format/big_uint.rs
index 2e59501..6d1c6cc 100644
--- a/dlhn/src/format/big_uint.rs
+++ b/dlhn/src/format/big_uint.rs
@@ -3,7 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 
@@ -28,7 +28,7 @@ impl<'de> Visitor<'de> for BigUintVisitor {
 }
 
 pub fn serialize<T: Serializer>(big_uint: &BigUint, serializer: T) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(1)?;
 
     if big_uint.is_zero() {
         seq.serialize_element(&0u8)?;
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 02f4673..0ba4468 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -1,7 +1,7 @@
 use crate::de::Error;
 use serde::{
     de::{self, SeqAccess, Unexpected, Visitor},
-    ser::SerializeSeq,
+    ser::SerializeTuple,
     Deserializer, Serializer,
 };
 use time::OffsetDateTime;
@@ -36,7 +36,7 @@ pub fn serialize<T: Serializer>(
     date_time: &OffsetDateTime,
     serializer: T,
 ) -> Result<T::Ok, T::Error> {
-    let mut seq = serializer.serialize_seq(None)?;
+    let mut seq = serializer.serialize_tuple(2)?;
     seq.serialize_element(&date_time.unix_timestamp())?;
     seq.serialize_element(&date_time.time().nanosecond())?;
     seq.end()
diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..e399298 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -203,9 +203,8 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len = len.ok_or_else(|| <Error as ser::Error>::custom("the length is not known"))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
@@ -233,9 +232,8 @@ impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        if let Some(len) = len {
-            len.serialize(&mut *self)?;
-        }
+        let len = len.ok_or_else(|| <Error as ser::Error>::custom("the length is not known"))?;
+        len.serialize(&mut *self)?;
         Ok(self)
     }
 
-- 
2.43.0


From bcfb0e3689e59fa30d0e30de4c932e85c8f897ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 11/16] fix: reject a char whose string holds more than one
 character

---
 dlhn/src/de.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 07b3e10..d0a1e5a 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -191,13 +191,12 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_char(
-            String::deserialize(self)?
-                .chars()
-                .into_iter()
-                .next()
-                .ok_or(Error::CharSize)?,
-        )
+        let s = String::deserialize(self)?;
+        let mut chars = s.chars();
+        match (chars.next(), chars.next()) {
+            (Some(v), None) => visitor.visit_char(v),
+            _ => Err(Error::CharSize),
+        }
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 76a63f42ee860257c07be0fe6452c54fb370277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 12/16] fix: normalize decimals of large scale without
 computing ten to that power

---
 dlhn/src/big_decimal.rs        | 16 ++++++++++++++--
 dlhn/src/format/big_decimal.rs |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 3f87aa0..4764de0 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -22,15 +22,27 @@ impl From<bigdecimal::BigDecimal> for BigDecimal {
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
+            let (signed_bytes, scale) = normalize(v);
             Self {
-                signed_bytes: bigint.to_signed_bytes_le(),
+                signed_bytes,
                 scale,
             }
         }
     }
 }
 
+// Removes the trailing zeros of a non-zero decimal. `bigdecimal::BigDecimal::normalized` computes
+// ten to the power of the scale, which does not end for a large scale.
+#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+pub(crate) fn normalize(v: bigdecimal::BigDecimal) -> (Vec<u8>, i64) {
+    let (mut bigint, mut scale) = v.into_bigint_and_exponent();
+    while scale > i64::MIN && (&bigint % 10u8).is_zero() {
+        bigint /= 10u8;
+        scale -= 1;
+    }
+    (bigint.to_signed_bytes_le(), scale)
+}
+
 #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
 impl Into<bigdecimal::BigDecimal> for BigDecimal {
     fn into(self) -> bigdecimal::BigDecimal {
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 134329d..ec85516 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -43,8 +43,8 @@ pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
-        seq.serialize_element(&bigint.to_signed_bytes_le())?;
+        let (signed_bytes, scale) = crate::big_decimal::normalize(value.clone());
+        seq.serialize_element(&signed_bytes)?;
         seq.serialize_element(&scale)?;
     }
 
-- 
2.43.0


From 2c49a567921af96a1b855f633c1a6d07f58d43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 13/16] fix: refuse to derive a header with more than 65535
 elements instead of truncating its count

---
 dlhn_derive/src/lib.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 891c834..d5f8c55 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -6,7 +6,7 @@ use crate::prefix_varint::PrefixVarint;
 use proc_macro::TokenStream;
 use proc_macro2::{Delimiter, Group, Span};
 use quote::{quote, ToTokens};
-use std::{slice::Iter, str::FromStr};
+use std::{convert::TryFrom, slice::Iter, str::FromStr};
 use syn::{parse_macro_input, Attribute, DeriveInput, Meta, NestedMeta};
 
 const TUPLE_CODE: u8 = 21;
@@ -41,11 +41,13 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
-            let fields_count = (types.len() as u16)
-                .encode_prefix_varint_vec()
-                .iter()
-                .map(ToTokens::to_token_stream)
-                .collect::<Vec<proc_macro2::TokenStream>>();
+            let fields_count = match encode_count(types.len(), "fields") {
+                Ok(v) => v
+                    .iter()
+                    .map(ToTokens::to_token_stream)
+                    .collect::<Vec<proc_macro2::TokenStream>>(),
+                Err(e) => return e.to_compile_error().into(),
+            };
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
@@ -113,7 +115,10 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         if types.len() > 1 {
                             // let mut buf = vec![STRUCT_CODE];
                             let mut buf = vec![TUPLE_CODE];
-                            buf.append(&mut (types.len() as u16).encode_prefix_varint_vec());
+                            match encode_count(types.len(), "fields") {
+                                Ok(mut v) => buf.append(&mut v),
+                                Err(e) => return e.to_compile_error().into(),
+                            }
                             outers.push(
                                 proc_macro2::TokenStream::from_str(format!("{:?}", buf).as_str())
                                     .unwrap(),
@@ -129,11 +134,13 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
-            let variants_count = (outers.len() as u16)
-                .encode_prefix_varint_vec()
-                .iter()
-                .map(ToTokens::to_token_stream)
-                .collect::<Vec<proc_macro2::TokenStream>>();
+            let variants_count = match encode_count(outers.len(), "variants") {
+                Ok(v) => v
+                    .iter()
+                    .map(ToTokens::to_token_stream)
+                    .collect::<Vec<proc_macro2::TokenStream>>(),
+                Err(e) => return e.to_compile_error().into(),
+            };
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
@@ -163,6 +170,17 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     }
 }
 
+fn encode_count(count: usize, what: &str) -> syn::Result<Vec<u8>> {
+    u16::try_from(count)
+        .map(PrefixVarint::encode_prefix_varint_vec)
+        .map_err(|_| {
+            syn::Error::new(
+                Span::call_site(),
+                format!("more than {} {} are not supported", u16::MAX, what),
+            )
+        })
+}
+
 fn is_skip_field(mut attributes: Iter<Attribute>) -> bool {
     attributes.any(|attribute| {
         attribute.path.get_ident().map(ToString::to_string) == Some(SERDE_ATTRIBUTE.to_string())
-- 
2.43.0


From b6aa5beba612fb81845a71f960925d51a216afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 14/16] fix: decode the fields of a struct by position, so that
 aliases are not taken for fields

---
 dlhn/src/de.rs | 43 +++----------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index d0a1e5a..5d1a38f 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -4,7 +4,6 @@ use std::{
     cmp::min,
     fmt::{self, Display},
     io::Read,
-    slice::Iter,
     vec,
 };
 
@@ -343,7 +342,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     }
 
     fn deserialize_struct<V>(
-        self,
+        mut self,
         _name: &'static str,
         fields: &'static [&'static str],
         visitor: V,
@@ -351,7 +350,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_map(StructDeserializer::new(self, fields))
+        // by position: `fields` also lists the aliases of the fields
+        visitor.visit_seq(SeqDeserializer::new(&mut self, fields.len()))
     }
 
     fn deserialize_enum<V>(
@@ -453,43 +453,6 @@ impl<'a, 'de: 'a, R: Read> de::MapAccess<'de> for MapDeserializer<'a, 'de, R> {
     }
 }
 
-struct StructDeserializer<'a, 'de: 'a, R: Read> {
-    deserializer: &'a mut Deserializer<'de, R>,
-    keys: Iter<'a, &'static str>,
-}
-
-impl<'a, 'de: 'a, R: Read> StructDeserializer<'a, 'de, R> {
-    fn new(deserializer: &'a mut Deserializer<'de, R>, keys: &'static [&'static str]) -> Self {
-        Self {
-            deserializer,
-            keys: keys.iter(),
-        }
-    }
-}
-
-impl<'a, 'de: 'a, R: Read> de::MapAccess<'de> for StructDeserializer<'a, 'de, R> {
-    type Error = Error;
-
-    fn next_key_seed<K>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error>
-    where
-        K: de::DeserializeSeed<'de>,
-    {
-        match self.keys.next() {
-            Some(&key) => seed
-                .deserialize(serde::de::value::BorrowedStrDeserializer::new(key))
-                .map(Some),
-            None => Ok(None),
-        }
-    }
-
-    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, Self::Error>
-    where
-        V: de::DeserializeSeed<'de>,
-    {
-        seed.deserialize(&mut *self.deserializer)
-    }
-}
-
 struct VariantDeserializer<'de, 'a, R: Read> {
     de: &'a mut Deserializer<'de, R>,
 }
-- 
2.43.0


From f60975efcae2891d61dc5793011662d2e841cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 15/16] fix: derive headers through the trait, whatever the
 field types are called or declare

---
 dlhn_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index d5f8c55..c83bd4c 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -51,7 +51,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<W: std::io::Write>(writer: &mut W) -> std::io::Result<()> {
+                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
                         writer.write_all(&[
                             // #STRUCT_CODE,
                             #TUPLE_CODE,
@@ -60,7 +60,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                             )*
                         ])?;
                         #(
-                            <#types>::serialize_header(writer)?;
+                            <#types as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
                         )*
                         Ok(())
                     }
@@ -144,7 +144,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             let gen = quote! {
                 impl dlhn::header::ser::SerializeHeader for #type_name {
-                    fn serialize_header<W: std::io::Write>(writer: &mut W) -> std::io::Result<()> {
+                    fn serialize_header<__W: std::io::Write>(writer: &mut __W) -> std::io::Result<()> {
                         writer.write_all(&[
                             #ENUM_CODE,
                             #(
@@ -154,7 +154,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         #(
                             writer.write_all(&#outers)?;
                             #(
-                                <#inners>::serialize_header(writer)?;
+                                <#inners as dlhn::header::ser::SerializeHeader>::serialize_header(writer)?;
                             )*
                         )*
                         Ok(())
-- 
2.43.0


From 6ce875c8073a5b02d901f110118d2200d3196d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 16/16] fix: a map key is not human readable, like every other
 value

A key whose type writes itself as text for people and as numbers otherwise (an IP
address) was written as a string and read back as four u8: the map decoded to
something else, without an error. Such a key is now refused, as it is not a string.
---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index e399298..d46a076 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -570,6 +570,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

