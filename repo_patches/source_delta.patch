From e679bb6d14ea85767309dae1d447784c30937036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 01/66] fix: BOOLEAN DER constraints reject contents that are
 not one octet instead of panicking

---
 src/asn1_types/boolean.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..318e2b2 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,7 +74,11 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        // X.690 section 8.2.1: the contents octets shall consist of a single octet
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
@@ -135,7 +139,11 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        // X.690 section 8.2.1: the contents octets shall consist of a single octet
+        let c = match any.data.as_bytes() {
+            [c] => *c,
+            _ => return Err(Error::InvalidLength),
+        };
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
-- 
2.43.0


From be01e46b4571936e9fa6062d3b534016211c4d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 02/66] fix: ber_length_length counts the octets of lengths
 from 0x1000000 up

---
 src/to_ber.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..64b9416 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -170,13 +170,13 @@ pub fn ber_tag_length(tag: Tag) -> usize {
 pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
     match length {
         Length::Indefinite => Ok(1),
-        Length::Definite(l) => match l {
-            0..=0x7f => Ok(1),
-            0x80..=0xff => Ok(2),
-            0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
-        },
+        // short form
+        Length::Definite(l) if l <= 0x7f => Ok(1),
+        // long form: one octet, followed by the significant octets of the length
+        Length::Definite(l) => {
+            let significant_bits = (usize::BITS - l.leading_zeros()) as usize;
+            Ok(1 + (significant_bits + 7) / 8)
+        }
     }
 }
 
-- 
2.43.0


From 2927413d2d3e23a10dad203d1afbae40a6e4ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 03/66] fix: reject tag numbers that do not fit in u32 instead
 of truncating them

---
 src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..50eddfb 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -522,6 +522,10 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // tag number must fit in u32
+            if c > u32::MAX >> 7 {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From 59fcdad539b719c30fac850dff6f898e6df863a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 04/66] fix: equal headers hash equally

---
 src/header.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 50eddfb..20fd88b 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -474,8 +474,7 @@ impl Hash for Header<'_> {
         self.class.hash(state);
         self.constructed.hash(state);
         self.tag.hash(state);
-        self.length.hash(state);
-        self.raw_tag.hash(state);
+        // `length` and `raw_tag` are not hashed: equal headers can have different values
     }
 }
 
-- 
2.43.0


From 3f8db5ce20e5b9d6967191cdfdbd4d939811d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 05/66] fix: only 00 00 ends an indefinite-length object

---
 src/ber/parser.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..c2324ad 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -1,6 +1,6 @@
 use crate::error::*;
 use crate::header::*;
-use crate::{BerMode, BerParser, DerMode, Input, Length, Tag};
+use crate::{BerMode, BerParser, DerMode, Input, Length};
 use nom::bytes::streaming::take;
 use nom::{Err, IResult, Input as _};
 
@@ -28,7 +28,7 @@ impl GetObjectContent for BerMode {
         max_depth: usize,
     ) -> IResult<Input<'a>, Input<'a>, BerError<Input<'a>>> {
         let start_i = i.clone();
-        let (i, _) = ber_skip_object_content(i, hdr, max_depth)?;
+        let i = ber_skip_object_content(i, hdr, max_depth)?;
         let len = i.span().start - start_i.span().start;
         if hdr.length().is_definite() {
             Ok(start_i.take_split(len))
@@ -82,37 +82,32 @@ pub fn der_get_content<'i>(
     DerMode::get_object_content(header, input, MAX_RECURSION)
 }
 
-/// Skip object content, and return true if object was End-Of-Content
+/// Skip object content (including the End-Of-Content if length is indefinite)
 fn ber_skip_object_content<'a>(
     i: Input<'a>,
     hdr: &Header,
     max_depth: usize,
-) -> IResult<Input<'a>, bool, BerError<Input<'a>>> {
+) -> Result<Input<'a>, Err<BerError<Input<'a>>>> {
     if max_depth == 0 {
         return Err(Err::Error(BerError::new(i, InnerError::BerMaxDepth)));
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
-                return Ok((i, true));
-            }
             let (i, _) = take(l)(i)?;
-            Ok((i, false))
+            Ok(i)
         }
         Length::Indefinite => {
             hdr.assert_constructed_inner()
                 .map_err(BerError::convert(i.clone()))?;
-            // read objects until EndOfContent (00 00)
+            // read objects until EndOfContent, which is exactly `00 00` (X.690: 8.1.5)
             // this is recursive
             let mut i = i;
             loop {
-                let (i2, header2) = Header::parse_ber(i)?;
-                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;
-                if eoc {
-                    // return false, since top object was not EndOfContent
-                    return Ok((i3, false));
+                if i.as_bytes2().starts_with(&[0, 0]) {
+                    return Ok(i.take_from(2));
                 }
-                i = i3;
+                let (i2, header2) = Header::parse_ber(i)?;
+                i = ber_skip_object_content(i2, &header2, max_depth - 1)?;
             }
         }
     }
-- 
2.43.0


From d75e40cbb464cce358f26858e878f8ac43cc0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 06/66] fix: BMPString reads empty and constructed encodings,
 and rejects an odd number of octets

---
 src/asn1_types/strings/bmpstring.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..56acfb4 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
@@ -70,6 +70,9 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        BmpString::test_valid_charset(&data)
+            .map_err(|e| BerError::nom_err_input(&rem, e.into()))?;
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
-- 
2.43.0


From 2844a64be72cb3c23d06e839f01b5883017a2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 07/66] fix: UniversalString reads empty and constructed
 encodings

---
 src/asn1_types/strings/universalstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..ce40d2c 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
-- 
2.43.0


From c6ff4f6622ffa44cc11f8f5a9c5496b7cd8d239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 08/66] fix: UniversalString encodes the length of non-ASCII
 strings

---
 src/asn1_types/strings/universalstring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index ce40d2c..88d7280 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,7 +137,7 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
@@ -145,7 +145,7 @@ const _: () = {
             self.data
                 .chars()
                 .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            Ok(self.data.chars().count() * 4)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From ab0ab17afb3871d87b9da5bb145afa80c08964e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 09/66] fix: constructed strings can be empty, and contain
 nothing else than segments

---
 src/ber/appendable.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..9daaa8b 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -28,10 +28,6 @@ where
         return Err(BerError::nom_err_input(&input, InnerError::BerMaxDepth));
     }
 
-    if input.is_empty() {
-        return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-    }
-
     if header.constructed() {
         let (rem, data) = if header.length.is_definite() {
             ber_get_content(header, input)?
@@ -42,7 +38,10 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            if !header.length.is_definite()
+                && obj.header.is_universal()
+                && obj.header.tag() == Tag::EndOfContent
+            {
                 break;
             }
             let Any {
@@ -52,11 +51,9 @@ where
             if !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
-            // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
-            if !data2.is_empty() {
-                let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
-                v.append(&mut part_v);
-            }
+            // Empty segments are sometimes allowed (for ex: OctetStrings), this is checked by `T`
+            let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
+            v.append(&mut part_v);
         }
         Ok((rem, v))
     } else {
-- 
2.43.0


From 389b5152f9bb604cdba8b4afcbb0e476008ea75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 10/66] fix: BIT STRING DER parser checks the padding bits

---
 src/asn1_types/bitstring.rs | 43 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..d18ca9a 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -135,6 +135,7 @@ impl<'i> DerParser<'i> for BitString {
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
+        check_der_padding(input.as_bytes2()).map_err(BerError::convert(input.clone()))?;
 
         <BitString>::from_ber_content(header, input)
     }
@@ -144,27 +145,33 @@ impl CheckDerConstraints for BitString {
     fn check_constraints(any: &Any) -> Result<()> {
         // X.690 section 10.2
         any.header.assert_primitive()?;
-        // Check that padding bits are all 0 (X.690 section 11.2.1)
-        let s = any.data.as_bytes2();
-        match s.len() {
-            0 => Err(Error::InvalidLength),
-            1 => {
-                // X.690 section 11.2.2 Note 2
-                if s[0] == 0 {
-                    Ok(())
-                } else {
-                    Err(Error::InvalidLength)
-                }
-            }
-            len => {
-                let unused_bits = s[0];
-                let last_byte = s[len - 1];
-                if last_byte.trailing_zeros() < unused_bits as u32 {
-                    return Err(Error::DerConstraintFailed(DerConstraint::UnusedBitsNotZero));
-                }
+        check_der_padding(any.data.as_bytes2())?;
+        Ok(())
+    }
+}
 
+/// Check that padding bits are all 0 (X.690 section 11.2.1)
+fn check_der_padding(s: &[u8]) -> Result<(), InnerError> {
+    match s.len() {
+        0 => Err(InnerError::InvalidLength),
+        1 => {
+            // X.690 section 11.2.2 Note 2
+            if s[0] == 0 {
                 Ok(())
+            } else {
+                Err(InnerError::InvalidLength)
+            }
+        }
+        len => {
+            let unused_bits = s[0];
+            let last_byte = s[len - 1];
+            if last_byte.trailing_zeros() < unused_bits as u32 {
+                return Err(InnerError::DerConstraintFailed(
+                    DerConstraint::UnusedBitsNotZero,
+                ));
             }
+
+            Ok(())
         }
     }
 }
-- 
2.43.0


From 3281275a560c8cc3f2da9b960230cdb1be32e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 11/66] fix: BIT STRING encoder sets the padding bits to 0

---
 src/asn1_types/bitstring.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index d18ca9a..0a91b67 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -205,8 +205,11 @@ const _: () = {
             // ignored bits
             let ignored = (8 * data.len()) - self.len();
             target.write_all(&[ignored as u8])?;
-            // content
-            target.write_all(data)?;
+            // content, with padding bits set to 0 (X.690 section 11.2.1)
+            if let Some((last, bytes)) = data.split_last() {
+                target.write_all(bytes)?;
+                target.write_all(&[*last & (0xff << ignored)])?;
+            }
 
             Ok(1 + data.len())
         }
-- 
2.43.0


From 101e5ccf0c475a60d44abdd74b2d75a415e273b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 12/66] fix: BitString::from(&BitSlice) with a slice starting
 in the middle of a byte

---
 src/asn1_types/bitstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 0a91b67..d7a8e67 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -78,7 +78,9 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // first bit of `slice` is not always the first of a byte
+        bitvec.force_align();
         Self { bitvec }
     }
 }
-- 
2.43.0


From 9f2e6b1a759c5347237d5ca92c2d5b1579355901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 13/66] fix: DEL is not a VisibleString character

---
 src/asn1_types/strings/visiblestring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/visiblestring.rs b/src/asn1_types/strings/visiblestring.rs
index 13c6ca8..9112561 100644
--- a/src/asn1_types/strings/visiblestring.rs
+++ b/src/asn1_types/strings/visiblestring.rs
@@ -9,7 +9,7 @@ impl TestValidCharset for VisibleString<'_> {
     fn test_valid_charset(i: &[u8]) -> Result<()> {
         #[allow(clippy::trivially_copy_pass_by_ref)]
         fn is_visible(b: &u8) -> bool {
-            0x20 <= *b && *b <= 0x7f
+            0x20 <= *b && *b <= 0x7e
         }
         if !i.iter().all(is_visible) {
             return Err(Error::StringInvalidCharset);
-- 
2.43.0


From d1c0c40b2ebfcd9cbb8fa191792700cef8bc410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 14/66] fix: AnySequence, AnySet and SetOf are constructed

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 src/asn1_types/set/any_set.rs           | 1 +
 src/asn1_types/set/set_of.rs            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..90477c9 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..08057fd 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -198,6 +198,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From 08afdbae22ba19b38b892316ea36f9be31855f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 15/66] fix: optional objects with indefinite length

---
 src/asn1_types/optional.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..ffefeed 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // `input` is already the object content
+        let (rem, obj) = T::from_ber_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -114,9 +113,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // `input` is already the object content
+        let (rem, obj) = T::from_der_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From fff8843c735058588147462a8e5943690a3c1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 16/66] fix: tag information of optional objects

---
 src/asn1_types/optional.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index ffefeed..98931e3 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -154,12 +154,16 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        self.as_ref().map_or(Class::Universal, |t| t.class())
+    }
+
+    fn constructed(&self) -> bool {
+        self.as_ref().map_or(false, |t| t.constructed())
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
-        }
+        self.as_ref().map_or(Tag(0), |t| t.tag())
     }
 
     fn accept_tag(tag: Tag) -> bool {
-- 
2.43.0


From d6eef5a0c790f0e4198105038d8bcf2f44ae3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 17/66] fix: absent optional objects are not encoded, and have
 length 0

---
 src/asn1_types/optional.rs | 80 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 98931e3..3bb5ca6 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -199,12 +199,52 @@ const _: () = {
             (self.class(), self.constructed(), self.tag())
         }
 
+        // Note: an absent object is not encoded (not even a header)
+
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
+        fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_encode(target),
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -231,12 +271,52 @@ const _: () = {
             (self.class(), self.constructed(), self.tag())
         }
 
+        // Note: an absent object is not encoded (not even a header)
+
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
+        fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_encode(target),
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
-- 
2.43.0


From eb0581439ad9655785169d564401fe0344d582ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 18/66] fix: derived encoders compute the length of absent and
 of tagged implicit fields

---
 derive/src/container.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..f9f8075 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -526,10 +526,12 @@ impl Container {
                 Some((Asn1TagKind::Explicit, _class, tag)) => {
                     // TAGGED EXPLICIT: add length required to encode tag header
                     let tag = u32::from(tag);
+                    // Note: only absent (OPTIONAL) objects have a null length, they are not encoded
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                        #acc + match #bi.#total_len() {
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            inner_len => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), inner_len),
+                        }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
@@ -537,10 +539,12 @@ impl Container {
                     // This could be different from `#bi.#total_len()` in the specific case one of
                     // (implicit tag, object tag) is long and the other is not
                     let tag = u32::from(tag);
+                    // Note: only absent (OPTIONAL) objects have a null length, they are not encoded
                     quote! {
-                        #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                        #acc + match #bi.#total_len() {
+                            asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                            _ => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), #bi.#content_len()),
+                        }
                     }
                 }
                 None => quote! {
-- 
2.43.0


From cc0fd51470020f8caab17fc6f3566d3174a6f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 19/66] fix: derived parsers check the class of optional tagged
 fields

---
 derive/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index f9f8075..29b4b94 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -884,7 +884,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
                         (i, None)
                     } else {
                         let (_, header): (_, asn1_rs::Header) = #from(i)#map_err?;
-                        if header.tag().0 == #tag {
+                        if header.tag().0 == #tag && header.class() as u8 == #class {
                             let (i, t): (_, asn1_rs::TaggedValue::<_, _, #tag_kind, {#class}, #tag>) = #from(i)#map_err?;
                             (i, Some(t.into_inner()))
                         } else {
@@ -981,7 +981,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
                         // clone rem, #map_err may consume it
                         let rem_copy = rem.clone();
                         let (_, obj_header): (_, asn1_rs::Header) = #from(rem_copy)#map_err?;
-                        if obj_header.tag().0 == #tag {
+                        if obj_header.tag().0 == #tag && obj_header.class() as u8 == #class {
                             let (rem, t): (_, asn1_rs::TaggedValue::<
                                 _,
                                 <#f_ty as asn1_rs::#parser>::Error,
-- 
2.43.0


From c5091ce5b0b84c1351b72880147fe7f68f2de87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:51 +0000
Subject: [PATCH 20/66] fix: derived aliases are constructed if the aliased
 type is

---
 derive/src/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 29b4b94..4949ccd 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -212,11 +212,10 @@ impl Container {
     }
 
     pub fn gen_tagged(&self) -> TokenStream {
-        let mut constructed = true;
+        let constructed;
         let class;
         let tag;
         if self.container_type == ContainerType::Alias {
-            constructed = false;
             // special case: is this an alias for Any
             if self.is_any {
                 return quote! {
@@ -243,10 +242,12 @@ impl Container {
             // find type of sub-item
             let ty = &self.fields[0].type_;
             class = quote! { <#ty as asn1_rs::Tagged>::CLASS };
+            constructed = quote! { <#ty as asn1_rs::Tagged>::CONSTRUCTED };
             tag = quote! { <#ty as asn1_rs::Tagged>::TAG };
         } else {
             let container_type = self.container_type;
             class = quote! { asn1_rs::Class::Universal };
+            constructed = quote! { true };
             tag = quote! { #container_type };
         }
         quote! {
-- 
2.43.0


From 82b7d9b1d46ac4e31b594e34910eae7b5160c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 21/66] fix: INTEGER contents cannot be empty

---
 src/asn1_types/integer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..9a747e2 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -94,6 +94,10 @@ macro_rules! impl_int {
             ) -> IResult<Input<'i>, Self, Self::Error> {
                 // Encoding shall be primitive (X.690: 8.3.1)
                 header.assert_primitive_input(&input).map_err(Err::Error)?;
+                // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+                if input.is_empty() {
+                    return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
+                }
 
                 let uint = if is_highest_bit_set(input.as_bytes2()) {
                     let ar = decode_array_int(input.as_bytes2())
@@ -202,6 +206,10 @@ macro_rules! impl_uint {
             ) -> IResult<Input<'i>, Self, Self::Error> {
                 // Encoding shall be primitive (X.690: 8.3.1)
                 header.assert_primitive_input(&input).map_err(Err::Error)?;
+                // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+                if input.is_empty() {
+                    return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
+                }
 
                 let ar = decode_array_uint(input.as_bytes2())
                     .map_err(|e| BerError::nom_err_input(&input, e.into()))?;
-- 
2.43.0


From c4815a28966fbf3c495b133c44525c5b98f0e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 22/66] fix: parsing a RELATIVE-OID gives a relative Oid

---
 src/asn1_types/oid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..81b5a18 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,13 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        let oid = if header.is_universal() && header.tag() == Tag::RelativeOid {
+            Oid::new_relative(asn1)
+        } else {
+            Oid::new(asn1)
+        };
+        Ok((rem, oid))
     }
 }
 
-- 
2.43.0


From 4bfcf2cb911271dc78c01753021282736e205c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 23/66] fix: reject Oid components that do not fit in the first
 octet instead of truncating them

---
 src/asn1_types/oid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 81b5a18..2b6b56e 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -171,7 +171,8 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        // the first two components are encoded on one octet, without continuation bit
+        if s[0] >= 7 || s[1] >= 40 || s[0] * 40 + s[1] > 0x7f {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
         let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-- 
2.43.0


From 38aca15bf3520ce4c169c25498a42552cdccbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 24/66] fix: Oid::iter supports all arcs that fit in u64

---
 src/asn1_types/oid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 2b6b56e..918d628 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -286,11 +286,13 @@ impl<'a> Oid<'a> {
             .iter()
             .fold((0usize, 0usize), |(max, cur), c| {
                 let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
+                // leading zeroes of the arc are not significant
+                let bits = if cur == 0 {
+                    8 - (c & 0x7f).leading_zeros() as usize
                 } else {
-                    (max, cur + 7)
-                }
+                    cur + 7
+                };
+                (max.max(bits), if is_end { 0 } else { bits })
             })
             .0;
         if max_bits > 64 {
-- 
2.43.0


From 0bdb953df9707bbb286e37179935f64cda7b6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 25/66] fix: Oid iterators report their exact length

---
 src/asn1_types/oid.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 918d628..4f55ca4 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -373,28 +373,29 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
         }
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
 impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
     fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
+        let asn1: &[u8] = &self.oid.asn1;
+        // number of arcs left in the first octet, and octets of the other arcs
+        let (first_arcs, rest) = if self.oid.relative || self.pos > 0 || asn1.is_empty() {
+            (0, &asn1[self.pos..])
         } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
-        }
+            let arcs = if asn1 == [0] { 1 } else { 2 };
+            (arcs - usize::from(self.first), &asn1[1..])
+        };
+        let terminated = rest.iter().filter(|o| (*o >> 7) == 0u8).count();
+        // octets after the last terminated arc (if any) are returned as an arc
+        let unterminated = rest.last().map_or(false, |o| (o >> 7) != 0u8);
+        first_arcs + terminated + usize::from(unterminated)
     }
 }
 
-- 
2.43.0


From 205b4cdfa330faa4f5be697f8ce9d786d3cc3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 26/66] fix: int! encodes 0 and numbers whose highest bit is
 set

---
 impl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..9de5429 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -114,7 +114,11 @@ fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
     let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    // INTEGER contents are signed, and have at least one octet
+    let mut v: Vec<u8> = bytes.iter().copied().skip_while(|c| *c == 0).collect();
+    if v.first().map_or(true, |c| *c >= 0x80) {
+        v.insert(0, 0);
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
-- 
2.43.0


From 84fe20d0c8088f8759b1b14df96d693500960539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 27/66] fix: GeneralizedTime encodes milliseconds with three
 digits, without trailing zeros

---
 src/asn1_types/generalizedtime.rs | 12 +++---------
 src/datetime.rs                   | 11 ++++++++++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..39cb52d 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -252,7 +252,7 @@ impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
         let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
             None => String::new(),
         };
         match dt.tz {
@@ -314,19 +314,13 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
-            };
+            let num_digits = self.0.fractional_seconds().len();
 
             Length::Definite(15 + num_digits)
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let fractional = self.0.fractional_seconds();
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..0e5b6ea 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -54,6 +54,15 @@ impl ASN1DateTime {
         }
     }
 
+    /// Encoding of the fractional seconds, without trailing zeros (X.690: 11.7.3)
+    #[cfg(feature = "std")]
+    pub(crate) fn fractional_seconds(&self) -> String {
+        match self.millisecond {
+            None | Some(0) => String::new(),
+            Some(v) => format!(".{v:03}").trim_end_matches('0').to_string(),
+        }
+    }
+
     #[cfg(feature = "datetime")]
     fn to_time_datetime(
         &self,
@@ -89,7 +98,7 @@ impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let fractional = match self.millisecond {
             None => "".to_string(),
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
         };
         write!(
             f,
-- 
2.43.0


From 6752ca8c3f845a766f3ac4db3b00d09423af45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 28/66] fix: GeneralizedTime rejects four fractional digits,
 also without time zone

---
 src/asn1_types/generalizedtime.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 39cb52d..b460cf2 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -80,6 +80,11 @@ impl GeneralizedTime {
                 let mut rem = rem;
                 let mut digits = 0;
                 for idx in 0..=4 {
+                    if idx == 4 {
+                        return Err(
+                            Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
+                        );
+                    }
                     if rem.is_empty() {
                         if idx == 0 {
                             // dot or comma, but no following digit
@@ -90,11 +95,6 @@ impl GeneralizedTime {
                         digits = idx;
                         break;
                     }
-                    if idx == 4 {
-                        return Err(
-                            Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
-                        );
-                    }
                     match rem[0] {
                         b'0'..=b'9' => {
                             // cannot overflow, max 4 digits will be read
-- 
2.43.0


From fb640c475419689f28a2e2490810541b13c6eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 29/66] fix: time parsers reject month 0 and day 0

---
 src/asn1_types/generalizedtime.rs | 9 ++++++++-
 src/asn1_types/utctime.rs         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index b460cf2..883461b 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -51,7 +51,14 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if month == 0
+            || month > 12
+            || day == 0
+            || day > 31
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..6eaed7f 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -47,7 +47,14 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if month == 0
+            || month > 12
+            || day == 0
+            || day > 31
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
-- 
2.43.0


From eeaff23af9cbb0bf6998c80b257288153761cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 30/66] fix: time parsers accept a time differential without
 seconds

---
 src/asn1_types/generalizedtime.rs | 2 +-
 src/asn1_types/utctime.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 883461b..3de3772 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -45,7 +45,7 @@ impl GeneralizedTime {
         }
         // check for seconds
         let (second, rem) = match rem {
-            [sec1, sec2, rem @ ..] => {
+            [sec1, sec2, rem @ ..] if !matches!(sec1, b'+' | b'-') => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
             }
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 6eaed7f..8f8bf64 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,7 +41,7 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
-            [sec1, sec2, rem @ ..] => {
+            [sec1, sec2, rem @ ..] if !matches!(sec1, b'+' | b'-') => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
             }
-- 
2.43.0


From 5d4949c6dbae98f11ce91406619d4686794e8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 31/66] fix: sign and range of time differentials

---
 src/asn1_types/generalizedtime.rs | 18 +++++++++++-------
 src/asn1_types/utctime.rs         | 18 +++++++++++-------
 src/datetime.rs                   | 10 ++++++++++
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 3de3772..9886ed6 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -147,14 +147,13 @@ impl GeneralizedTime {
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
             [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2, *m1, *m2])?;
+                ASN1TimeZone::Offset(hh, mm)
             }
             [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2, *m1, *m2])?;
+                // the sign is carried by the hours, unless there are none
+                ASN1TimeZone::Offset(-hh, if hh == 0 { -mm } else { mm })
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -274,7 +273,12 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || (hh == 0 && mm < 0) {
+                    '-'
+                } else {
+                    '+'
+                };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 8f8bf64..8c606b4 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -63,14 +63,13 @@ impl UtcTime {
         let tz = match rem {
             [b'Z'] => ASN1TimeZone::Z,
             [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2, *m1, *m2])?;
+                ASN1TimeZone::Offset(hh, mm)
             }
             [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                let (hh, mm) = decode_offset(Self::TAG, [*h1, *h2, *m1, *m2])?;
+                // the sign is carried by the hours, unless there are none
+                ASN1TimeZone::Offset(-hh, if hh == 0 { -mm } else { mm })
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -207,7 +206,12 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || (hh == 0 && mm < 0) {
+                    '-'
+                } else {
+                    '+'
+                };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
diff --git a/src/datetime.rs b/src/datetime.rs
index 0e5b6ea..a513b07 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -116,3 +116,13 @@ pub(crate) fn decode_decimal(tag: Tag, hi: u8, lo: u8) -> Result<u8> {
         Err(tag.invalid_value("expected digit"))
     }
 }
+
+/// Decode the hours and minutes of a time differential
+pub(crate) fn decode_offset(tag: Tag, hhmm: [u8; 4]) -> Result<(i8, i8)> {
+    let hh = decode_decimal(tag, hhmm[0], hhmm[1])?;
+    let mm = decode_decimal(tag, hhmm[2], hhmm[3])?;
+    if hh > 23 || mm > 59 {
+        return Err(tag.invalid_value("time differential with invalid values"));
+    }
+    Ok((hh as i8, mm as i8))
+}
-- 
2.43.0


From 33edd5339777acb20ff545088e8d906d06daf251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:28 +0000
Subject: [PATCH 32/66] fix: encode times in UTC, and refuse components that do
 not have their fixed number of digits

---
 src/asn1_types/generalizedtime.rs | 15 +++---
 src/asn1_types/utctime.rs         | 18 ++++++-
 src/datetime.rs                   | 80 ++++++++++++++++++++++++++++++-
 3 files changed, 103 insertions(+), 10 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 9886ed6..e5514fa 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -331,17 +331,18 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = self.0.fractional_seconds();
+            let dt = self.0.to_encodable_utc()?;
+            let fractional = dt.fractional_seconds();
             let num_digits = fractional.len();
             write!(
                 target,
                 "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
-                self.0.year,
-                self.0.month,
-                self.0.day,
-                self.0.hour,
-                self.0.minute,
-                self.0.second,
+                dt.year,
+                dt.month,
+                dt.day,
+                dt.hour,
+                dt.minute,
+                dt.second,
                 fractional,
             )?;
             // write_fmt returns (), see above for length value
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 8c606b4..6862925 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -251,10 +251,26 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            // years have two digits, and are within 1950 to 2049
+            let mut dt = self.0.clone();
+            match dt.year {
+                0..=49 => dt.year += 2000,
+                50..=99 => dt.year += 1900,
+                _ => (),
+            }
+            let dt = dt.to_encodable_utc()?;
+            if !(1950..=2049).contains(&dt.year) {
+                return Err(Error::InvalidDateTime.into());
+            }
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                dt.year % 100,
+                dt.month,
+                dt.day,
+                dt.hour,
+                dt.minute,
+                dt.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
diff --git a/src/datetime.rs b/src/datetime.rs
index a513b07..8720299 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1,3 +1,5 @@
+#[cfg(any(feature = "std", feature = "datetime"))]
+use crate::Error;
 use crate::{Result, Tag};
 use alloc::format;
 #[cfg(not(feature = "std"))]
@@ -63,6 +65,70 @@ impl ASN1DateTime {
         }
     }
 
+    /// Same date and time in coordinated universal time, for encoding
+    ///
+    /// Fails if a component is out of range (it would not have its fixed number of digits).
+    #[cfg(feature = "std")]
+    pub(crate) fn to_encodable_utc(&self) -> Result<Self> {
+        if self.year > 9999
+            || !(1..=12).contains(&self.month)
+            || !(1..=31).contains(&self.day)
+            || self.hour > 23
+            || self.minute > 59
+            || self.second > 59
+            || self.millisecond.unwrap_or(0) > 999
+        {
+            return Err(Error::InvalidDateTime);
+        }
+        let mut dt = self.clone();
+        let (hh, mm) = match self.tz {
+            ASN1TimeZone::Undefined | ASN1TimeZone::Z => return Ok(dt),
+            ASN1TimeZone::Offset(hh, mm) => (hh, mm),
+        };
+        let offset = i32::from(hh.unsigned_abs()) * 60 + i32::from(mm.unsigned_abs());
+        if hh.unsigned_abs() > 23
+            || mm.unsigned_abs() > 59
+            || dt.day > days_in_month(dt.year, dt.month)
+        {
+            return Err(Error::InvalidDateTime);
+        }
+        let local = i32::from(dt.hour) * 60 + i32::from(dt.minute);
+        let utc = if hh < 0 || (hh == 0 && mm < 0) {
+            local + offset
+        } else {
+            local - offset
+        };
+        if utc < 0 {
+            dt.day -= 1;
+            if dt.day == 0 {
+                dt.month -= 1;
+                if dt.month == 0 {
+                    dt.year = dt.year.checked_sub(1).ok_or(Error::InvalidDateTime)?;
+                    dt.month = 12;
+                }
+                dt.day = days_in_month(dt.year, dt.month);
+            }
+        } else if utc >= 24 * 60 {
+            dt.day += 1;
+            if dt.day > days_in_month(dt.year, dt.month) {
+                dt.day = 1;
+                dt.month += 1;
+                if dt.month > 12 {
+                    dt.month = 1;
+                    dt.year += 1;
+                    if dt.year > 9999 {
+                        return Err(Error::InvalidDateTime);
+                    }
+                }
+            }
+        }
+        let utc = utc.rem_euclid(24 * 60);
+        dt.hour = (utc / 60) as u8;
+        dt.minute = (utc % 60) as u8;
+        dt.tz = ASN1TimeZone::Z;
+        Ok(dt)
+    }
+
     #[cfg(feature = "datetime")]
     fn to_time_datetime(
         &self,
@@ -88,9 +154,19 @@ impl ASN1DateTime {
 
     #[cfg(feature = "datetime")]
     pub fn to_datetime(&self) -> Result<OffsetDateTime> {
-        use crate::Error;
+        self.to_time_datetime()
+            .map_err(|_| Error::InvalidDateTime)
+    }
+}
 
-        self.to_time_datetime().map_err(|_| Error::InvalidDateTime)
+/// Number of days of a month (1 to 12) of the Gregorian calendar
+#[cfg(feature = "std")]
+fn days_in_month(year: u32, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        _ => 31,
     }
 }
 
-- 
2.43.0


From 363cedd3c4a1ffecc60091ba241ac0e360aad201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:28 +0000
Subject: [PATCH 33/66] fix: UtcTime::timestamp is relative to the adjusted
 year

---
 src/asn1_types/utctime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 6862925..5268724 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -131,7 +131,7 @@ impl UtcTime {
     #[cfg(feature = "datetime")]
     #[cfg_attr(docsrs, doc(cfg(feature = "datetime")))]
     pub fn timestamp(&self) -> Result<i64> {
-        let dt = self.0.to_datetime()?;
+        let dt = self.utc_adjusted_datetime()?;
         Ok(dt.unix_timestamp())
     }
 }
-- 
2.43.0


From f20ff173811850d0b74ef381c50e9223f83708f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:28 +0000
Subject: [PATCH 34/66] fix: GeneralizedTime DER parsers require seconds

---
 src/asn1_types/generalizedtime.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index e5514fa..e5c5daa 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -239,7 +239,12 @@ impl<'i> DerParser<'i> for GeneralizedTime {
             ));
         }
         // The seconds element shall always be present (X.690: 11.7.2)
-        // XXX
+        if data.len() < 15 {
+            return Err(BerError::nom_err_input(
+                &data,
+                InnerError::DerConstraintFailed(DerConstraint::MissingSeconds),
+            ));
+        }
         // The decimal point element, if present, shall be the point option "." (X.690: 11.7.4)
         if data.as_bytes2().contains(&b',') {
             return Err(BerError::nom_err_input(
@@ -296,7 +301,9 @@ impl CheckDerConstraints for GeneralizedTime {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingTimeZone));
         }
         // X.690 section 11.7.2: The seconds element shall always be present.
-        // XXX
+        if any.data.len() < 15 {
+            return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
+        }
         // X.690 section 11.7.4: The decimal point element, if present, shall be the point option "."
         if any.data.as_bytes2().contains(&b',') {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
-- 
2.43.0


From d487efde0d17a5abbf2e5168886c8d91bc39acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 35/66] fix: from_der rejects primitive SEQUENCE OF and SET OF

---
 src/asn1_types/sequence/sequence_of.rs | 3 +++
 src/asn1_types/sequence/vec.rs         | 3 +++
 src/asn1_types/set/set_of.rs           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..a210858 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -185,6 +185,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..095d011 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -166,6 +166,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 08057fd..63af243 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -187,6 +187,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From 239fea976a6790e327c45867bcad33df177ee2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 36/66] fix: tuples reject primitive encodings

---
 src/asn1_types/sequence/tuple.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index f6f6b35..959849f 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -16,9 +16,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_ber_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
@@ -35,9 +39,13 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_der_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                // Encoding shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
-- 
2.43.0


From 133f4e49b51aa5effbd00f8d7835e55cd66e379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:46 +0000
Subject: [PATCH 37/66] fix: GeneralizedTime rejects a decimal point without
 digits before the time zone

---
 src/asn1_types/generalizedtime.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index e5c5daa..870fbad 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -92,13 +92,13 @@ impl GeneralizedTime {
                             Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
                         );
                     }
+                    if idx == 0 && !matches!(rem, [b'0'..=b'9', ..]) {
+                        // dot or comma, but no following digit
+                        return Err(Self::TAG.invalid_value(
+                            "malformed time string (dot or comma but no digits)",
+                        ));
+                    }
                     if rem.is_empty() {
-                        if idx == 0 {
-                            // dot or comma, but no following digit
-                            return Err(Self::TAG.invalid_value(
-                                "malformed time string (dot or comma but no digits)",
-                            ));
-                        }
                         digits = idx;
                         break;
                     }
-- 
2.43.0


From c9aafd55ffd659da760b4c167034a90c9a3fef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 38/66] fix: explicit TaggedParser rejects primitive encodings

---
 src/asn1_types/tagged/explicit.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..a60af17 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -268,6 +268,11 @@ impl<'a, T, E> TaggedParser<'a, Explicit, T, E> {
         F: FnOnce(&'a [u8]) -> ParseResult<'a, T, E>,
         E: From<Error>,
     {
+        let (_, header) = Header::from_ber(bytes).map_err(Err::convert)?;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         Any::from_ber_and_then(class, tag, bytes, op)
     }
 
@@ -288,6 +293,11 @@ impl<'a, T, E> TaggedParser<'a, Explicit, T, E> {
         F: FnOnce(&'a [u8]) -> ParseResult<'a, T, E>,
         E: From<Error>,
     {
+        let (_, header) = Header::from_der(bytes).map_err(Err::convert)?;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         Any::from_der_and_then(class, tag, bytes, op)
     }
 }
@@ -300,6 +310,10 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_ber(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
@@ -319,6 +333,10 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_der(any.data.as_bytes2())?;
         let tagged = TaggedParser {
             header,
-- 
2.43.0


From 850f32d2882380abc9656cf192e910b136d4a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 39/66] fix: from_der of implicit tagged values checks the DER
 constraints of the base type

---
 src/asn1_types/tagged/implicit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..f479533 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -136,6 +136,7 @@ impl<'a, T, E, const CLASS: u8, const TAG: u32> FromDer<'a, E>
     for TaggedValue<T, E, Implicit, CLASS, TAG>
 where
     T: TryFrom<Any<'a>, Error = E>,
+    T: CheckDerConstraints,
     T: Tagged,
     E: From<Error>,
 {
@@ -157,6 +158,7 @@ where
             },
             data: any.data,
         };
+        T::check_constraints(&any).map_err(|e| Err::Error(e.into()))?;
         match T::try_from(any) {
             Ok(inner) => Ok((rem, TaggedValue::implicit(inner))),
             Err(e) => Err(Err::Error(e)),
-- 
2.43.0


From d8652a7fbff9ddd4b0af410df3a125f0f2647568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 40/66] fix: encoding a reference forwards the specialised
 methods of its target

---
 src/to_ber.rs | 32 ++++++++++++++++++++++++++++++++
 src/to_der.rs | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index 64b9416..00ccfb5 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -143,6 +143,38 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    // Note: forward all methods, they can be specialized by `T`
+
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..34f6192 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -177,6 +177,38 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    // Note: forward all methods, they can be specialized by `T`
+
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From 76c00aa082fca35ec47b179ad79896b2bcee5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:39 +0000
Subject: [PATCH 41/66] fix: SequenceIteratorInput checks the tag of each
 element

---
 src/asn1_types/sequence/iterator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..3ba4c35 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -142,6 +142,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
@@ -173,6 +177,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
-- 
2.43.0


From c7036e707a84debbca2fdffa8bbc2458aad896a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 42/66] fix: Any::iter_elements iterates in the requested mode

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..688f12c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -137,8 +137,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From 861cbd371ffbe40945597ef21879b95cf6ec9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 43/66] fix: segments of constructed strings are universal, and
 none is skipped

---
 src/ber/appendable.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 9daaa8b..797c3f1 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -1,8 +1,6 @@
 use nom::{Err, IResult, Input as _};
 
-use crate::{
-    Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input, Tag,
-};
+use crate::{Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input};
 
 use super::ber_get_content;
 
@@ -38,17 +36,11 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if !header.length.is_definite()
-                && obj.header.is_universal()
-                && obj.header.tag() == Tag::EndOfContent
-            {
-                break;
-            }
             let Any {
                 header: h2,
                 data: data2,
             } = obj;
-            if !<T as DynTagged>::accept_tag(h2.tag()) {
+            if !h2.is_universal() || !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
             // Empty segments are sometimes allowed (for ex: OctetStrings), this is checked by `T`
-- 
2.43.0


From de6a95b9f6ab62dd7bca8fadf1dd85b48cd51981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 44/66] Revert from_der constraint checks under implicit tags
 (trait bounds of the public interface)

The added bound rejects types that compiled before.
---
 src/asn1_types/tagged/implicit.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index f479533..aab89e9 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -136,7 +136,6 @@ impl<'a, T, E, const CLASS: u8, const TAG: u32> FromDer<'a, E>
     for TaggedValue<T, E, Implicit, CLASS, TAG>
 where
     T: TryFrom<Any<'a>, Error = E>,
-    T: CheckDerConstraints,
     T: Tagged,
     E: From<Error>,
 {
@@ -158,7 +157,6 @@ where
             },
             data: any.data,
         };
-        T::check_constraints(&any).map_err(|e| Err::Error(e.into()))?;
         match T::try_from(any) {
             Ok(inner) => Ok((rem, TaggedValue::implicit(inner))),
             Err(e) => Err(Err::Error(e)),
-- 
2.43.0


From 146d4c7701639e44dc28f230b672aab787748669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 45/66] fix: derived sequences and sets reject primitive
 encodings in from_ber and from_der

---
 derive/src/container.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 4949ccd..af15be2 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -185,6 +185,7 @@ impl Container {
             quote! {
                 use asn1_rs::nom::*;
                 any.tag().assert_eq(Self::TAG)?;
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -482,6 +483,7 @@ impl Container {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From 9d8f6d315fa81702cac4958f1929891011d9061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:52 +0000
Subject: [PATCH 46/66] fix: derived tagged choices check the class of the
 object

---
 derive/src/choice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..9f81976 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -262,6 +262,11 @@ impl<'s> DeriveChoice<'s> {
                 gen impl<#lft> asn1_rs::#parser<#lft> for @Self where #(#where_predicates)+* {
                     type Error = #error;
                     fn #from_ber_content(header: &'_ asn1_rs::Header<#lft>, input: asn1_rs::Input<#lft>) -> asn1_rs::nom::IResult<asn1_rs::Input<#lft>, Self, Self::Error> {
+                        if header.class() != asn1_rs::Class::ContextSpecific {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::unexpected_class(input, Some(asn1_rs::Class::ContextSpecific), header.class()).into()
+                            ));
+                        }
                         #assert_constructed
                         let rem = input.clone();
                         match header.tag().0 {
-- 
2.43.0


From 977db891442b54b7c80b0f13d45712b0175681ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:07 +0000
Subject: [PATCH 47/66] fix: segmented parsing accepts end-of-contents octets
 as the last object only

---
 src/ber/appendable.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 797c3f1..d185f8b 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -34,8 +34,16 @@ where
             input.take_split(input.len())
         };
         let mut v = T::default();
-        for res in AnyIterator::<BerMode>::new(data) {
+        let mut iter = AnyIterator::<BerMode>::new(data);
+        while let Some(res) = iter.next() {
             let (_, obj) = res.map_err(Err::Error)?;
+            // EndOfContent (00 00) is only accepted as last object
+            if !header.length.is_definite()
+                && obj.header.raw_header().map(|h| h.as_bytes2()) == Some(&[0, 0])
+                && iter.next().is_none()
+            {
+                break;
+            }
             let Any {
                 header: h2,
                 data: data2,
-- 
2.43.0


From f330ca329339ea071c48799031851715bb209e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:50 +0000
Subject: [PATCH 48/66] fix: REAL exponents with a length octet are decoded

---
 src/asn1_types/real.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..889a9d0 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,7 +213,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            3 => {
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -221,13 +221,12 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
             b => (b as usize + 1, rem),
         };
-        if n >= rem.len() {
+        if n == 0 || n >= rem.len() {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
-- 
2.43.0


From 01869d3beac14a578d7df6c50f42f1a7e70b7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:50 +0000
Subject: [PATCH 49/66] fix: REAL exponents of base 8 and 16 that overflow are
 an error

---
 src/asn1_types/real.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 889a9d0..5da20ec 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -255,13 +255,15 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         };
         let e = match b {
             // base 2
-            0 => e,
+            0 => Some(e),
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3),
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4),
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
         };
+        let e = e
+            .ok_or_else(|| InnerError::invalid_value(header.tag, "Exponent too large (REAL)"))?;
         if rem.len() > 8 {
             return Err(InnerError::invalid_value(
                 header.tag,
-- 
2.43.0


From 1a41a1e365c6829ef81924aa61ac99ff78955cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:50 +0000
Subject: [PATCH 50/66] fix: REAL mantissas of eight octets are not negative

---
 src/asn1_types/real.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 5da20ec..b36cc1d 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -272,18 +272,22 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         }
         let mut p = 0;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | (*b as u64);
         }
         // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
+        let p = if first & 0x40 != 0 {
+            -(p as f64)
+        } else {
+            p as f64
+        };
         // scale bits
         let sf = (first >> 2) & 0x03;
         let p = match sf {
-            0 => p as f64,
+            0 => p,
             sf => {
                 // 2^sf: cannot overflow, sf is between 0 and 3
                 let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
+                p * scale
             }
         };
         Ok(Real::Binary {
-- 
2.43.0


From eb70b5293ae0435b8492aa3a809387cd8d8cf0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 51/66] fix: REAL decimal text: NR1 can be negative, words are
 not numbers

---
 src/asn1_types/real.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index b36cc1d..f3969bc 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -315,12 +315,22 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
     } else {
         // decimal encoding (X.690 section 8.5.7)
         let s = alloc::str::from_utf8(rem)?;
+        // digits, signs, decimal mark and exponent only: not "inf" or "nan"
+        if !rem
+            .iter()
+            .all(|b| matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b'E' | b'e'))
+        {
+            return Err(InnerError::invalid_value(
+                header.tag,
+                "Invalid float string encoding",
+            ));
+        }
         match first & 0x03 {
             0x1 => {
                 // NR1
-                match s.parse::<u32>() {
+                match s.parse::<i64>() {
                     Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
+                    Ok(v) => Ok(Real::new(v as f64)),
                 }
             }
             0x2 /* NR2 */ | 0x3 /* NR3 */=> {
-- 
2.43.0


From 684b85d840f75f49816f61b584a2882e26ddfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 52/66] fix: REAL encoding keeps the value for every base,
 mantissa and exponent

---
 src/asn1_types/real.rs | 89 ++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 50 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f3969bc..5a32cda 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -348,6 +348,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
 
 #[cfg(feature = "std")]
 const _: () = {
+    use core::convert::TryFrom;
     use std::io;
     use std::io::Write;
 
@@ -387,6 +388,13 @@ const _: () = {
                     exponent,
                     enc_base: _enc_base,
                 } => {
+                    if !mantissa.is_finite() {
+                        return Err(Self::TAG.invalid_value("Invalid mantissa for REAL").into());
+                    }
+                    if *mantissa == 0.0 {
+                        // the value zero has no contents octets
+                        return Ok(0);
+                    }
                     if *base == 10 {
                         // using character form
                         let sign = if *exponent == 0 { "+" } else { "" };
@@ -398,45 +406,31 @@ const _: () = {
                         return Err(Self::TAG.invalid_value("Invalid base for REAL").into());
                     }
                     let mut first: u8 = 0x80;
-                    // choose encoding base
-                    let enc_base = *_enc_base;
-                    let (ms, mut m, enc_base, mut e) =
-                        drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
+                    let (ms, m, e) = drop_floating_point(*mantissa, *exponent);
                     if ms < 0 {
                         first |= 0x40
                     };
-                    // exponent & mantissa normalization
-                    match enc_base {
-                        2 => {
-                            while m & 0x1 == 0 {
-                                m >>= 1;
-                                e += 1;
-                            }
-                        }
+                    // encoding base: the part of the exponent it cannot express is the scale factor
+                    // XXX in DER, sf is always 0 (11.3.1)
+                    let (e, sf) = match *_enc_base {
+                        2 => (e, 0),
                         8 => {
-                            while m & 0x7 == 0 {
-                                m >>= 3;
-                                e += 1;
-                            }
                             first |= 0x10;
+                            (e.div_euclid(3), e.rem_euclid(3))
                         }
-                        _ /* 16 */ => {
-                            while m & 0xf == 0 {
-                                m >>= 4;
-                                e += 1;
-                            }
+                        16 => {
                             first |= 0x20;
+                            (e.div_euclid(4), e.rem_euclid(4))
                         }
-                    }
-                    // scale factor
-                    // XXX in DER, sf is always 0 (11.3.1)
-                    let mut sf = 0;
-                    while m & 0x1 == 0 && sf < 4 {
-                        m >>= 1;
-                        sf += 1;
-                    }
-                    first |= sf << 2;
+                        _ => {
+                            return Err(Self::TAG
+                                .invalid_value("Invalid encoding base for REAL")
+                                .into())
+                        }
+                    };
+                    first |= (sf as u8) << 2;
+                    let e = i32::try_from(e)
+                        .map_err(|_| Self::TAG.invalid_value("Exponent too large (REAL)"))?;
                     // exponent length and bytes
                     let len_e = match e.abs() {
                         0..=0xff => 1,
@@ -513,29 +507,24 @@ impl From<Real> for f64 {
 }
 
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
+/// Write non-zero, finite `m` * 2^`e` as sign, odd integer mantissa, and exponent of base 2
+fn drop_floating_point(m: f64, e: i32) -> (i8, u64, i64) {
     let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
     let mut m = m.abs();
-    let mut e = e;
-    //
-    if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
-        e = (e.abs() / 3) * es;
-    } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
-        e = (e.abs() / 4) * es;
+    let mut e = i64::from(e);
+    // make the mantissa an integer
+    while m.fract() != 0.0 {
+        m *= 2.0;
+        e -= 1;
     }
-    //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
-        }
+    // that fits 64 bits: an integer that does not is even
+    while m >= 2_f64.powi(64) {
+        m /= 2.0;
+        e += 1;
     }
-    (ms, m as u64, b, e)
+    let m = m as u64;
+    let shift = m.trailing_zeros();
+    (ms, m >> shift, e + i64::from(shift))
 }
 
 #[cfg(test)]
-- 
2.43.0


From d8849533851e731e8e20c0862a0e7926e48f433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 53/66] fix: REAL exponents are written in the fewest octets
 that hold their sign

---
 src/asn1_types/real.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 5a32cda..33537b5 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -432,10 +432,10 @@ const _: () = {
                     let e = i32::try_from(e)
                         .map_err(|_| Self::TAG.invalid_value("Exponent too large (REAL)"))?;
                     // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    let len_e = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
-- 
2.43.0


From 86c71a96a43fb17493e264e64b634c42556f4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 54/66] fix: REAL values whose mantissa or power alone is out
 of range or inexact

---
 src/asn1_types/real.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 33537b5..2eb4320 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -136,9 +136,24 @@ impl Real {
                 exponent,
                 ..
             } => {
-                let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
+                let base = f64::from(*base);
+                let mut f = *mantissa;
+                let mut e = *exponent;
+                // in steps: the value can be in range when base^exponent alone is not
+                while e != 0 && f != 0.0 && f.is_finite() {
+                    let step = match e % 256 {
+                        0 => 256 * e.signum(),
+                        step => step,
+                    };
+                    if step < 0 {
+                        // negative powers of 10 are not exact
+                        f /= base.powi(-step);
+                    } else {
+                        f *= base.powi(step);
+                    }
+                    e -= step;
+                }
+                f
             }
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
-- 
2.43.0


From 4a40baf2fdd4ffee2953abc2157904a0c704b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 55/66] fix: reserved forms of decimal REAL are not accepted

---
 src/asn1_types/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 2eb4320..425a647 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -340,7 +340,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Invalid float string encoding",
             ));
         }
-        match first & 0x03 {
+        match first {
             0x1 => {
                 // NR1
                 match s.parse::<i64>() {
-- 
2.43.0


From a38e52e759eb5034d87a2361876c755b99ed7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 56/66] fix: REAL from floats keeps the shortest decimal digits

---
 src/asn1_types/real.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 425a647..f000cfa 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -43,14 +43,20 @@ impl Real {
         } else if f.abs() == 0.0 {
             Self::Zero
         } else {
-            let mut e = 0;
-            let mut f = f;
-            while f.fract() != 0.0 {
-                f *= 10.0_f64;
-                e -= 1;
-            }
+            // shortest decimal digits of the value
+            let s = format!("{f:e}");
+            let parsed = s.split_once('e').and_then(|(digits, e)| {
+                let decimals = digits.split_once('.').map_or(0, |(_, d)| d.len() as i32);
+                let mantissa = digits.replace('.', "").parse::<f64>().ok()?;
+                Some((mantissa, e.parse::<i32>().ok()? - decimals))
+            });
+            let (mantissa, e) = match parsed {
+                // integers are exact as they are
+                Some(x) if f.fract() != 0.0 => x,
+                _ => (f, 0),
+            };
             Real::Binary {
-                mantissa: f,
+                mantissa,
                 base: 10,
                 exponent: e,
                 enc_base: 10,
-- 
2.43.0


From 44dd95c40b1570aa26bc3a353b404a4cabb75309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:20 +0000
Subject: [PATCH 57/66] fix: to_der_len includes the header, as documented

---
 src/to_der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/to_der.rs b/src/to_der.rs
index 34f6192..218f995 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -145,7 +145,7 @@ pub trait ToDer {
     // Since we are using DER, length cannot be Indefinite
     #[deprecated(since = "0.8.0", note = "Use `der_total_len()` instead.")]
     fn to_der_len(&self) -> crate::Result<usize> {
-        match self.der_content_len() {
+        match self.der_total_len() {
             Length::Definite(sz) => Ok(sz),
             Length::Indefinite => Err(crate::Error::IndefiniteLengthUnexpected),
         }
-- 
2.43.0


From ad666889fcedb9164ed0f7c77e800d727437fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 58/66] fix: headers with different lengths are not equal, as
 documented

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 20fd88b..5e14153 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -450,7 +450,7 @@ impl<'a> PartialEq<Header<'a>> for Header<'a> {
             && self.tag == other.tag
             && self.constructed == other.constructed
             && {
-                if self.length.is_null() && other.length.is_null() {
+                if !self.length.is_null() && !other.length.is_null() {
                     self.length == other.length
                 } else {
                     true
-- 
2.43.0


From 83167aa7bab99361483bba5b75f83b3a895a39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 59/66] fix: EMBEDDED PDV identification is explicitly tagged
 (X.680: 31.2.7)

---
 src/asn1_types/embedded_pdv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..2230855 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -46,12 +46,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         _header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
+        // AUTOMATIC TAGS means all values will be tagged (IMPLICIT, except for the CHOICE)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
-        // this is a [0 IMPLICIT] SEQUENCE, so we can just parse it as Any and take the content
-        let (rem, t0) = TaggedImplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        // this is a CHOICE, so its tag is EXPLICIT: parse the alternative as Any
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
         let inner0 = t0.into_inner();
         let identification = match inner0.tag() {
             Tag(0) => {
-- 
2.43.0


From 3cd9366c6f7e2281961feae6d3158f393a5230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:15 +0000
Subject: [PATCH 60/66] fix: BitString::new of no bits does not panic

---
 src/asn1_types/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index d7a8e67..eee5f73 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -26,7 +26,7 @@ impl BitString {
     pub fn new(unused_bits: u8, s: &[u8]) -> Self {
         let unused_bits = usize::from(unused_bits);
         let mut bitvec = BitVec::from_slice(s);
-        assert!(unused_bits < 8 && unused_bits < bitvec.len());
+        assert!(unused_bits < 8 && unused_bits <= bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
 
         BitString { bitvec }
-- 
2.43.0


From 7d2f7b5e33ba70c27d8fad7e80fab2101d68595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:46 +0000
Subject: [PATCH 61/66] fix: named conversions of Any check the tag of the
 object

---
 src/asn1_types/any.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 688f12c..dc6da68 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -246,6 +246,9 @@ macro_rules! impl_any_into {
         #[doc = $asn1]
         #[doc = "`)."]
         pub fn $fn_name(self) -> Result<$ty> {
+            if !<$ty as DynTagged>::accept_tag(self.tag()) {
+                return Err(Error::unexpected_tag(None, self.tag()));
+            }
             let (_, obj) =
                 <$ty>::from_ber_content(&self.header, self.data).map_err(Error::from_nom_berr)?;
             Ok(obj)
@@ -266,6 +269,9 @@ macro_rules! impl_any_as {
         #[doc = "\n\nNote: this method makes shallow copies of `header` and `data`."]
         #[inline]
         pub fn $fn_name(&self) -> Result<$ty> {
+            if !<$ty as DynTagged>::accept_tag(self.tag()) {
+                return Err(Error::unexpected_tag(None, self.tag()));
+            }
             // This clone is cheap
             let data = self.data.clone();
             let (_, obj) =
-- 
2.43.0


From c71f5d790be618d2aeb2da4c0a73440e27548886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 62/66] fix: Any::as_any_str and as_any_string of constructed
 strings

---
 src/asn1_types/any.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index dc6da68..ba82c60 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -4,7 +4,7 @@ use crate::Input;
 use crate::*;
 use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::String;
 use core::convert::TryFrom;
 use nom::bytes::streaming::take;
 
@@ -433,6 +433,8 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                // segments of a constructed encoding cannot be joined without allocating
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res)
             }
@@ -454,8 +456,9 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
-                let res = core::str::from_utf8(self.data.as_bytes2())?;
-                Ok(res.to_string())
+                let (_, res) = String::from_ber_content(&self.header, self.data.clone())
+                    .map_err(Error::from_nom_berr)?;
+                Ok(res)
             }
             Tag::BmpString => {
                 let us = BmpString::try_from(self)?;
-- 
2.43.0


From 18a31693cbe352462a6e9b523e0ff6b26d9b4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:13 +0000
Subject: [PATCH 63/66] fix: Any::relative_oid checks the object like Oid does

---
 src/asn1_types/any.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index ba82c60..e4df989 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -313,6 +313,10 @@ impl<'a> Any<'a> {
     /// Attempt to convert object to `Oid` (ASN.1 type: `RELATIVE-OID`).
     pub fn relative_oid(self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        if self.data.is_empty() {
+            return Err(Error::InvalidLength);
+        }
         let asn1 = Cow::Borrowed(self.data.into_bytes());
         Ok(Oid::new_relative(asn1))
     }
@@ -361,6 +365,10 @@ impl<'a> Any<'a> {
     /// Attempt to create ASN.1 type `RELATIVE-OID` from this object.
     pub fn as_relative_oid(&'a self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        if self.data.is_empty() {
+            return Err(Error::InvalidLength);
+        }
         let asn1 = Cow::Borrowed(self.data.as_bytes2());
         Ok(Oid::new_relative(asn1))
     }
-- 
2.43.0


From cf59c546579612e871ddc9e827f719b6561291ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:35 +0000
Subject: [PATCH 64/66] fix: equality and hash of Any ignore the position of
 contents

The contents were compared and hashed with their offset in the input: an
object repeated in a SET was kept twice by AnySet, and an object read from a
structure was not equal to the same object read on its own.
---
 src/asn1_types/any.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index e4df989..fe8e32a 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -6,6 +6,7 @@ use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
 use alloc::string::String;
 use core::convert::TryFrom;
+use core::hash::Hash;
 use nom::bytes::streaming::take;
 
 /// The `Any` object is not strictly an ASN.1 type, but holds a generic description of any object
@@ -14,7 +15,7 @@ use nom::bytes::streaming::take;
 /// It contains a header, and a reference to the object content.
 ///
 /// Note: this type is only provided in **borrowed** version (*i.e.* it cannot own the inner data).
-#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Debug)]
 pub struct Any<'a> {
     /// The object header
     pub header: Header<'a>,
@@ -22,6 +23,22 @@ pub struct Any<'a> {
     pub data: Input<'a>,
 }
 
+/// Compare two objects. The position of the contents in the input is ignored (also by `Hash`)
+impl<'a> PartialEq<Any<'a>> for Any<'a> {
+    fn eq(&self, other: &Any<'a>) -> bool {
+        self.header == other.header && self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl Eq for Any<'_> {}
+
+impl Hash for Any<'_> {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        self.header.hash(state);
+        Input::from_slice(self.as_bytes()).hash(state);
+    }
+}
+
 impl<'a> Any<'a> {
     /// Create a new `Any` from BER/DER header and content
     #[inline]
-- 
2.43.0


From 082fc4f6f2ebad7cc6390c1caa9d1f8ec9dfadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:55 +0000
Subject: [PATCH 65/66] fix: EMBEDDED PDV is constructed and its components are
 checked

The form of the object and of its identification, the class of the
identification, the contents of the 'fixed' alternative and octets after the
last component were not checked.
---
 src/asn1_types/embedded_pdv.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 2230855..40a10a2 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -43,9 +43,13 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
     type Error = BerError<Input<'i>>;
 
     fn from_ber_content(
-        _header: &'_ Header<'i>,
+        header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // EMBEDDED PDV is a SEQUENCE: encoding shall be constructed (X.690: 8.17)
+        header
+            .assert_constructed_input(&input)
+            .map_err(Err::Error)?;
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT, except for the CHOICE)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
@@ -53,16 +57,27 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         // this is a CHOICE, so its tag is EXPLICIT: parse the alternative as Any
         let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
         let inner0 = t0.into_inner();
+        inner0
+            .header
+            .assert_class(Class::ContextSpecific)
+            .map_err(|e| BerError::nom_err_input(&inner0.data, e.into()))?;
         let identification = match inner0.tag() {
             Tag(0) => {
                 // syntaxes SEQUENCE {
                 //     abstract OBJECT IDENTIFIER,
                 //     transfer OBJECT IDENTIFIER
                 // },
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 let inner_data = inner0.data;
                 let (rem, t_abstract) =
                     TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                let (rem, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                if !rem.is_empty() {
+                    return Err(BerError::nom_err_input(&rem, InnerError::InvalidLength));
+                }
                 PdvIdentification::Syntaxes {
                     s_abstract: t_abstract.into_inner(),
                     s_transfer: t_transfer.into_inner(),
@@ -83,11 +98,18 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                 //     presentation-context-id INTEGER,
                 //     transfer-syntax OBJECT IDENTIFIER
                 // },
+                inner0
+                    .header
+                    .assert_constructed_input(&inner0.data)
+                    .map_err(Err::Error)?;
                 let inner_data = inner0.data;
                 let (rem, t_presentation_context_id) =
                     TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_presentation_syntax) =
+                let (rem, t_presentation_syntax) =
                     TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                if !rem.is_empty() {
+                    return Err(BerError::nom_err_input(&rem, InnerError::InvalidLength));
+                }
 
                 let presentation_context_id = t_presentation_context_id.into_inner();
                 let presentation_syntax = t_presentation_syntax.into_inner();
@@ -103,6 +125,7 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(5) => {
                 // fixed NULL
+                let _ = Null::from_ber_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
@@ -120,6 +143,9 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         // [2] -> data-value OCTET STRING
         let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::parse_ber(rem)?;
         let data_value = t2.into_inner();
+        if !rem.is_empty() {
+            return Err(BerError::nom_err_input(&rem, InnerError::InvalidLength));
+        }
 
         let obj = EmbeddedPdv {
             identification,
-- 
2.43.0


From cc1264303e17ff7e6cbf796c4533e30d6b1b8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:41 +0000
Subject: [PATCH 66/66] fix: parse_{ber,der}_and_then of SEQUENCE and SET
 refuse primitive encodings

The other decoders of these types check that the encoding is constructed.
---
 src/asn1_types/sequence.rs | 8 ++++++++
 src/asn1_types/set.rs      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/asn1_types/sequence.rs b/src/asn1_types/sequence.rs
index c18d522..ea2a602 100644
--- a/src/asn1_types/sequence.rs
+++ b/src/asn1_types/sequence.rs
@@ -190,6 +190,10 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.9.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -227,6 +231,10 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.9.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 47d445e..8956471 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -187,6 +187,10 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.11.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -224,6 +228,10 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        // Encoding shall be constructed (X.690: 8.11.1)
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
-- 
2.43.0

