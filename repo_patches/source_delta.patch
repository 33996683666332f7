From d3ac5d978927104074a9fff9fb55219fe6d77d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 01/18] fix: reject empty bit strings that claim unused bits

The size of such a bit string underflowed: iterating it (e.g. decoding a
key usage extension with contents 03 01 07) panicked.
---
 rx509/src/der/parser.rs | 5 +++++
 rx509/src/der/types.rs  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..9ec6a5a 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -155,6 +155,11 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
+    // an empty bit string doesn't have a last octet with unused bits
+    if unused_bits > 0 && contents.len() == 1 {
+        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
+    }
+
     Ok(BitString::asn(ASNBitString::new(
         unused_bits,
         &contents[1..],
diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..8104817 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -115,7 +115,7 @@ impl<'a> ASNBitString<'a> {
     }
 
     pub fn size(&self) -> usize {
-        self.bytes.len() * 8 - (self.unused_bits as usize)
+        (self.bytes.len() * 8).saturating_sub(self.unused_bits as usize)
     }
 
     pub fn iter(&'a self) -> ASNBitStringIterator<'a> {
-- 
2.43.0


From 60c9e2229c48d23a15919bd0861b978904e6e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 02/18] fix: map each key usage bit to its own flag

The bit offset never advanced, so every bit was written to
digital_signature and all other usages always read as false.
---
 rx509/src/x509/ext.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..c27172b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -171,8 +171,7 @@ impl KeyUsage {
             encipher_only: false,
             decipher_only: false,
         };
-        let mut offset = 0;
-        for bit in bit_string.iter() {
+        for (offset, bit) in bit_string.iter().enumerate() {
             match offset {
                 0 => key_usage.digital_signature = bit,
                 1 => key_usage.content_commitment = bit,
@@ -185,7 +184,6 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From e1fcc3f1d1166ee1949c04d28cff96953465dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 03/18] fix: convert four byte and negative integers to i32
 exactly

ASNInteger::as_i32 refused four byte integers and returned 255 for the
encoding of -1 (02 01 FF).
---
 rx509/src/der/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 8104817..e25200d 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1..=4;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,9 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // integers are two's complement, the top bit of the first byte is the sign
+        let is_negative = self.bytes[0] & 0x80 != 0;
+        let mut acc: i32 = if is_negative { -1 } else { 0 };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From 55a92a30d0cb8a3498a23bd61c3164be25e8a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 04/18] fix: reject octets after the Z of a time

---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 9ec6a5a..e4ebcd9 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From cd25afb8fc7da2f392a16bcec4183060c9eda71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 05/18] fix: report generalized times as GeneralizedTime

They were decoded as UTCTime, so ASNType::GeneralizedTime never occurred
and the walk reported (and the decoder printed) the wrong type.
---
 rx509/src/der/parser.rs |  5 ++++-
 rx509/src/x509/mod.rs   | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index e4ebcd9..5f8952f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -316,7 +316,10 @@ fn parse_content<'a>(type_id: &ASNTypeId, tag: u8, contents: &'a [u8]) -> ASNRes
         ASNTypeId::PrintableString => parse_string(contents, |s| PrintableString::asn(s)),
         ASNTypeId::IA5String => parse_string(contents, |s| IA5String::asn(s)),
         ASNTypeId::UTCTime => parse_utc_time(contents),
-        ASNTypeId::GeneralizedTime => parse_generalized_time(contents),
+        ASNTypeId::GeneralizedTime => match parse_generalized_time(contents)? {
+            ASNType::UTCTime(time) => Ok(ASNType::GeneralizedTime(time)),
+            other => Ok(other),
+        },
 
         ASNTypeId::Sequence => parse_seq(contents),
         ASNTypeId::Set => parse_set(contents),
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..eab2d47 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -166,11 +166,19 @@ impl Validity {
     }
 
     fn parse(input: &[u8]) -> Result<Validity, ASNErrorVariant> {
+        // each time is a CHOICE of the two time types
+        fn parse_time(parser: &mut Parser) -> Result<UtcTime, ASNErrorVariant> {
+            match parser.expect_any()? {
+                ASNType::UTCTime(time) | ASNType::GeneralizedTime(time) => Ok(time),
+                other => Err(ASNErrorVariant::UnexpectedType(
+                    ASNTypeId::UTCTime,
+                    other.get_id(),
+                )),
+            }
+        }
+
         Parser::parse_all(input, |parser| {
-            Ok(Validity::new(
-                parser.expect::<UtcTime>()?,
-                parser.expect::<UtcTime>()?,
-            ))
+            Ok(Validity::new(parse_time(parser)?, parse_time(parser)?))
         })
     }
 
-- 
2.43.0


From 303dba6ee62dcde58017e1005dce3f49d609c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 06/18] fix: don't mistake a truncated list element for the end
 of the list

An element cut short yields EndOfStream, which expect_or_end took for the
end: truncated extensions, alternative names, key purposes and name
attributes were silently dropped.
---
 rx509/src/der/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 5f8952f..87f42f7 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -440,11 +440,10 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+        Ok(Some(self.expect::<T>()?))
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 001fdb6ced34b50c623f15bb6046a4d384972a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 07/18] fix: reject trailing data in extension values

Key usage, subject key identifier and basic constraints ignored whatever
followed the last field they read, e.g. a CA flag encoded after the path
length.
---
 rx509/src/x509/ext.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index c27172b..8d8621e 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -344,6 +342,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
-- 
2.43.0


From 627d5461a4bcafda52c3b03275f41dbc612cde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 08/18] fix: reject trailing data in algorithm identifiers

---
 rx509/src/x509/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index eab2d47..9dda1e1 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -402,12 +402,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From d8d5c1004945e066b1b3377eaec85537389e6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 09/18] fix: reject trailing data inside the version tag

---
 rx509/src/der/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 87f42f7..011306c 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -362,7 +362,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
-- 
2.43.0


From 97eca628983e0d19d32eaa4b98cd676faab0e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 10/18] fix: decode object identifiers under arc 2 with large
 second arcs

The first octet was always taken as a whole subidentifier and split into
arcs 0 to 6: 2.40 read as 3.0 and 2.999 as 3.16.55.
---
 rx509/src/der/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 011306c..d2fd2ab 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -195,10 +195,13 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first subidentifier holds the first two arcs, where only
+    // the joint-iso-itu-t arc (2) allows a second arc greater than 39
+    let first = parse_one(&mut reader)?;
+    let first_arc = (first / 40).min(2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(first_arc);
+    items.push(first - first_arc * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From 6235ca21270f54bb4b6cc86a571d36f9e62585be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 11/18] fix: reject padded subidentifiers in object identifiers

DER only allows the shortest encoding; 06 04 2A 80 80 01 read as 1.2.1.
---
 rx509/src/der/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index d2fd2ab..a3cab90 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -177,6 +177,10 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
             };
 
             let next_byte = reader.read_byte()?;
+            // subidentifiers are encoded in the fewest possible octets
+            if count == 0 && next_byte == 0x80 {
+                return Err(ASNErrorVariant::BadOidLength);
+            }
             let has_next: bool = (next_byte & 0b1000_0000) != 0;
             let value: u32 = (next_byte & 0b0111_1111) as u32;
 
-- 
2.43.0


From 2ef6cd97e385f1f15fc304e999f13d69d28a812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 12/18] fix: walk nested elements without recursion

A few hundred kilobytes of nested sequences overflowed the stack and
aborted the process.
---
 rx509/src/der/parse_all.rs | 44 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..308be3a 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,33 +9,33 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // the parsers of the elements being walked, outermost first: nesting is
+    // controlled by the input and must not consume the call stack
+    let mut parsers = vec![Parser::new(input)];
+
+    while let Some(parser) = parsers.last_mut() {
+        match parser.next() {
+            None => {
+                parsers.pop();
+                if !parsers.is_empty() {
+                    handler.end_constructed();
+                }
+            }
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
-                }
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => wrapper.value,
+                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::Set(wrapper) => wrapper.value,
+                    _ => continue,
+                };
+                handler.begin_constructed();
+                parsers.push(Parser::new(contents));
             }
         }
     }
-- 
2.43.0


From 8f20216b5c287abb9aa27ccb200cbb79865c0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 13/18] fix: decode the implicitly tagged unique identifiers

RFC 5280 defines issuerUniqueID and subjectUniqueID as IMPLICIT: certificates
that carry them were rejected.
---
 rx509/src/x509/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 9dda1e1..c7ec0ee 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -467,8 +467,9 @@ impl<'a> TBSCertificate<'a> {
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
+                // the unique identifiers are implicitly tagged
                 Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
+                    Ok(Some(parser.parse_implicit::<BitString>()?))
                 }),
                 None => Ok(None),
             }
-- 
2.43.0


From 63e2b30de75551154a948469d15d34120c5a94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 14/18] fix: refuse multi-octet context-specific tags

The first octet of the tag number was taken for the length, and the
contents were read from the wrong place.
---
 rx509/src/der/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index a3cab90..28952a9 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -296,9 +296,10 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             _ => None,
         },
 
+        // 31 announces a tag number in further octets, which isn't supported
         Identifier {
             class: TagClass::ContextSpecific,
-            tag,
+            tag: tag @ 0..=30,
             ..
         } => Some((ASNTypeId::ExplicitTag, *tag)),
 
-- 
2.43.0


From f24cb7a01daf13240b2f24c1387e1ea55f6aa7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 15/18] fix: don't walk into primitive context-specific
 elements

Their contents are not elements: octets of implicitly tagged values, such
as the unique identifiers, were reported as children or as an error.
---
 rx509/src/der/parse_all.rs | 4 +++-
 rx509/src/der/parser.rs    | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index 308be3a..faa272d 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -14,6 +14,8 @@ pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASN
     let mut parsers = vec![Parser::new(input)];
 
     while let Some(parser) = parsers.last_mut() {
+        // the contents of a primitive (implicit) tag aren't elements
+        let is_constructed = parser.next_is_constructed();
         match parser.next() {
             None => {
                 parsers.pop();
@@ -30,7 +32,7 @@ pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASN
                 handler.on_type(&asn);
                 let contents = match asn {
                     ASNType::Sequence(wrapper) => wrapper.value,
-                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::ExplicitTag(wrapper) if is_constructed => wrapper.value.contents,
                     ASNType::Set(wrapper) => wrapper.value,
                     _ => continue,
                 };
diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 28952a9..3f66320 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -423,6 +423,13 @@ impl<'a> Parser<'a> {
         }
     }
 
+    pub(crate) fn next_is_constructed(&self) -> bool {
+        match self.reader.peek_byte() {
+            Ok(byte) => Identifier::from(byte).pc == PC::Constructed,
+            Err(_) => false,
+        }
+    }
+
     pub(crate) fn parse_implicit<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<T::Item, ASNErrorVariant> {
-- 
2.43.0


From 604f42d30dd3e2d951a31706c93304c0d03618c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 16/18] fix: indent IP addresses like the other alternative
 names

The line was begun twice, so the console printer indented it twice.
---
 rx509/src/x509/ext.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 8d8621e..b0ea079 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -260,7 +260,13 @@ impl<'a> Printable for GeneralName<'a> {
             GeneralName::UniformResourceIdentifier(value) => {
                 printer.println_fmt(&format_args!("Uniform Resource Identifier: {}", value))
             }
-            GeneralName::IpAddress(value) => print_type("IP Address", value, printer),
+            GeneralName::IpAddress(value) => {
+                // the caller has already begun the line
+                printer.println_str("IP Address:");
+                printer.begin_type();
+                value.print(printer);
+                printer.end_type();
+            }
             GeneralName::RegisteredId(value) => {
                 printer.println_fmt(&format_args!("Registered ID: {}", value))
             }
-- 
2.43.0


From 9533a53ff5db4b5ea037363758d52d4b0af0ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 17/18] fix: indent the message about undecodable extensions

---
 rx509/src/x509/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index c7ec0ee..c206d29 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -144,6 +144,7 @@ impl<'a> Printable for TBSCertificate<'a> {
                     }
                 }
                 Err(err) => {
+                    printer.begin_line();
                     printer.println_fmt(&format_args!("**Error** parsing extensions: {}", err));
                 }
             }
-- 
2.43.0


From f9a810cbd982a8021752a166409887126d9928e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 18/18] fix: don't panic on arguments that aren't UTF-8

Files with such names could not be decoded.
---
 decoder/src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..a41f210 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,18 +34,18 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
-        "--der" => parse_der(&get_bytes(&args[2])?),
-        "--certs" => parse_x509(&get_bytes(&args[2])?),
-        unknown => {
-            eprintln!("Unknown flag: {}", unknown);
+    match args[1].to_str() {
+        Some("--der") => parse_der(&get_bytes(&args[2])?),
+        Some("--certs") => parse_x509(&get_bytes(&args[2])?),
+        _ => {
+            eprintln!("Unknown flag: {}", args[1].to_string_lossy());
             process::exit(-1);
         }
     }
-- 
2.43.0

