From 847e13ea4017e8100925e7084495407ce4f31b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 01/18] fix: parse nested comments without recursion

A header with some thousands of `(` overflowed the stack and aborted the process.
---
 email-parser/src/parsing/whitespaces.rs | 27 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..4e1c4fe 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -44,14 +44,25 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
-
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
-
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+
+    // Nested comments are counted instead of being parsed recursively.
+    // This way, deeply nested comments cannot overflow the stack.
+    let mut depth: usize = 1;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
+        input = match new_input.get(0) {
+            Some(b'(') => {
+                depth += 1;
+                &new_input[1..]
+            }
+            Some(b')') => {
+                depth -= 1;
+                &new_input[1..]
+            }
+            _ => ccontent(new_input)?.0,
+        };
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From 3343633663752a1e996e41f9c3c97eca6a55b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 02/18] fix: do not panic on unassigned ISO-6937 bytes

The decoder of textcode indexes out of bounds on bytes 0x80..=0x9F.
---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 13 +++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..705ec8a 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,16 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// Bytes between 0x80 and 0x9F are not assigned in ISO-6937 and textcode panics when it encounters them.
+/// They are replaced by another unassigned byte, that textcode decodes to a replacement character.
+pub(crate) fn decode_iso6937(data: &[u8]) -> String {
+    let data: Vec<u8> = data
+        .iter()
+        .map(|byte| match byte {
+            0x80..=0x9F => 0xC0,
+            byte => *byte,
+        })
+        .collect();
+    textcode::iso6937::decode_to_string(&data)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..e135e22 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -87,7 +87,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From 659082776430a6b4ac9351009be275b78b5c2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 03/18] fix: build with mime but not content-disposition, and
 with sender but not from

---
 email-parser/src/email.rs               | 4 +++-
 email-parser/src/parsing/mime/entity.rs | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/email.rs b/email-parser/src/email.rs
index 164e667..f648754 100644
--- a/email-parser/src/email.rs
+++ b/email-parser/src/email.rs
@@ -308,7 +308,9 @@ impl<'a> Email<'a> {
         #[cfg(feature = "date")]
         let date = date.ok_or(Error::MissingHeader("Date"))?;
 
-        #[cfg(feature = "sender")]
+        #[cfg(all(feature = "sender", not(feature = "from")))]
+        let sender = sender.ok_or(Error::MissingHeader("Sender"))?; // cannot be inferred
+        #[cfg(all(feature = "sender", feature = "from"))]
         let sender = match sender {
             Some(sender) => sender,
             None => {
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index a2716af..528f4ee 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -13,7 +13,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         additional_headers,
         id,
         description,
-        disposition,
+        _disposition,
     ) = match input {
         Cow::Borrowed(ref mut input) => {
             let (len, r) = header_part(input)?;
@@ -34,7 +34,8 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
-        disposition,
+        #[cfg(feature = "content-disposition")]
+        disposition: _disposition,
         value,
         additional_headers,
     })
-- 
2.43.0


From 5d8bc19a9d447255cda5db944bcb39e454c5b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 04/18] fix: accept white space at the end of structured
 headers

`From: a@b.c \r\n` is valid (FWS may be plain WSP) but was not recognized.
---
 email-parser/src/parsing/whitespaces.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 4e1c4fe..cc92b8a 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -95,7 +95,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
             }
         }
 
-        let (input, fws) = optional(input, fws);
+        let (input, fws) = optional(input, |i| match_parsers(i, &mut [fws, trailing_wsp][..]));
         if let Some(s) = fws {
             add_string(&mut output, s);
         }
@@ -103,7 +103,13 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
         Ok((input, output))
     }
 
-    match_parsers(input, &mut [real_cfws, fws][..])
+    // White space at the end of a header is not followed by a folded line, so it is not recognized by `fws`.
+    fn trailing_wsp(input: &[u8]) -> Res<Cow<str>> {
+        let (input, wsp) = take_while1(input, is_wsp)?;
+        Ok((input, Cow::Borrowed(wsp)))
+    }
+
+    match_parsers(input, &mut [real_cfws, fws, trailing_wsp][..])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 38b5491cc953f2c09d9cb2aa1774913e1b00ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 05/18] fix: accept any CFWS at the end of MIME headers

Several comments made the header unrecognized and a folded comment made the whole message invalid.
---
 email-parser/src/parsing/mime/mime_fields.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..4ec9fa7 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -4,14 +4,9 @@ use std::borrow::Cow;
 use std::collections::HashMap;
 
 #[inline]
-fn ignore_inline_cfws(input: &[u8]) -> Res<()> {
-    triplet(
-        input,
-        |input| take_while(input, is_wsp),
-        |input| Ok(optional(input, comment)),
-        |input| take_while(input, is_wsp),
-    )
-    .map(|(i, _)| (i, ()))
+fn ignore_cfws(input: &[u8]) -> Res<()> {
+    let (input, _cfws) = optional(input, cfws);
+    Ok((input, ()))
 }
 
 #[inline]
@@ -54,7 +49,7 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     )?;
     let (input, d2) = u8_number(input)?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -234,7 +229,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
     let (input, parameters_vec) = many(input, parameter)?;
     let parameters = super::percent_encoding::collect_parameters(parameters_vec)?;
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, ()) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -348,7 +343,7 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
     }
     disposition.unstructured = super::percent_encoding::collect_parameters(parameters_vec)?;
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, ()) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -399,7 +394,7 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         ][..],
     )?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(input, b"\r\n", "TAG ERROR: A header (`Content-Transfer-Encoding` in this case) must end with a CRLF sequence.")?;
 
     Ok((input, encoding))
-- 
2.43.0


From aa34c5177a2fac57c7ead2d697567886f36df0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 06/18] fix: accept years from 1900 and reject day 0, as RFC
 5322 requires

---
 email-parser/src/parsing/time.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..90a4743 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must be 1900 or later"));
     }
 
     let (input, _) = fws(input)?;
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day < 1 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From 34807629a3e1b732d7f4d6445a2e1cb9c1152691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 07/18] fix: recognize an empty Bcc header

RFC 5322: bcc = "Bcc:" [address-list / CFWS] CRLF
---
 email-parser/src/parsing/fields.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..d1caaff 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,9 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        let (input, _cfws) = optional(input, cfws);
+        (input, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From f2e64ac5792ea6e785214198cee51d5e9e9372ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 08/18] fix: recognize bare addresses in Received headers

The local part was always taken as a word, so `for user@example.com;` made the header unrecognized.
---
 email-parser/src/parsing/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index d1caaff..52f57f5 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -541,7 +541,9 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
         "TAG NO CASE ERROR: Header name (Received) does not match.",
     )?;
     let (input, received_tokens) = many(input, |input| {
-        if let Ok((word_input, word)) = word(input) {
+        if let Ok((input, addr)) = addr_spec(input) {
+            Ok((input, ReceivedToken::Addr(addr)))
+        } else if let Ok((word_input, word)) = word(input) {
             if let Ok((domain_input, domain)) = domain(input) {
                 if domain.len() > word.len() {
                     return Ok((domain_input, ReceivedToken::Domain(domain)));
@@ -550,8 +552,6 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Ok((word_input, ReceivedToken::Word(word)))
         } else if let Ok((input, addr)) = angle_addr(input) {
             Ok((input, ReceivedToken::Addr(addr)))
-        } else if let Ok((input, addr)) = addr_spec(input) {
-            Ok((input, ReceivedToken::Addr(addr)))
         } else if let Ok((input, domain)) = domain(input) {
             Ok((input, ReceivedToken::Domain(domain)))
         } else {
-- 
2.43.0


From ac171e80ae06eeffe9ec74493d178683bcfbeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 09/18] fix: skip CFWS around encoded words in phrases

An encoded word following a comment was not decoded, and one followed by white space and a `,` or `:` made the header unrecognized.
---
 email-parser/src/parsing/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index cc2544b..b971f29 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -82,8 +82,10 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             input,
             &mut [
                 (|i| {
-                    let (i, _) = optional(i, fws);
-                    crate::parsing::mime::encoded_headers::encoded_word(i)
+                    let (i, _) = optional(i, cfws);
+                    let (i, word) = crate::parsing::mime::encoded_headers::encoded_word(i)?;
+                    let (i, _) = optional(i, cfws);
+                    Ok((i, word))
                 }),
                 (|i| crate::parsing::common::word(i)),
             ][..],
-- 
2.43.0


From 471f3deccd61e2160c96241171228dae4997a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 10/18] fix: allow a multipart entity to end right after its
 closing boundary

---
 email-parser/src/parsing/mime/multipart.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..e12e1bc 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -49,9 +49,15 @@ fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize,
         // FIXME: ignore whitespaces after the boundary
         if input.get(idx..idx + 4) == Some(b"\r\n--")
             && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"--\r\n")
         {
-            return Ok((idx, full_boundary_len));
+            match input.get(idx + 4 + boundary.len()..) {
+                Some(after) if after.starts_with(b"--\r\n") => {
+                    return Ok((idx, full_boundary_len));
+                }
+                // The line break is optional when there is no epilogue
+                Some(b"--") => return Ok((idx, full_boundary_len - 2)),
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0


From 24b90782883dd5dbbd5e8f3bbabc9312e320e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 11/18] fix: compare whole tokens in Content-Type,
 Content-Disposition and Content-Transfer-Encoding

A value beginning like a known one (`textual/plain`, `inlined`, `base64url`) made the header unrecognized;
a body with an unknown transfer encoding was then returned undecoded instead of causing an error.
---
 email-parser/src/parsing/mime/mime_fields.rs | 151 ++++---------------
 1 file changed, 31 insertions(+), 120 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 4ec9fa7..d0255a1 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -148,76 +148,19 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
     )?;
     let (input, _) = optional(input, cfws);
 
-    let (input, mime_type) = match_parsers(
-        input,
-        &mut [
-            |input| {
-                tag_no_case(
-                    input,
-                    b"text",
-                    b"TEXT",
-                    "TAG NO CASE ERROR: In a content type header, `text` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Text))
-            },
-            |input| {
-                tag_no_case(
-                    input,
-                    b"multipart",
-                    b"MULTIPART",
-                    "TAG NO CASE ERROR: In a content type header, `multipart` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Multipart))
-            },
-            |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
-                    .map(|(i, ())| (i, ContentType::Application))
-            },
-            |input| {
-                tag_no_case(
-                    input,
-                    b"image",
-                    b"IMAGE",
-                    "TAG NO CASE ERROR: In a content type header, `image` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Image))
-            },
-            |input| {
-                tag_no_case(
-                    input,
-                    b"video",
-                    b"VIDEO",
-                    "TAG NO CASE ERROR: In a content type header, `video` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Video))
-            },
-            |input| {
-                tag_no_case(
-                    input,
-                    b"audio",
-                    b"AUDIO",
-                    "TAG NO CASE ERROR: In a content type header, `audio` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Audio))
-            },
-            |input| {
-                tag_no_case(
-                    input,
-                    b"message",
-                    b"MESSAGE",
-                    "TAG NO CASE ERROR: In a content type header, `message` type does not match.",
-                )
-                .map(|(i, ())| (i, ContentType::Message))
-            },
-            |input| {
-                // TODO ietf token
-                let (input, name) = token(input)?;
-                let name = lowercase(Cow::Borrowed(name));
-
-                Ok((input, ContentType::Unknown(name)))
-            },
-        ][..],
-    )?;
+    // TODO ietf token
+    let (input, name) = token(input)?;
+    let name = lowercase(Cow::Borrowed(name));
+    let mime_type = match name.as_ref() {
+        "text" => ContentType::Text,
+        "multipart" => ContentType::Multipart,
+        "application" => ContentType::Application,
+        "image" => ContentType::Image,
+        "video" => ContentType::Video,
+        "audio" => ContentType::Audio,
+        "message" => ContentType::Message,
+        _ => ContentType::Unknown(name),
+    };
     let (input, ()) = tag(
         input,
         b"/",
@@ -250,25 +193,14 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
     )?;
     let (input, _) = optional(input, cfws);
 
-    let (mut input, disposition_type) = match_parsers(
-        input,
-        &mut [
-            |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
-            },
-            |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
-                    .map(|(i, ())| (i, DispositionType::Attachment))
-            },
-            |input| {
-                // TODO ietf token
-                let (input, name) = token(input)?;
-                let name = lowercase(Cow::Borrowed(name));
-
-                Ok((input, DispositionType::Unknown(name)))
-            },
-        ][..],
-    )?;
+    // TODO ietf token
+    let (mut input, name) = token(input)?;
+    let name = lowercase(Cow::Borrowed(name));
+    let disposition_type = match name.as_ref() {
+        "inline" => DispositionType::Inline,
+        "attachment" => DispositionType::Attachment,
+        _ => DispositionType::Unknown(name),
+    };
 
     let mut disposition = Disposition {
         disposition_type,
@@ -362,37 +294,16 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
     )?;
     let (input, _) = optional(input, cfws);
 
-    let (input, encoding) = match_parsers(
-        input,
-        &mut [
-            |input| {
-                tag_no_case(input, b"7bit", b"7BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `7bit` encoding does not match.")
-                    .map(|(i, ())| (i, ContentTransferEncoding::SevenBit))
-            },
-            |input| {
-                tag_no_case(input, b"quoted-printable", b"QUOTED-PRINTABLE", "TAG NO CASE ERROR: In a content transfer encoding header, `quoted-printable` encoding does not match.")
-                    .map(|(i, ())| (i, ContentTransferEncoding::QuotedPrintable))
-            },
-            |input| {
-                tag_no_case(input, b"base64", b"BASE64", "TAG NO CASE ERROR: In a content transfer encoding header, `base64` encoding does not match.")
-                    .map(|(i, ())| (i, ContentTransferEncoding::Base64))
-            },
-            |input| {
-                tag_no_case(input, b"8bit", b"8BIT", "TAG NO CASE ERROR: In a content transfer encoding header, `8bit` encoding does not match.")
-                    .map(|(i, ())| (i, ContentTransferEncoding::HeightBit))
-            },
-            |input| {
-                tag_no_case(input, b"binary", b"BINARY", "TAG NO CASE ERROR: In a content transfer encoding header, `binary` encoding does not match.")
-                    .map(|(i, ())| (i, ContentTransferEncoding::Binary))
-            },
-            |input| {
-                let (input, encoding) = token(input)?;
-                let encoding = lowercase(Cow::Borrowed(encoding));
-
-                Ok((input, ContentTransferEncoding::Unknown(encoding)))
-            },
-        ][..],
-    )?;
+    let (input, name) = token(input)?;
+    let name = lowercase(Cow::Borrowed(name));
+    let encoding = match name.as_ref() {
+        "7bit" => ContentTransferEncoding::SevenBit,
+        "quoted-printable" => ContentTransferEncoding::QuotedPrintable,
+        "base64" => ContentTransferEncoding::Base64,
+        "8bit" => ContentTransferEncoding::HeightBit,
+        "binary" => ContentTransferEncoding::Binary,
+        _ => ContentTransferEncoding::Unknown(name),
+    };
 
     let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(input, b"\r\n", "TAG ERROR: A header (`Content-Transfer-Encoding` in this case) must end with a CRLF sequence.")?;
-- 
2.43.0


From 9fcac94cc0d9da2b9ebf5535aef9bc835df3f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 12/18] fix: do not overflow on a parameter split into 256
 segments

---
 email-parser/src/parsing/mime/percent_encoding.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index e135e22..937b16b 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -162,8 +162,11 @@ pub fn collect_parameters<'a>(
                 (value, None, None)
             };
 
-            let mut idx = 1;
-            while let Some((encoded, new_value)) = values.remove(&idx) {
+            for idx in 1..=u8::MAX {
+                let (encoded, new_value) = match values.remove(&idx) {
+                    Some(segment) => segment,
+                    None => break,
+                };
                 if encoded && charset.is_some() {
                     add_string(
                         &mut value,
@@ -175,7 +178,6 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From bb74e2e0daeb171a93f73c083da9968ceac68880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 13/18] fix: decode the charset of a segmented parameter once
 all its segments are joined

A multibyte character split across two segments made the header unrecognized, and a `%` before an escape was decoded twice.
---
 .../src/parsing/mime/percent_encoding.rs      | 170 +++++++++---------
 1 file changed, 80 insertions(+), 90 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 937b16b..865c9fc 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -1,8 +1,8 @@
 use crate::prelude::*;
 use std::{borrow::Cow, collections::HashMap};
 
-pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
-    if ![
+fn is_supported(charset: &str) -> bool {
+    [
         "utf-8",
         "us-ascii",
         "iso-8859-1",
@@ -23,8 +23,11 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-6937",
         "gb2312",
     ]
-    .contains(&charset.as_ref())
-    {
+    .contains(&charset)
+}
+
+pub fn decode_parameter(input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
+    if !is_supported(&charset) {
         // JUSTIFICATION
         //  Benefit
         //      Gain performances by avoiding the utf8 string check.
@@ -33,40 +36,40 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
-            percents.push(idx);
-        }
-    }
+    decode_charset(percent_decode(&input), charset)
+}
 
-    for percent in percents.iter().rev() {
-        fn from_hex(n: &u8) -> Option<u8> {
-            match n {
-                b'0'..=b'9' => Some(n - b'0'),
-                b'A'..=b'F' => Some(10 + n - b'A'),
-                b'a'..=b'f' => Some(10 + n - b'a'),
-                _ => None,
-            }
+fn percent_decode(input: &[u8]) -> Vec<u8> {
+    fn from_hex(n: &u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
         }
+    }
 
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
-            if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
-                }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
+    let mut output = Vec::with_capacity(input.len());
+    let mut idx = 0;
+    while let Some(byte) = input.get(idx) {
+        if *byte == b'%' {
+            if let (Some(first), Some(second)) = (
+                input.get(idx + 1).and_then(from_hex),
+                input.get(idx + 2).and_then(from_hex),
+            ) {
+                output.push(first * 16 + second);
+                idx += 3;
+                continue;
             }
         }
+        output.push(*byte);
+        idx += 1;
     }
 
+    output
+}
+
+fn decode_charset(input: Vec<u8>, charset: Cow<str>) -> Result<String, Error> {
     use textcode::*;
     let text = match charset.as_ref() {
         "utf-8" | "us-ascii" => {
@@ -95,6 +98,24 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
     Ok(text)
 }
 
+/// Splits an extended value (`charset'language'value`) into its charset and its value.
+fn split_extended_value(value: &str) -> Result<(Cow<str>, &[u8]), Error> {
+    let (value, charset) = take_while(value.as_bytes(), |c| c != b'\'')?;
+    let charset = lowercase(Cow::Borrowed(charset));
+    let (value, _) = tag(
+        value,
+        b"'",
+        "TAG ERROR: In a parameter list, a charset must be followed by a `'`.",
+    )?;
+    let (value, _language) = take_while(value, |c| c != b'\'')?;
+    let (value, _) = tag(
+        value,
+        b"'",
+        "TAG ERROR: In a parameter list, a language must be followed by a `'`.",
+    )?;
+    Ok((charset, value))
+}
+
 pub fn collect_parameters<'a>(
     parameters_vec: Vec<(Cow<'a, str>, Option<u8>, bool, Cow<'a, str>)>,
 ) -> Result<HashMap<Cow<'a, str>, Cow<'a, str>>, Error> {
@@ -115,70 +136,39 @@ pub fn collect_parameters<'a>(
     }
     for (name, values) in complex_parameters.iter_mut() {
         if let Some((encoded, value)) = values.remove(&0) {
-            let (mut value, charset, _language) = if encoded {
-                match value {
-                    Cow::Borrowed(value) => {
-                        let (value, charset) = take_while(value.as_bytes(), |c| c != b'\'')?;
-                        let charset = lowercase(Cow::Borrowed(charset));
-                        let (value, _) = tag(
-                            value,
-                            b"'",
-                            "TAG ERROR: In a parameter list, a charset must be followed by a `'`.",
-                        )?;
-                        let (value, language) = take_while(value, |c| c != b'\'')?;
-                        let (value, _) = tag(
-                            value,
-                            b"'",
-                            "TAG ERROR: In a parameter list, a language must be followed by a `'`.",
-                        )?;
-                        (
-                            Cow::Owned(decode_parameter(value.to_vec(), charset.clone())?),
-                            Some(charset),
-                            Some(Cow::Borrowed(language)),
-                        )
+            let value = if encoded {
+                let (charset, value) = split_extended_value(&value)?;
+                if is_supported(&charset) {
+                    // A character can be split across several segments so decoding the charset is the last step.
+                    let mut bytes = percent_decode(value);
+                    for idx in 1..=u8::MAX {
+                        match values.remove(&idx) {
+                            Some((true, value)) => bytes.append(&mut percent_decode(value.as_bytes())),
+                            Some((false, value)) => bytes.extend_from_slice(value.as_bytes()),
+                            None => break,
+                        }
                     }
-                    Cow::Owned(value) => {
-                        let (value, charset) = take_while(value.as_bytes(), |c| c != b'\'')?;
-                        let charset = lowercase(Cow::Borrowed(charset));
-                        let (value, _) = tag(
-                            value,
-                            b"'",
-                            "TAG ERROR: In a parameter list, a charset must be followed by a `'`.",
-                        )?;
-                        let (value, language) = take_while(value, |c| c != b'\'')?;
-                        let (value, _) = tag(
-                            value,
-                            b"'",
-                            "TAG ERROR: In a parameter list, a language must be followed by a `'`.",
-                        )?;
-                        (
-                            Cow::Owned(decode_parameter(value.to_vec(), charset.clone())?),
-                            Some(Cow::Owned(charset.into_owned())),
-                            Some(Cow::Owned(language.to_owned())),
-                        )
+                    Cow::Owned(decode_charset(bytes, charset)?)
+                } else {
+                    let mut value = String::from_utf8_lossy(value).into_owned();
+                    for idx in 1..=u8::MAX {
+                        match values.remove(&idx) {
+                            Some((_encoded, new_value)) => value.push_str(&new_value),
+                            None => break,
+                        }
                     }
+                    Cow::Owned(value)
                 }
             } else {
-                (value, None, None)
-            };
-
-            for idx in 1..=u8::MAX {
-                let (encoded, new_value) = match values.remove(&idx) {
-                    Some(segment) => segment,
-                    None => break,
-                };
-                if encoded && charset.is_some() {
-                    add_string(
-                        &mut value,
-                        Cow::Owned(decode_parameter(
-                            new_value.into_owned().into_bytes(),
-                            charset.clone().unwrap(),
-                        )?),
-                    );
-                } else {
-                    add_string(&mut value, new_value);
+                let mut value = value;
+                for idx in 1..=u8::MAX {
+                    match values.remove(&idx) {
+                        Some((_encoded, new_value)) => add_string(&mut value, new_value),
+                        None => break,
+                    }
                 }
-            }
+                value
+            };
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
         }
-- 
2.43.0


From 493a1b43ff088ed63fcb1b275829e0d065df8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 14/18] fix: decode unsegmented extended parameters

`filename*=utf-8''%e2%82%ac` was returned undecoded, and extended file names were not reported as file names.
---
 email-parser/src/parsing/mime/mime_fields.rs      | 4 ++++
 email-parser/src/parsing/mime/percent_encoding.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index d0255a1..a55cf85 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -274,6 +274,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         }
     }
     disposition.unstructured = super::percent_encoding::collect_parameters(parameters_vec)?;
+    if disposition.filename.is_none() {
+        // `filename*=` or `filename*0=`
+        disposition.filename = disposition.unstructured.remove("filename");
+    }
 
     let (input, ()) = ignore_cfws(input)?;
     let (input, ()) = tag(
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 865c9fc..3f3f0b7 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -130,6 +130,10 @@ pub fn collect_parameters<'a>(
                 .get_mut(&name)
                 .unwrap()
                 .insert(index, (encoded, value));
+        } else if encoded {
+            let decoded = split_extended_value(&value)
+                .and_then(|(charset, value)| decode_parameter(value.to_vec(), charset));
+            parameters.insert(name, decoded.map(Cow::Owned).unwrap_or(value));
         } else {
             parameters.insert(name, value);
         }
-- 
2.43.0


From 84245420bbf21a8ac27010a4be550d0d43ddc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 15/18] verification hook: private codecs and trace types
 behind --cfg email_parser_verif

---
 email-parser/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/email-parser/src/lib.rs b/email-parser/src/lib.rs
index e5ef2d0..abdd723 100644
--- a/email-parser/src/lib.rs
+++ b/email-parser/src/lib.rs
@@ -65,3 +65,17 @@ pub mod time;
 
 pub use crate::parsing::fields::Field;
 pub use crate::parsing::message::parse_message;
+
+/// Access to private items for external verification. Only compiled with `--cfg email_parser_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(email_parser_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[cfg(feature = "mime")]
+    pub use crate::parsing::mime::{
+        base64::{decode_base64, encode_base64},
+        entity::raw_entity,
+        quoted_printables::{decode_qp, encode_qp},
+    };
+    pub use crate::parsing::fields::{ReceivedToken, TraceField};
+}
-- 
2.43.0


From 79924b1ec6e88090372c3b597eb635b10b60970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 16/18] fix: allow comments around the dot of MIME-Version

RFC 2045 section 4: "MIME-Version: 1.(produced by MetaSend Vx.x)0" is
equivalent to "MIME-Version: 1.0".
---
 email-parser/src/parsing/mime/mime_fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index a55cf85..36cca81 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -42,11 +42,13 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     }
 
     let (input, d1) = u8_number(input)?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, ()) = tag(
         input,
         b".",
         "TAG ERROR: A MIME version's major version number must be followed by a `.`.",
     )?;
+    let (input, _cwfs) = ignore_cfws(input)?;
     let (input, d2) = u8_number(input)?;
 
     let (input, _cwfs) = ignore_cfws(input)?;
-- 
2.43.0


From ade16c9b3c964abc5a9c98410cae64bee5ac6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 17/18] fix: do not look for parts in the epilogue of a
 multipart

---
 email-parser/src/parsing/mime/multipart.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index e12e1bc..cc4c604 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -87,7 +87,16 @@ pub fn parse_multipart<'a>(
     let boundary = parameters
         .get("boundary")
         .ok_or(Error::Unknown("Missing boundary parameter"))?;
-    let (input, mut parts) = many(&input, |i| before_boundary(i, boundary.as_bytes()))?;
+    let mut prelude = true;
+    let (input, mut parts) = many(&input, |i| {
+        let (rest, part) = before_boundary(i, boundary.as_bytes())?;
+        // Whatever follows the closing boundary belongs to the epilogue
+        if !prelude && before_closing_boundary_idx(part, boundary.as_bytes()).is_ok() {
+            return Err(Error::Unknown("boundary in the epilogue"));
+        }
+        prelude = false;
+        Ok((rest, part))
+    })?;
     let (_epilogue, last_part) = before_closing_boundary(input, boundary.as_bytes())?;
     parts.push(last_part);
     parts.remove(0); // the prelude
-- 
2.43.0


From 8229579c390cb89b944914bf8c8ddd6eab55f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 18/18] fix: decode quoted-printable in linear time

Every escape moved the rest of the data twice, so that a body of a few
megabytes of escapes took minutes to decode.
---
 .../src/parsing/mime/quoted_printables.rs     | 117 +++++++-----------
 1 file changed, 46 insertions(+), 71 deletions(-)

diff --git a/email-parser/src/parsing/mime/quoted_printables.rs b/email-parser/src/parsing/mime/quoted_printables.rs
index 6511252..8ce9aad 100644
--- a/email-parser/src/parsing/mime/quoted_printables.rs
+++ b/email-parser/src/parsing/mime/quoted_printables.rs
@@ -58,99 +58,74 @@ pub fn encode_qp(mut data: Vec<u8>) -> Vec<u8> {
     data
 }
 
-pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
-    while let Some(byte) = data.get(idx) {
-        if litteral_repr_possible(byte) || byte == &b' ' || byte == &b'\t' {
+    while let Some(byte) = data.get(idx).copied() {
+        if litteral_repr_possible(&byte) || byte == b' ' || byte == b'\t' {
+            decoded.push(byte);
             idx += 1;
-        } else if byte == &b'=' {
-            if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
-            } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
-
-                fn from_hex(n: u8) -> Option<u8> {
-                    match n {
-                        b'0'..=b'9' => Some(n - b'0'),
-                        b'A'..=b'F' => Some(10 + n - b'A'),
-                        b'a'..=b'f' => Some(10 + n - b'a'),
-                        _ => None,
-                    }
-                }
-
-                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
-                } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
-                }
-            } else {
-                idx += 1;
-            }
-        } else if byte == &b'\r' && data.get(idx + 1) == Some(&b'\n') {
+        } else if byte == b'=' {
+            idx += decode_escape(&data[idx..], &mut decoded);
+        } else if byte == b'\r' && data.get(idx + 1) == Some(&b'\n') {
+            decoded.extend_from_slice(b"\r\n");
             idx += 2;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice("\u{FFFD}".as_bytes());
+            idx += 1;
         }
     }
 
-    data
+    decoded
 }
 
-pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_header_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut decoded = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx).copied() {
         if byte == b'_' {
-            data[idx] = 0x20;
+            decoded.push(0x20);
             idx += 1;
         } else if byte == b'=' {
-            if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
-            } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
-
-                fn from_hex(n: u8) -> Option<u8> {
-                    match n {
-                        b'0'..=b'9' => Some(n - b'0'),
-                        b'A'..=b'F' => Some(10 + n - b'A'),
-                        b'a'..=b'f' => Some(10 + n - b'a'),
-                        _ => None,
-                    }
-                }
-
-                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
-                } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
-                }
-            } else {
-                idx += 1;
-            }
+            idx += decode_escape(&data[idx..], &mut decoded);
         } else if byte >= 0x20 && byte <= 0x7E {
+            decoded.push(byte);
             idx += 1;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            decoded.extend_from_slice("\u{FFFD}".as_bytes());
+            idx += 1;
         }
     }
 
-    data
+    decoded
+}
+
+// Decodes what follows an equal sign and returns the number of bytes read
+fn decode_escape(data: &[u8], decoded: &mut Vec<u8>) -> usize {
+    fn from_hex(n: u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
+        }
+    }
+
+    if data.get(1) == Some(&b'\r') && data.get(2) == Some(&b'\n') {
+        3
+    } else if data.len() > 2 {
+        if let (Some(first), Some(second)) = (from_hex(data[1]), from_hex(data[2])) {
+            decoded.push(first * 16 + second);
+        } else {
+            decoded.extend_from_slice("\u{FFFD}".as_bytes());
+        }
+        3
+    } else {
+        decoded.push(data[0]);
+        1
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

