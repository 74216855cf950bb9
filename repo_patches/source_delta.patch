From 0995ab3c8920b6716d6767f059c9e5c64db2d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 01/34] fix: bound buffered body reads by the declared length

AsyncBufRead for Body ignored the declared length and consume() did not
count towards it, so buffered readers saw bytes past the end of the body
and chain() computed a wrong length after buffered reads.
---
 src/body.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..10b651e 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,11 +604,22 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let remaining = match *this.length {
+            None => u64::MAX,
+            Some(length) if length == *this.bytes_read => return Poll::Ready(Ok(&[])),
+            Some(length) => length - *this.bytes_read,
+        };
+
+        // Never expose more bytes than the declared length allows.
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        let max_len = remaining.min(buf.len() as u64) as usize;
+        Poll::Ready(Ok(&buf[..max_len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
-        Pin::new(&mut self.reader).consume(amt)
+        Pin::new(&mut self.reader).consume(amt);
+        self.bytes_read += amt as u64;
     }
 }
 
-- 
2.43.0


From 07af1eb8b494536993c1febc467a00b1e77c4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 02/34] fix: do not pre-allocate a text body's declared length

Body::into_string reserved the declared length up front, so a body with a
huge declared length panicked (capacity overflow) or aborted.
---
 src/body.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index 10b651e..04d02f9 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,8 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length may be arbitrarily large: only use it as a hint for the initial allocation.
+        let mut result = String::with_capacity(len.min(64 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From c206e60c35250556e3337f4dab55250af054b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 03/34] fix: inserting an empty list of values leaves no header
 behind

---
 src/headers/headers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..75f0314 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -52,6 +52,10 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        if values.inner.is_empty() {
+            // `HeaderValues` always contains at least one value, so no values means no header.
+            return Ok(self.headers.remove(&name));
+        }
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From a4cf701d21ea449bef1cecb27f2ab18704957ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 04/34] fix: size hint of the header values iterator

---
 src/headers/values.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..e25f8e8 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,14 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
+        // The values left in the current slot, and at least none in each slot after it.
+        let current = match self.slot {
+            Some(values) => values.inner.len().saturating_sub(self.cursor),
+            None => 0,
+        };
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+            Some(inner) if inner.len() > 0 => (current, None),
+            _ => (current, Some(current)),
         }
     }
 }
-- 
2.43.0


From 35f1813c641031dfd4408ca64177df52b89fc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 05/34] fix: reject out-of-range integers when deserializing a
 status code

---
 src/status_code.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..538bc7d 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -561,21 +561,25 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v.into())
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v.into())
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
@@ -596,14 +600,18 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_u64(v.into())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From e2d0f206bfa587f2ab51a1fe24ce7fb261b6770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 06/34] fix: let format_err! take an expression outside this
 crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0


From b08e1992b826932c448323a5a08219d30c736282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 07/34] fix: keep parameter order and the first charset when
 parsing a media type

---
 src/mime/mod.rs   | 12 ++++++++----
 src/mime/parse.rs |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..7d7d0c3 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -120,10 +120,14 @@ impl Mime {
             self.is_utf8 = false;
             return Some(ParamValue(Cow::Borrowed("utf-8")));
         }
-        self.params
-            .iter()
-            .position(|(k, _)| k == &name)
-            .map(|pos| self.params.remove(pos).1)
+        let pos = self.params.iter().position(|(k, _)| k == &name)?;
+        let value = self.params.remove(pos).1;
+        // A leading `charset=utf-8` is stored as a flag.
+        if matches!(self.params.first(), Some((k, v)) if k.0 == "charset" && v.0 == "utf-8") {
+            self.params.remove(0);
+            self.is_utf8 = true;
+        }
+        Some(value)
     }
 
     /// Check if this mime is a subtype of another mime.
diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..4ef453a 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,10 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if is_utf8 && parameter_name == "charset" {
+            // The first of several equally named parameters wins.
+            continue;
+        } else if parameter_name == "charset" && parameter_value == "utf-8" && params.is_empty() {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From d94a28b98c124b8370eb1a32ca659dd3d81b9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 08/34] fix: a utf-8 charset takes part in media type range
 matching

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index 7d7d0c3..85f6681 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -157,6 +157,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && self.param("charset") != other.param("charset") {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From a799de32ba3a5eeed3709067c2f5770bfd63b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 09/34] fix: do not parse an unterminated quoted MIME parameter
 value twice

---
 src/mime/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index 4ef453a..9f576f4 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -201,6 +201,7 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
             }
         } else {
             // 2
+            input = new_input;
             break;
         }
     }
-- 
2.43.0


From d6772fd50dcba3203d9a8a6d0b1b871123ad34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 10/34] fix: negotiation ignores proposals of weight zero and
 is repeatable

---
 src/content/accept.rs          | 17 +++++++++++++----
 src/content/accept_encoding.rs | 19 ++++++++++++++-----
 src/transfer/te.rs             | 19 ++++++++++++++-----
 3 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..dcdbaea 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -124,11 +124,17 @@ impl Accept {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Mime]) -> crate::Result<ContentType> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the proposals, leaving the declared order intact so that
+        // ties are resolved the same way each time.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // A weight of zero means "not acceptable".
+        let (refused, entries): (Vec<_>, Vec<_>) =
+            entries.into_iter().partition(|e| e.weight() == Some(0.0));
 
         // Try and find the first encoding that matches.
-        for accept in &self.entries {
+        for accept in &entries {
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
@@ -136,7 +142,10 @@ impl Accept {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            if let Some(accept) = available
+                .iter()
+                .find(|m| !refused.iter().any(|e| m.subset_eq(e.media_type())))
+            {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..daa181e 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -116,19 +116,28 @@ impl AcceptEncoding {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<ContentEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the proposals, leaving the declared order intact so that
+        // ties are resolved the same way each time.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // A weight of zero means "not acceptable".
+        let refused = |encoding: &Encoding| {
+            self.entries
+                .iter()
+                .any(|e| e == *encoding && e.weight() == Some(0.0))
+        };
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
-            if available.contains(encoding) {
+        for encoding in &entries {
+            if available.contains(encoding) && !refused(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..2ba6f99 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -114,19 +114,28 @@ impl TE {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<TransferEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the proposals, leaving the declared order intact so that
+        // ties are resolved the same way each time.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // A weight of zero means "not acceptable".
+        let refused = |encoding: &Encoding| {
+            self.entries
+                .iter()
+                .any(|e| e == *encoding && e.weight() == Some(0.0))
+        };
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
-            if available.contains(encoding) {
+        for encoding in &entries {
+            if available.contains(encoding) && !refused(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From 625007692b897ba5a9576fbd2acc1dc2e4e787ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 11/34] fix: allow white space before an encoding's weight

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..cdb79de 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,7 +11,7 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
+    let mut parts = s.trim().split('=');
     if !matches!(parts.next(), Some("q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
-- 
2.43.0


From 2ec2d6284e37833576a7640427d7b1ed6c3addc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 12/34] fix: malformed Accept, Accept-Encoding and TE elements
 are client errors

---
 src/content/encoding_proposal.rs   |  4 +++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  4 +++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..a1c89c2 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::{Status, StatusCode};
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,8 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        let proposal = Self::new(encoding, weight).status(StatusCode::BadRequest)?;
+        Ok(Some(proposal))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..32f3697 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::{Status, StatusCode};
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(StatusCode::BadRequest)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(StatusCode::BadRequest)?;
+        Self::new(media_type, weight).status(StatusCode::BadRequest)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..ffca3c6 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::{Status, StatusCode};
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,8 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        let proposal = Self::new(encoding, weight).status(StatusCode::BadRequest)?;
+        Ok(Some(proposal))
     }
 }
 
-- 
2.43.0


From 7d41dd7a6d4f164f43ecec2f6bc5d8c2dbddd377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 13/34] fix: HTTP dates that do not exist are errors, not other
 dates

---
 src/utils/date.rs | 50 +++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..1e0f034 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -59,16 +59,23 @@ impl HttpDate {
             && self.minute < 60
             && self.hour < 24
             && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
             && self.year >= 1970
             && self.year <= 9999
+            && self.day <= days_in_month(self.year, self.month)
             && self.week_day >= 1
             && self.week_day < 8
     }
 }
 
+/// Parse a field of at most four decimal digits.
+fn parse_digits(s: &[u8]) -> crate::Result<u16> {
+    // `u16::from_str` also accepts a leading `+`.
+    ensure!(s.iter().all(u8::is_ascii_digit), "Invalid number");
+    Ok(from_utf8(s)?.parse()?)
+}
+
 fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
     // Example: `Sun, 06 Nov 1994 08:49:37 GMT`
     if s.len() != IMF_FIXDATE_LENGTH
@@ -80,10 +87,10 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in imf fixdate format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[23..25])?.parse()?,
-        minute: from_utf8(&s[20..22])?.parse()?,
-        hour: from_utf8(&s[17..19])?.parse()?,
-        day: from_utf8(&s[5..7])?.parse()?,
+        second: parse_digits(&s[23..25])? as u8,
+        minute: parse_digits(&s[20..22])? as u8,
+        hour: parse_digits(&s[17..19])? as u8,
+        day: parse_digits(&s[5..7])? as u8,
         month: match &s[7..12] {
             b" Jan " => 1,
             b" Feb " => 2,
@@ -99,7 +106,7 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
             b" Dec " => 12,
             _ => bail!("Invalid Month"),
         },
-        year: from_utf8(&s[12..16])?.parse()?,
+        year: parse_digits(&s[12..16])?,
         week_day: match &s[..5] {
             b"Mon, " => 1,
             b"Tue, " => 2,
@@ -134,20 +141,20 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
-    let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
+    let mut year = parse_digits(&s[7..9])?;
     if year < 70 {
         year += 2000;
     } else {
         year += 1900;
     }
     Ok(HttpDate {
-        second: from_utf8(&s[16..18])?.parse()?,
-        minute: from_utf8(&s[13..15])?.parse()?,
-        hour: from_utf8(&s[10..12])?.parse()?,
-        day: from_utf8(&s[0..2])?.parse()?,
+        second: parse_digits(&s[16..18])? as u8,
+        minute: parse_digits(&s[13..15])? as u8,
+        hour: parse_digits(&s[10..12])? as u8,
+        day: parse_digits(&s[0..2])? as u8,
         month: match &s[2..7] {
             b"-Jan-" => 1,
             b"-Feb-" => 2,
@@ -175,12 +182,12 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in asctime format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[17..19])?.parse()?,
-        minute: from_utf8(&s[14..16])?.parse()?,
-        hour: from_utf8(&s[11..13])?.parse()?,
+        second: parse_digits(&s[17..19])? as u8,
+        minute: parse_digits(&s[14..16])? as u8,
+        hour: parse_digits(&s[11..13])? as u8,
         day: {
             let x = &s[8..10];
-            from_utf8(if x[0] == b' ' { &x[1..2] } else { x })?.parse()?
+            parse_digits(if x[0] == b' ' { &x[1..2] } else { x })? as u8
         },
         month: match &s[4..8] {
             b"Jan " => 1,
@@ -197,7 +204,7 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
             b"Dec " => 12,
             _ => bail!("Invalid month"),
         },
-        year: from_utf8(&s[20..24])?.parse()?,
+        year: parse_digits(&s[20..24])?,
         week_day: match &s[0..4] {
             b"Mon " => 1,
             b"Tue " => 2,
@@ -413,6 +420,15 @@ fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        _ => 31,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::time::{Duration, UNIX_EPOCH};
-- 
2.43.0


From 61855109eedea36bd1d1de24ea0e13cfc8cd0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 14/34] fix: Forwarded information reads back as it was
 written, and malformed text never panics

---
 src/parse_utils.rs       | 10 +++----
 src/proxies/forwarded.rs | 62 +++++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..091b0c6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..='\u{ff}')
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' | '\u{80}'..='\u{ff}' => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..3e7e7e4 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -2,7 +2,7 @@ use crate::{
     headers::{Header, HeaderName, HeaderValue, Headers, FORWARDED},
     parse_utils::{parse_quoted_string, parse_token},
 };
-use std::{borrow::Cow, convert::TryFrom, fmt::Write, net::IpAddr};
+use std::{borrow::Cow, convert::TryFrom, net::IpAddr};
 
 // these constants are private because they are nonstandard
 const X_FORWARDED_FOR: HeaderName = HeaderName::from_lowercase_str("x-forwarded-for");
@@ -229,7 +229,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
@@ -254,9 +254,18 @@ impl<'a> Forwarded<'a> {
             _ => { /* extensions are allowed in the spec */ }
         }
 
-        match rest.strip_prefix(';') {
-            Some(rest) => Ok(rest),
+        match rest.chars().next() {
+            // we have another forwarded-pair
+            Some(';') => Ok(&rest[1..]),
+
+            // we have another forwarded-element
+            Some(',') => Ok(rest[1..].trim_start()),
+
+            // reached the end of the input
             None => Ok(rest),
+
+            // bail
+            _ => Err(ParseError::new("unexpected character after forwarded-pair")),
         }
     }
 
@@ -363,32 +372,30 @@ impl<'a> Header for Forwarded<'a> {
         FORWARDED
     }
     fn header_value(&self) -> HeaderValue {
-        let mut output = String::new();
+        let mut sections = Vec::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            sections.push(format!("by={}", format_value(by)));
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            sections.push(
+                self.forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            sections.push(format!("host={}", format_value(host)));
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            sections.push(format!("proto={}", format_value(proto)));
         }
 
-        // remove a trailing semicolon
-        output.pop();
+        let output = sections.join(";");
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
@@ -404,7 +411,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
@@ -420,20 +427,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From a6ec1b7a11a88709a15d065065480b231f2f6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 15/34] fix: a request's remote address and host honour lists
 and quoting in Forwarded

---
 src/request.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..deb557a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -116,21 +116,33 @@ impl Request {
             .or_else(|| {
                 self.header("X-Forwarded-Host")
                     .and_then(|h| h.as_str().split(',').next())
+                    .map(str::trim)
             })
             .or_else(|| self.header(&headers::HOST).map(|h| h.as_str()))
             .or_else(|| self.url().host_str())
     }
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
-        self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
-                }
-            })
+        let header = self.header("Forwarded")?.as_str();
+        // Separators inside quoted strings don't end a pair.
+        let (mut quoted, mut escaped) = (false, false);
+        let mut pairs = header.split(|c| {
+            let separates = !quoted && matches!(c, ';' | ',');
+            if c == '"' && !escaped {
+                quoted = !quoted;
+            }
+            escaped = quoted && c == '\\' && !escaped;
+            separates
+        });
+        pairs.find_map(|pair| {
+            let mut parts = pair.splitn(2, '=');
+            let (key, value) = (parts.next()?, parts.next()?);
+            if !key.trim_start().eq_ignore_ascii_case(part) {
+                return None;
+            }
+            let value = value.trim_end();
+            let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+            Some(unquoted.unwrap_or(value))
         })
     }
 
@@ -138,6 +150,7 @@ impl Request {
         self.forwarded_header_part("for").or_else(|| {
             self.header("X-Forwarded-For")
                 .and_then(|header| header.as_str().split(',').next())
+                .map(str::trim)
         })
     }
 
-- 
2.43.0


From 1e72f560ab4cc7751ce75b98f26c9fdfbcbd2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 16/34] fix: quote the realm of a WWW-Authenticate header

---
 src/auth/www_authenticate.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..bf09aad 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -1,5 +1,6 @@
 use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, WWW_AUTHENTICATE};
+use crate::parse_utils::parse_quoted_string;
 use crate::{auth::AuthenticationScheme, headers::Header};
 
 /// Define the authentication method that should be used to gain access to a
@@ -69,26 +70,15 @@ impl WwwAuthenticate {
         };
 
         let realm = realm.trim_start();
-        let realm = match realm.strip_prefix(r#"realm=""#) {
-            Some(realm) => realm,
-            None => bail!(400, "realm not found"),
+        let realm = match realm.strip_prefix("realm=") {
+            Some(realm) if realm.starts_with('"') => realm,
+            _ => bail!(400, "realm not found"),
         };
 
-        let mut chars = realm.chars();
-        let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
-                    closing_quote = true;
-                    false
-                } else {
-                    true
-                }
-            })
-            .collect();
-        if !closing_quote {
-            bail!(400, r"Expected a closing quote");
-        }
+        let realm = match parse_quoted_string(realm) {
+            (Some(realm), _) => realm.into_owned(),
+            (None, _) => bail!(400, r"Expected a closing quote"),
+        };
 
         Ok(Some(Self { scheme, realm }))
     }
@@ -120,7 +110,8 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let realm = self.realm.replace('\\', r"\\").replace('"', r#"\""#);
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 2c669c51f331708e0b74701948156fe8ea417e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 17/34] fix: header numbers are decimal digits, read exactly
 and used without overflow

---
 src/cache/age.rs              |  6 +++---
 src/content/content_length.rs |  4 ++--
 src/other/retry_after.rs      | 18 +++++++++++++-----
 src/utils/date.rs             |  2 +-
 src/utils/mod.rs              | 12 ++++++++++++
 5 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..0388a8a 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, AGE};
-use crate::Status;
+use crate::utils::parse_decimal;
 
 use std::fmt::Debug;
 
@@ -62,8 +62,8 @@ impl Age {
         // entry. We want the last entry.
         let header = headers.iter().last().unwrap();
 
-        let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let num = parse_decimal(header.as_str())?;
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
diff --git a/src/content/content_length.rs b/src/content/content_length.rs
index 4bae42f..bfa3cce 100644
--- a/src/content/content_length.rs
+++ b/src/content/content_length.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, CONTENT_LENGTH};
-use crate::Status;
+use crate::utils::parse_decimal;
 
 /// The size of the entity-body, in bytes, sent to the recipient.
 ///
@@ -47,7 +47,7 @@ impl ContentLength {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let value = headers.iter().last().unwrap();
-        let length = value.as_str().trim().parse::<u64>().status(400)?;
+        let length = parse_decimal(value.as_str().trim())?;
         Ok(Some(Self { length }))
     }
 
diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..1ccef95 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -1,7 +1,7 @@
-use std::time::{Duration, SystemTime, SystemTimeError};
+use std::time::{Duration, SystemTime, SystemTimeError, UNIX_EPOCH};
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, RETRY_AFTER};
-use crate::utils::{fmt_http_date, parse_http_date};
+use crate::utils::{fmt_http_date, parse_decimal, parse_http_date, YEAR_9999_SECONDS};
 
 /// Indicate how long the user agent should wait before making a follow-up request.
 ///
@@ -64,7 +64,7 @@ impl RetryAfter {
             None => return Ok(None),
         };
 
-        let inner = match header.as_str().parse::<u64>() {
+        let inner = match parse_decimal(header.as_str()) {
             Ok(dur) => RetryDirective::Duration(Duration::from_secs(dur)),
             Err(_) => {
                 let at = parse_http_date(header.as_str())?;
@@ -81,7 +81,7 @@ impl RetryAfter {
     /// This may return an error if the `earlier` time was after the current time.
     pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
         let at = match self.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => after(dur),
             RetryDirective::SystemTime(at) => at,
         };
 
@@ -107,12 +107,20 @@ impl Header for RetryAfter {
 impl From<RetryAfter> for SystemTime {
     fn from(retry_after: RetryAfter) -> Self {
         match retry_after.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => after(dur),
             RetryDirective::SystemTime(at) => at,
         }
     }
 }
 
+/// The instant a delay from now ends, or the last one an HTTP date can express
+/// if there is no such instant.
+fn after(dur: Duration) -> SystemTime {
+    SystemTime::now()
+        .checked_add(dur)
+        .unwrap_or(UNIX_EPOCH + Duration::from_secs(YEAR_9999_SECONDS - 1))
+}
+
 /// What value are we decoding into?
 ///
 /// This value is intionally never exposes; all end-users want is a `Duration`
diff --git a/src/utils/date.rs b/src/utils/date.rs
index 1e0f034..3e4ab76 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -9,7 +9,7 @@ const IMF_FIXDATE_LENGTH: usize = 29;
 const RFC850_MAX_LENGTH: usize = 23;
 const ASCTIME_LENGTH: usize = 24;
 
-const YEAR_9999_SECONDS: u64 = 253402300800;
+pub(crate) const YEAR_9999_SECONDS: u64 = 253402300800;
 const SECONDS_IN_DAY: u64 = 86400;
 const SECONDS_IN_HOUR: u64 = 3600;
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index cdb79de..2a7ef63 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -3,12 +3,24 @@ mod date;
 pub(crate) use date::fmt_http_date;
 pub(crate) use date::parse_http_date;
 pub(crate) use date::HttpDate;
+pub(crate) use date::YEAR_9999_SECONDS;
 
 use crate::{Error, Status, StatusCode};
 
 use std::cmp::Ordering;
 use std::str::FromStr;
 
+/// Parse a non-negative decimal number.
+pub(crate) fn parse_decimal(s: &str) -> crate::Result<u64> {
+    // `u64::from_str` also accepts a leading `+`.
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        let mut err = Error::new_adhoc("invalid number");
+        err.set_status(StatusCode::BadRequest);
+        return Err(err);
+    }
+    s.parse::<u64>().status(StatusCode::BadRequest)
+}
+
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     let mut parts = s.trim().split('=');
-- 
2.43.0


From bb60db79557593c7bdd3dfb4ed72794db4b7ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 18/34] fix: Cache-Control writes s-maxage and reads its
 arguments exactly

---
 src/cache/cache_control/cache_control.rs   |  8 +++++++-
 src/cache/cache_control/cache_directive.rs | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cache/cache_control/cache_control.rs b/src/cache/cache_control/cache_control.rs
index deffd6b..e1b1246 100644
--- a/src/cache/cache_control/cache_control.rs
+++ b/src/cache/cache_control/cache_control.rs
@@ -50,7 +50,13 @@ impl CacheControl {
         };
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            // A comma inside a quoted string is part of a directive's argument.
+            let mut quoted = false;
+            let parts = value.as_str().trim().split(|c| {
+                quoted ^= c == '"';
+                c == ',' && !quoted
+            });
+            for part in parts {
                 // Try and parse a directive from a str. If the directive is
                 // unkown we skip it.
                 if let Some(entry) = CacheDirective::from_str(part)? {
diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..18d2909 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -1,4 +1,5 @@
 use crate::headers::HeaderValue;
+use crate::utils::parse_decimal;
 use crate::Status;
 
 use std::time::Duration;
@@ -67,6 +68,7 @@ impl CacheDirective {
                 | ProxyRevalidate
                 | MaxAge(_)
                 | SMaxAge(_)
+                | Immutable
                 | StaleIfError(_)
                 | StaleWhileRevalidate(_)
         )
@@ -89,12 +91,12 @@ impl CacheDirective {
         }
 
         let s = s.to_lowercase();
-        let mut parts = s.split('=');
+        let mut parts = s.splitn(2, '=');
         let next = parts.next().unwrap();
 
         let mut get_dur = || -> crate::Result<Duration> {
             let dur = parts.next().status(400)?;
-            let dur: u64 = dur.parse::<u64>().status(400)?;
+            let dur = parse_decimal(dur)?;
             Ok(Duration::new(dur, 0))
         };
 
@@ -112,7 +114,7 @@ impl CacheDirective {
             "max-age" => Some(MaxAge(get_dur()?)),
             "max-stale" => match parts.next() {
                 Some(secs) => {
-                    let dur: u64 = secs.parse::<u64>().status(400)?;
+                    let dur = parse_decimal(secs)?;
                     Some(MaxStale(Some(Duration::new(dur, 0))))
                 }
                 None => Some(MaxStale(None)),
@@ -148,7 +150,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 39542894abde7cc360926a23f97cc091000d6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 19/34] fix: lists of entity tags and Vary names read back as
 they were written

---
 src/conditional/if_match.rs      |  4 ++--
 src/conditional/if_none_match.rs |  4 ++--
 src/conditional/vary.rs          |  4 ++--
 src/utils/mod.rs                 | 12 ++++++++++++
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..d2aa0a0 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_MATCH};
+use crate::utils::list_elements;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -60,8 +61,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
-                let part = part.trim();
+            for part in list_elements(value.as_str()) {
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..bf6099e 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -4,6 +4,7 @@
 //! one already exists.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_NONE_MATCH};
+use crate::utils::list_elements;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -66,8 +67,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
-                let part = part.trim();
+            for part in list_elements(value.as_str()) {
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..376c725 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, VARY};
+use crate::utils::list_elements;
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -60,8 +61,7 @@ impl Vary {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
-                let part = part.trim();
+            for part in list_elements(value.as_str()) {
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 2a7ef63..d021e20 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -21,6 +21,18 @@ pub(crate) fn parse_decimal(s: &str) -> crate::Result<u64> {
     s.parse::<u64>().status(StatusCode::BadRequest)
 }
 
+/// Iterate over the elements of a comma-separated header value. Commas inside a
+/// quoted string do not separate elements, and empty elements are ignored.
+pub(crate) fn list_elements(s: &str) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    s.split(move |c| {
+        quoted ^= c == '"';
+        c == ',' && !quoted
+    })
+    .map(str::trim)
+    .filter(|s| !s.is_empty())
+}
+
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     let mut parts = s.trim().split('=');
-- 
2.43.0


From 57e62c7c7a3340d37720ac4dc64b7773b535be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 20/34] fix: unknown Clear-Site-Data directives are errors, and
 an empty list reads back

---
 src/cache/clear_site_data/directive.rs | 4 ++--
 src/cache/clear_site_data/mod.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..8bd1111 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -45,7 +45,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +53,7 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => crate::bail_status!(400, "Invalid Clear-Site-Data directive"),
         }
     }
 }
diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..d85660d 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -2,6 +2,7 @@
 //! requesting website
 
 use crate::headers::{self, HeaderName, HeaderValue, Headers, CLEAR_SITE_DATA};
+use crate::utils::list_elements;
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -69,8 +70,7 @@ impl ClearSiteData {
 
         let mut wildcard = false;
         for value in header_values {
-            for part in value.as_str().trim().split(',') {
-                let part = part.trim();
+            for part in list_elements(value.as_str()) {
                 if part == r#""*""# {
                     wildcard = true;
                     continue;
-- 
2.43.0


From 5e772cd73b42faa39cec43461b715c4e963fe65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 21/34] fix: unknown methods in Allow are client errors, and an
 empty list reads back

---
 src/server/allow.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..875f13f 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,8 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::utils::list_elements;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -57,8 +58,8 @@ impl Allow {
         };
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+            for part in list_elements(value.as_str()) {
+                let method = Method::from_str(part).status(400)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 612cf3cf5f510eee7671d62adabf5b8b85607e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 22/34] fix: the Expect header is case-insensitive

---
 src/other/expect.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/other/expect.rs b/src/other/expect.rs
index 086c0d0..274a242 100644
--- a/src/other/expect.rs
+++ b/src/other/expect.rs
@@ -1,5 +1,5 @@
 use crate::headers::{HeaderName, HeaderValue, Headers, EXPECT};
-use crate::{ensure_eq_status, headers::Header};
+use crate::{ensure_status, headers::Header};
 
 use std::fmt::Debug;
 
@@ -50,7 +50,11 @@ impl Expect {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let header = headers.iter().last().unwrap();
-        ensure_eq_status!(header, "100-continue", 400, "malformed `Expect` header");
+        ensure_status!(
+            header.as_str().eq_ignore_ascii_case("100-continue"),
+            400,
+            "malformed `Expect` header"
+        );
 
         Ok(Some(Self { _priv: () }))
     }
-- 
2.43.0


From 2945fb600fc1f0462aa04de993b3516b86ce69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 23/34] fix: unknown content and transfer codings are errors,
 and their names are case-insensitive

---
 src/content/content_encoding.rs   | 6 +++++-
 src/content/encoding.rs           | 3 ++-
 src/transfer/encoding.rs          | 3 ++-
 src/transfer/transfer_encoding.rs | 6 +++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..c94b0d6 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -2,6 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
+    bail_status,
     content::{Encoding, EncodingProposal},
     headers::Header,
 };
@@ -57,7 +58,10 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = match inner {
+            Some(inner) => inner,
+            None => bail_status!(400, "unknown `Content-Encoding` header"),
+        };
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/content/encoding.rs b/src/content/encoding.rs
index 992194e..0815bc6 100644
--- a/src/content/encoding.rs
+++ b/src/content/encoding.rs
@@ -27,7 +27,8 @@ impl Encoding {
             return None;
         }
 
-        match s {
+        // Codings are case-insensitive.
+        match s.to_ascii_lowercase().as_str() {
             "gzip" => Some(Encoding::Gzip),
             "deflate" => Some(Encoding::Deflate),
             "br" => Some(Encoding::Brotli),
diff --git a/src/transfer/encoding.rs b/src/transfer/encoding.rs
index c64b3a4..71c1811 100644
--- a/src/transfer/encoding.rs
+++ b/src/transfer/encoding.rs
@@ -31,7 +31,8 @@ impl Encoding {
             return None;
         }
 
-        match s {
+        // Codings are case-insensitive.
+        match s.to_ascii_lowercase().as_str() {
             "chunked" => Some(Encoding::Chunked),
             "gzip" => Some(Encoding::Gzip),
             "deflate" => Some(Encoding::Deflate),
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..ef2e38e 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,3 +1,4 @@
+use crate::bail_status;
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
 
@@ -54,7 +55,10 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = match inner {
+            Some(inner) => inner,
+            None => bail_status!(400, "unknown `Transfer-Encoding` header"),
+        };
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 978821eb2cfdefe4bb2a640ff8b6db1853823eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 24/34] fix: malformed traceparent headers are client errors,
 never panics

---
 src/trace/trace_context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..30e0e57 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -107,10 +107,17 @@ impl TraceContext {
             None => return Ok(None),
         };
         let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        // `from_str_radix` also accepts a leading `+`.
+        let is_hex = |part: &&str| part.bytes().all(|b| b.is_ascii_hexdigit());
+        crate::ensure_status!(
+            parts.len() >= 4 && parts.iter().take(4).all(is_hex),
+            400,
+            "malformed `traceparent` header"
+        );
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
+            version: u8::from_str_radix(parts[0], 16).status(400)?,
             trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
             parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
             flags: u8::from_str_radix(parts[3], 16).status(400)?,
-- 
2.43.0


From 63eb6ebaa675180150ff82de89c353117b2ee946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 25/34] fix: read and write Server-Timing quoted descriptions
 and durations faithfully

---
 src/trace/server_timing/metric.rs | 15 ++++++-
 src/trace/server_timing/parse.rs  | 67 ++++++++++++++++++++++++-------
 2 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..97f5f21 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -57,9 +57,20 @@ impl From<Metric> for HeaderValue {
         let mut string = entry.name;
 
         // Format a `Duration` into the format that the spec expects.
-        let f = |d: Duration| d.as_secs_f64() * 1000.0;
+        let f = |d: Duration| {
+            let millis = format!("{}.{:06}", d.as_millis(), d.subsec_nanos() % 1_000_000);
+            millis
+                .trim_end_matches('0')
+                .trim_end_matches('.')
+                .to_string()
+        };
+
+        // Quotes and backslashes inside a quoted string must be escaped.
+        let desc = entry
+            .desc
+            .map(|desc| desc.replace('\\', "\\\\").replace('"', "\\\""));
 
-        match (entry.dur, entry.desc) {
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..e4cfe0a 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,18 @@
 use std::time::Duration;
 
 use super::Metric;
+use crate::parse_utils::parse_quoted_string;
 use crate::{ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_unquoted(s, ',') {
+        // Empty list elements don't count.
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -17,6 +22,22 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
     Ok(())
 }
 
+/// Split a string at each separator which isn't part of a quoted string.
+fn split_unquoted(s: &str, separator: char) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    s.split(move |c| {
+        if escaped {
+            escaped = false;
+        } else if quoted && c == '\\' {
+            escaped = true;
+        } else if c == '"' {
+            quoted = !quoted;
+        }
+        !quoted && c == separator
+    })
+}
+
 /// Create an entry from a string. Parsing rules in ABNF are:
 //
 /// ```txt
@@ -30,13 +51,17 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_unquoted(s.trim(), ';');
 
     // Get the name. This is non-optional.
     let name = parts
         .next()
         .ok_or_else(|| format_err!("Server timing headers must include a name"))?
         .trim_end();
+    ensure!(
+        !name.is_empty(),
+        "Server timing headers must include a name"
+    );
 
     // We must extract these values from the k-v pairs that follow.
     let mut dur = None;
@@ -50,39 +75,51 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
-            .trim_start();
+            .trim();
 
         match name {
             "dur" => {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                // Keep whole milliseconds apart so that they convert exactly.
+                let whole = Duration::try_from_secs_f64(millis.trunc());
+                let fract = Duration::try_from_secs_f64(millis.fract() / 1000.0);
+                dur = match (whole, fract) {
+                    (Ok(whole), Ok(fract)) => Some(whole / 1000 + fract),
+                    _ => {
+                        return Err(format_err!(
+                            "Server timing duration params must be a valid duration."
+                        ))
+                    }
+                };
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
+                desc = if value.starts_with('"') {
+                    match parse_quoted_string(value) {
+                        (Some(text), "") => Some(text.into_owned()),
+                        _ => {
+                            return Err(format_err!(
+                                "Server timing description params must use matching quotes"
+                            ))
+                        }
+                    }
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
-                }
-                desc = Some(value.to_string());
+                    Some(value.to_string())
+                };
             }
             _ => continue,
         }
-- 
2.43.0


From d4982a8ab7ac9acaccc5915076e0df59a0c8cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 26/34] fix: read Strict-Transport-Security directives in any
 letter case

---
 src/security/strict_transport_security.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..e3c7735 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers};
-use crate::Status;
+use crate::utils::parse_decimal;
 
 use crate::headers::STRICT_TRANSPORT_SECURITY;
 use std::time::Duration;
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,8 +121,8 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
-                    let secs = value.parse::<u64>().status(400)?;
+                if key.eq_ignore_ascii_case("max-age") {
+                    let secs = parse_decimal(value)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
             }
-- 
2.43.0


From a3f576a9a572eae1b2b4a7c531c7aa9b5363f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 27/34] fix: an empty Timing-Allow-Origin list can be read back

---
 src/security/timing_allow_origin.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..c6b99a8 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,7 +87,9 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
+                    // Empty list elements don't count.
+                    "" => continue,
                     "*" => wildcard = true,
                     r#""null""# => continue,
                     origin => {
-- 
2.43.0


From 4fb7bb6cd67b704c419af3e13980991f5f799832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 28/34] fix: a Content-Security-Policy states each directive
 once, however often it is applied

---
 src/security/csp.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..ee80adc 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -137,14 +137,13 @@ pub struct ContentSecurityPolicy {
 }
 
 impl Default for ContentSecurityPolicy {
-    /// Sets the Content-Security-Policy default to "script-src 'self'; object-src 'self'"
+    /// Sets the Content-Security-Policy default to "object-src 'self'; script-src 'self'"
     fn default() -> Self {
-        let policy = String::from("script-src 'self'; object-src 'self'");
-        ContentSecurityPolicy {
-            policy: vec![policy],
-            report_only_flag: false,
-            directives: HashMap::new(),
-        }
+        let mut policy = ContentSecurityPolicy::new();
+        policy
+            .object_src(Source::SameOrigin)
+            .script_src(Source::SameOrigin);
+        policy
     }
 }
 
@@ -345,13 +344,14 @@ impl ContentSecurityPolicy {
     }
 
     /// Create and retrieve the policy value
-    fn value(&mut self) -> String {
+    fn value(&self) -> String {
+        let mut policy = self.policy.clone();
         for (directive, sources) in &self.directives {
-            let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policy.push(format!("{} {}", directive, sources.join(" ")));
         }
-        self.policy.join("; ")
+        policy.sort();
+        policy.dedup();
+        policy.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 520a10b7e330969ebef68bb92eb4009a82c61c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 29/34] fix: powered_by replaces and removes the X-Powered-By
 header whatever the case it was set in

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From 0393522ccd3c00840c5513c0a9487143e9b58b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 30/34] fix: keep every header value, and add none, when
 converting from the http crate's types

---
 src/hyperium_http.rs | 46 +++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..acb0dd1 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -95,18 +95,18 @@ impl TryFrom<http::HeaderMap> for Headers {
 
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
-
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
+        let mut last_name: Option<HeaderName> = None;
+
+        // The name is only given for the first of several values with the same name.
+        for (name, value) in hyperium_headers {
+            if let Some(name) = name {
+                last_name = Some(name.try_into()?);
+            }
+            if let Some(name) = &last_name {
+                let value: HeaderValue = value.try_into()?;
+                headers.append(name, value)?;
+            }
+        }
 
         Ok(headers)
     }
@@ -140,22 +140,6 @@ impl TryFrom<Headers> for http::HeaderMap {
     }
 }
 
-fn hyperium_headers_to_headers(
-    hyperium_headers: http::HeaderMap,
-    headers: &mut Headers,
-) -> crate::Result<()> {
-    for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
-        if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-            headers.append(name, value)?;
-        }
-    }
-    Ok(())
-}
-
 fn headers_to_hyperium_headers(headers: &mut Headers, hyperium_headers: &mut http::HeaderMap) {
     for (name, values) in headers {
         let name = format!("{}", name).into_bytes();
@@ -189,7 +173,8 @@ impl TryFrom<http::Request<Body>> for Request {
         let mut req = Request::new(method, url);
         req.set_body(body);
         req.set_version(Some(parts.version.into()));
-        hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        // The headers are exactly the ones given: setting the body may have added one.
+        *req.as_mut() = parts.headers.try_into()?;
         Ok(req)
     }
 }
@@ -214,7 +199,8 @@ impl TryFrom<http::Response<Body>> for Response {
         let mut res = Response::new(parts.status);
         res.set_body(body);
         res.set_version(Some(parts.version.into()));
-        hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        // The headers are exactly the ones given: setting the body may have added one.
+        *res.as_mut() = parts.headers.try_into()?;
         Ok(res)
     }
 }
-- 
2.43.0


From 541463aa19daae908c7c5ed831757ad68254855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 31/34] fix: an unknown method or status is an error when
 converting a message from the http crate's types

---
 src/hyperium_http.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index acb0dd1..f0c9d7b 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -168,7 +168,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_body(body);
@@ -196,7 +196,8 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let status = StatusCode::try_from(parts.status.as_u16())?;
+        let mut res = Response::new(status);
         res.set_body(body);
         res.set_version(Some(parts.version.into()));
         // The headers are exactly the ones given: setting the body may have added one.
-- 
2.43.0


From 09c4cb49a69e2e0d0707922e154013fa69266ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 32/34] fix: sniff a file's own first bytes

peek_mime sniffed from wherever the handle stood and took the zero padding
of its buffer for file content, so short or part-read files got the wrong
media type.
---
 src/body.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 04d02f9..e112c29 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -630,8 +630,9 @@ impl AsyncBufRead for Body {
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    file.seek(io::SeekFrom::Start(0)).await?;
+    let len = file.read(&mut buf).await?;
+    let mime = Mime::sniff(&buf[..len]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0


From 53428a587ec5de763fd802000fc7ccb987b065bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:29 +0000
Subject: [PATCH 33/34] fix: a comma in a quoted parameter doesn't end an
 Accept proposal

---
 src/content/accept.rs            |  4 ++--
 src/trace/server_timing/parse.rs | 17 +----------------
 src/utils/mod.rs                 | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index dcdbaea..2ecd3fb 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -2,7 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
-use crate::utils::sort_by_weight;
+use crate::utils::{sort_by_weight, split_unquoted};
 use crate::{
     content::{ContentType, MediaTypeProposal},
     headers::Header,
@@ -73,7 +73,7 @@ impl Accept {
         let mut wildcard = false;
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str(), ',') {
                 let part = part.trim();
 
                 // Handle empty strings, and wildcard directives.
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index e4cfe0a..1238720 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -2,6 +2,7 @@ use std::time::Duration;
 
 use super::Metric;
 use crate::parse_utils::parse_quoted_string;
+use crate::utils::split_unquoted;
 use crate::{ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
@@ -22,22 +23,6 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
     Ok(())
 }
 
-/// Split a string at each separator which isn't part of a quoted string.
-fn split_unquoted(s: &str, separator: char) -> impl Iterator<Item = &str> {
-    let mut quoted = false;
-    let mut escaped = false;
-    s.split(move |c| {
-        if escaped {
-            escaped = false;
-        } else if quoted && c == '\\' {
-            escaped = true;
-        } else if c == '"' {
-            quoted = !quoted;
-        }
-        !quoted && c == separator
-    })
-}
-
 /// Create an entry from a string. Parsing rules in ABNF are:
 //
 /// ```txt
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index d021e20..769c490 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -33,6 +33,22 @@ pub(crate) fn list_elements(s: &str) -> impl Iterator<Item = &str> {
     .filter(|s| !s.is_empty())
 }
 
+/// Split a string at each separator which isn't part of a quoted string.
+pub(crate) fn split_unquoted(s: &str, separator: char) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    s.split(move |c| {
+        if escaped {
+            escaped = false;
+        } else if quoted && c == '\\' {
+            escaped = true;
+        } else if c == '"' {
+            quoted = !quoted;
+        }
+        !quoted && c == separator
+    })
+}
+
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     let mut parts = s.trim().split('=');
-- 
2.43.0


From 3751a3f305ffb691b9d993fec0d00935bf687a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:29 +0000
Subject: [PATCH 34/34] fix: the weight's name is recognised in any letter case

---
 src/utils/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 769c490..2f10201 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -52,7 +52,8 @@ pub(crate) fn split_unquoted(s: &str, separator: char) -> impl Iterator<Item = &
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     let mut parts = s.trim().split('=');
-    if !matches!(parts.next(), Some("q")) {
+    let name = parts.next().unwrap_or_default();
+    if !name.eq_ignore_ascii_case("q") {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
         return Err(err);
-- 
2.43.0

