From 9020a8490000b01639147f81f7feb42bdf95b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 1/8] fix: encode the text given to from_unencoded_str

---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..05edf32 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into())
+            ),
         }
     }
 
-- 
2.43.0


From 0ffa25aaaeb145aea0a94ffaa16b8f697cc09a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 2/8] fix: keep leading whitespace of attribute values

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From d94b2b65e26bc9fc1be70553b96545a9edc7f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 3/8] fix: name the right tags in the mismatched closing tag
 message

---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..cc0fd99 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From cc5e60d288be38d37d42a06322d834c358a8e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 4/8] fix: say closing tag in the invalid closing tag
 identifier message

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index cc0fd99..a6eb965 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
-- 
2.43.0


From 97e97736cafc849af6c9878ba5efb1cab2b6fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 5/8] fix: locate unfinished tags where they start

---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a6eb965..6b7ff10 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -534,7 +534,7 @@ fn try_parse_tag_close(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedClosingTagClose {
             tag: (*identifier).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
@@ -643,7 +643,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedOpeningTagClose {
             tag: (*tag).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
-- 
2.43.0


From 3bd4d017557d71313042eace0b56c21c94287466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 6/8] fix: decode template files as a whole instead of per
 buffer fill

---
 src/template.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..ca574b5 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,14 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        // A character can span two buffer fills, so only the complete input is decoded.
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From b056943866dcf022f23fb1f0d0b580995d8fce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 7/8] fix: compare text by content, not by kind of storage

---
 src/text/deferred.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..0416dc5 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,12 +3,19 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool { **self == **other }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
+
 impl<T> Deferred<T> where T: From<&'static str> {
 
     pub(crate) fn into_actual(self) -> T {
-- 
2.43.0


From 447ff4ff3ffaca4f2f4067606b9e47f2e1f21b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 8/8] fix: find the end of raw text in linear time

---
 src/input.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 5bae473..bb2cccd 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -62,11 +62,15 @@ impl<'i> Input<'i> {
 
     pub fn take_until_end_char<F>(&self, chr: char, check: F) -> Option<StrSplit<'i>>
     where F: Fn(Input<'i>) -> bool {
-        for (index, _) in self.content.match_indices(chr) {
-            let rest = self.advanced(index);
+        // The location is moved along from one candidate to the next, so the work stays
+        // proportional to the length of the content.
+        let mut rest = *self;
+        while let Some(index) = rest.content.find(chr) {
+            rest = rest.advanced(index);
             if check(rest) {
-                return Some(self.consumed(index));
+                return Some((&self.content[..(self.content.len() - rest.content.len())], rest));
             }
+            rest = rest.advanced(chr.len_utf8());
         }
         None
     }
-- 
2.43.0

