From ed54a5baf577d9afbf7335135caef8e9413d7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:38 +0000
Subject: [PATCH 01/24] fix: JSON number text with a zero significand and an
 exponent

---
 json/src/to_fmt.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..b43613c 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -618,6 +618,19 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
+                    // If we encounter an exponent we might need to write the `0` we skipped over
+                    b'e' | b'E' => {
+                        if self.at_start {
+                            if self.sign_negative {
+                                _try_no_conv!(out.write_char('-'));
+                            }
+
+                            _try_no_conv!(out.write_char('0'));
+                        }
+
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                     // If we encounter a sign then stash it until we know the number is finite
                     // A value like `-inf` should still write `null`, not `-null`
                     b'-' if self.at_start => {
-- 
2.43.0


From cf354bf156341848e6988256e43eb307ec9f4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:38 +0000
Subject: [PATCH 02/24] fix: JSON enums nested in an anonymous enum closed one
 object too many

---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index b43613c..6efc899 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -326,10 +326,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From 98a3bec6c654ce5ff1d7a19e23155807f126937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:38 +0000
Subject: [PATCH 03/24] fix: JSON map keys with a tag no longer leave their
 value internally tagged

---
 json/src/to_fmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 6efc899..cdbe137 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -249,6 +249,7 @@ where
         _try!(self.out.write_str("\":"));
 
         self.is_text_quoted = true;
+        self.is_internally_tagged = false;
 
         Ok(())
     }
-- 
2.43.0


From cbb9bcbf08cd2dd495dab0880ef0150ae57f0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:53 +0000
Subject: [PATCH 04/24] fix: JSON variants tagged as numbers or native JSON
 text

---
 json/src/to_fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index cdbe137..161b4ae 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -339,6 +339,8 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -361,7 +363,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From d5a271f33f884ad26cf3bb521b9aa7e1569979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:26 +0000
Subject: [PATCH 05/24] fix: JSON written to a writer that accepts nothing is
 an error instead of being cut short

---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From be9bff53be1fc1dd0cd967c9d00b815681a2d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 06/24] fix: labels keep their tag hint when cloned or made
 owned

---
 src/data.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..baff322 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -162,9 +162,13 @@ impl<'computed> Label<'computed> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            self.as_static_str()
+            let mut label = self
+                .as_static_str()
                 .map(Label::new)
-                .ok_or_else(crate::Error::new)
+                .ok_or_else(crate::Error::new)?;
+            label.tag = self.tag.clone();
+
+            Ok(label)
         }
     }
 }
@@ -570,7 +574,10 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +597,14 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+            label.tag = self.tag.clone();
+
+            label
         }
     }
 
-- 
2.43.0


From 74774df5a1d33103bd17306715c4f41ea3e250a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 07/24] fix: collecting text or binary from a value that fails
 is an error instead of a panic

---
 buffer/src/fragments.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..62f564d 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -42,7 +42,11 @@ impl<'sval> TextBuf<'sval> {
 
         value
             .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+            .map_err(|_| {
+                collector
+                    .err
+                    .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+            })?;
 
         Ok(collector.buf)
     }
@@ -299,7 +303,11 @@ impl<'sval> BinaryBuf<'sval> {
 
         value
             .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+            .map_err(|_| {
+                collector
+                    .err
+                    .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+            })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From c464ea64142c97deeb1224bf56b37175022c2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 08/24] fix: fragments given to an empty value buffer are an
 error instead of a panic

---
 buffer/src/value.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..9f66bb5 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -408,15 +408,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn text_fragment(&mut self, fragment: &'sval str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(ref mut text)) => text.push_fragment(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
 
     fn text_fragment_computed(&mut self, fragment: &str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Text(ref mut text)) => text.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
@@ -435,15 +435,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn binary_fragment(&mut self, fragment: &'sval [u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(ref mut binary)) => binary.push_fragment(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
 
     fn binary_fragment_computed(&mut self, fragment: &[u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut() {
+            Some(ValueKind::Binary(ref mut binary)) => binary.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
@@ -976,8 +976,8 @@ impl<'sval> ValueBuf<'sval> {
         Ok(())
     }
 
-    fn current_mut(&mut self) -> &mut ValuePart<'sval> {
-        self.parts.last_mut().expect("missing current")
+    fn current_mut(&mut self) -> Option<&mut ValueKind<'sval>> {
+        self.parts.last_mut().map(|part| &mut part.kind)
     }
 }
 
-- 
2.43.0


From c79cca96583b64ed74dc31cbba9654c18ab119f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 09/24] fix: tag hints neither complete a value buffer nor
 interrupt its text and binary

---
 buffer/src/value.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 9f66bb5..f919992 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -165,7 +165,13 @@ impl<'sval> ValueBuf<'sval> {
     Whether or not the contents of the value buffer are complete.
     */
     pub fn is_complete(&self) -> bool {
-        self.stack.len() == 0 && self.parts.len() > 0 && !self.is_in_text_or_binary
+        self.stack.len() == 0
+            && !self.is_in_text_or_binary
+            // Hints aren't values
+            && self
+                .parts
+                .iter()
+                .any(|part| !matches!(part.kind, ValueKind::TagHint { .. }))
     }
 
     /**
@@ -640,6 +646,12 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
         tag: &sval::Tag,
     ) -> sval::Result {
         self.try_catch(|buf| {
+            // Hints may appear between the fragments of text or binary, where they
+            // have no place of their own
+            if buf.is_in_text_or_binary {
+                return Ok(());
+            }
+
             buf.push_kind(ValueKind::TagHint {
                 tag: tag.clone(),
             })
-- 
2.43.0


From 0ca52af2b4a478453bcb00c5fafb8f7f5cc78b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:20 +0000
Subject: [PATCH 10/24] fix: nested streams keep the elements of sequences that
 are buffered

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..296924b 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -250,11 +250,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 83296b004eeff545e711fa92b2eecf5df6c985bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:24 +0000
Subject: [PATCH 11/24] fix: nested streams accept records and tuples as
 variants of nested enums

---
 nested/src/flat.rs      | 28 ++++++++++++++++++++++++++++
 nested/src/flat_enum.rs |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 296924b..53f1cdd 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -417,6 +417,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.record_begin(tag, label, index, num_entries),
             |stream| {
@@ -492,6 +494,8 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
         index: Option<&sval::Index>,
         num_entries: Option<usize>,
     ) -> sval::Result {
+        self.buffer_nested_variant();
+
         self.buffer_or_begin_with(
             |buf| buf.tuple_begin(tag, label, index, num_entries),
             |stream| {
@@ -1164,6 +1168,17 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
                     let buf = mem::take(buf);
                     *buffered = None;
 
+                    // If we were buffering a nested enum variant then stream it now
+                    if let State::Enum(ref mut state) = stream.state {
+                        let state = state.take().ok_or_else(|| {
+                            Error::invalid_value(
+                                "cannot stream enum value; the stream is already completed",
+                            )
+                        })?;
+
+                        return Ok(Some(state.stream.value_computed(&buf)?));
+                    }
+
                     return stream
                         .state
                         .value_computed(&buf, |stream, value| stream.value_computed(value));
@@ -1180,6 +1195,19 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
         Ok(())
     }
 
+    // The tuples and records of nested enums can't be streamed in-place
+    fn buffer_nested_variant(&mut self) {
+        if let FlatStream {
+            buffered: None,
+            state: State::Enum(Some(Enum { stream })),
+        } = self
+        {
+            if stream.is_nested() {
+                self.buffered = Some(Buffered::Value(ValueBuf::new()));
+            }
+        }
+    }
+
     fn put_buffer(&mut self, buf: Buffered<'sval>) -> Result {
         match self.buffered {
             None => {
diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..186b771 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -39,6 +39,10 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         })
     }
 
+    pub fn is_nested(&self) -> bool {
+        !self.queue.is_empty()
+    }
+
     pub fn end(self) -> Result<S::Ok> {
         self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
     }
-- 
2.43.0


From 475a524963fd02bded57ba6ac90addea518e1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:26 +0000
Subject: [PATCH 12/24] fix: nested streams end enums that have no variant

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 186b771..91e79dc 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -44,7 +44,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 4a52f782f1dbe3795236c05e28c673ef2f1868be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:29 +0000
Subject: [PATCH 13/24] fix: nested streams return the error of a value that
 fails after it was complete

---
 nested/src/flat.rs | 9 +++++++++
 nested/src/lib.rs  | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 53f1cdd..d4b1f5a 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -173,6 +173,15 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
             Err(Error::invalid_value("incomplete stream"))
         }
     }
+
+    pub fn finish_with(&mut self, r: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // A value can still fail after a complete value was streamed
+        r.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
 }
 
 impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..09439fe 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
-- 
2.43.0


From c29e6c4956ca3a1f077b4d90709b875e2d7d4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:30 +0000
Subject: [PATCH 14/24] fix: serialize tagged values that have no label through
 serde

---
 serde/src/to_serialize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde/src/to_serialize.rs b/serde/src/to_serialize.rs
index e0f54d6..c22f40f 100644
--- a/serde/src/to_serialize.rs
+++ b/serde/src/to_serialize.rs
@@ -200,6 +200,9 @@ impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S> {
             Some(sval::tags::RUST_OPTION_SOME) => {
                 Ok(self.serializer.serialize_some(&ToSerialize::new(value)))
             }
+            // If there's no label then there's no newtype to serialize,
+            // just a value carrying an additional tag, like a constant size array
+            _ if label.is_none() => Ok(ToSerialize::new(value).serialize(self.serializer)),
             _ => {
                 let name = label
                     .and_then(|label| label.as_static_str())
-- 
2.43.0


From accdcd349ab070a15968be18c674d4ec2dffff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:34 +0000
Subject: [PATCH 15/24] fix: end the keys of maps nested in flattened values

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From 193e64d0a953192c07f258f6c5b295a1050b4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:34 +0000
Subject: [PATCH 16/24] fix: flatten enums inside of tagged values

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From ec88d530ecac6688bcb7d997debe477121c6b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:43 +0000
Subject: [PATCH 17/24] fix: concatenate numbers in complex map keys when
 flattening

---
 flatten/src/label.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..11b3903 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,26 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?))
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        self.number(LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?))
+    }
+
+    fn number(&mut self, number: LabelBuf<'sval>) -> sval::Result {
+        match self {
+            LabelBuf::Empty => {
+                *self = number;
+                Ok(())
+            }
+            // If there's already a label then append the number to it
+            _ => number.with_label(|label| self.text_fragment_computed(label.as_str())),
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +106,17 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut buf = TextBuf::new();
+
+                // If there's already a number then keep it as text
+                if !matches!(self, LabelBuf::Empty) {
+                    self.with_label(|label| {
+                        buf.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())
+                    })?;
+                }
+
+                *self = LabelBuf::Text(buf);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From 1eb817fd91f98303e657084aff21b7062fce6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:16 +0000
Subject: [PATCH 18/24] fix: give values streamed as i64 when asked for a
 signed integer

---
 src/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..4782636 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,9 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.0 = Some(value.into());
+                Ok(())
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From dd7954df7db0c78a3948960cd98920b20f741b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:50 +0000
Subject: [PATCH 19/24] fix: don't format the name of an enum after an empty
 variant

---
 fmt/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..24d72d2 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is a value at the depth it's in
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +338,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is a value at the depth it's in
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +477,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is a value at the depth it's in
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +530,9 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        // The container itself is a value at the depth it's in
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 6f7c5b059ccb16d96bb692864faab2aa9d4e60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:20 +0000
Subject: [PATCH 20/24] fix: report the tag of the field of a derived
 transparent newtype

---
 derive_macros/src/derive/derive_newtype.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive_macros/src/derive/derive_newtype.rs b/derive_macros/src/derive/derive_newtype.rs
index 6662826..a7863b7 100644
--- a/derive_macros/src/derive/derive_newtype.rs
+++ b/derive_macros/src/derive/derive_newtype.rs
@@ -86,7 +86,12 @@ pub(crate) fn derive_newtype<'a>(
         attrs.transparent(),
     );
 
-    let tag = quote_optional_tag_owned(attrs.tag());
+    // A transparent newtype has whatever tag its underlying field has
+    let tag = if attrs.transparent() {
+        None
+    } else {
+        Some(quote_optional_tag_owned(attrs.tag()))
+    };
 
     impl_tokens(
         impl_generics,
@@ -100,6 +105,6 @@ pub(crate) fn derive_newtype<'a>(
 
             Ok(())
         }),
-        Some(tag),
+        tag,
     )
 }
-- 
2.43.0


From 780a31aaec7bea95a49d689a5482ad7647e4709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 21/24] fix: derive values for types named Option

---
 derive_macros/src/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_macros/src/derive.rs b/derive_macros/src/derive.rs
index 211de3c..0d6bc86 100644
--- a/derive_macros/src/derive.rs
+++ b/derive_macros/src/derive.rs
@@ -63,7 +63,7 @@ fn impl_tokens(
 
     let tag_fn = if let Some(tag_body) = tag_body {
         quote!(
-            fn tag(&self) -> Option<sval::Tag> {
+            fn tag(&self) -> ::core::option::Option<sval::Tag> {
                 #tag_body
             }
         )
-- 
2.43.0


From a595693e99788f06ef2161ccbefe3d5878f3da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 22/24] fix: a begin a value buffer has no room for leaves
 nothing open

---
 buffer/src/value.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index f919992..32972d3 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -939,8 +939,10 @@ impl<'sval> ValueBuf<'sval> {
     }
 
     fn push_begin(&mut self, kind: ValueKind<'sval>) -> Result<(), Error> {
-        self.stack.push(self.parts.len())?;
-        self.parts.push(ValuePart { kind })
+        let index = self.parts.len();
+
+        self.parts.push(ValuePart { kind })?;
+        self.stack.push(index)
     }
 
     fn push_end(&mut self) -> Result<(), Error> {
-- 
2.43.0


From 07aec4c1e13e7c632b912269a846cb5bc8d6bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 23/24] fix: the no_debug_assertions feature of sval_nested
 takes effect

---
 nested/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/error.rs b/nested/src/error.rs
index 38f89dd..f8138f5 100644
--- a/nested/src/error.rs
+++ b/nested/src/error.rs
@@ -53,11 +53,11 @@ impl Error {
         The pattern here is the same as what's used in `sval_buffer`.
         */
 
-        #[cfg(all(debug_assertions, not(no_debug_assertions), not(test)))]
+        #[cfg(all(debug_assertions, not(feature = "no_debug_assertions"), not(test)))]
         {
             panic!("attempt to allocate for {} would fail; add the `alloc` feature of `sval_nested` or the depdendent `sval_*` library to support allocation. This call will error instead of panicking in release builds. Add the `no_debug_assertions` feature of `sval_nested` if this error is expected.", method);
         }
-        #[cfg(not(all(debug_assertions, not(no_debug_assertions), not(test))))]
+        #[cfg(not(all(debug_assertions, not(feature = "no_debug_assertions"), not(test))))]
         {
             Error(ErrorKind::NoAlloc { method })
         }
-- 
2.43.0


From abe98e6095a012a653c087e9894071180caab82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 24/24] fix: nested streams keep the tag hints of labels
 without an allocator

---
 nested/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 09439fe..3f11e7d 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,11 +914,9 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
-        } else {
-            Err(Error::no_alloc("streaming value"))
-        }
+        label
+            .try_to_owned()
+            .map_err(|_| Error::no_alloc("streaming value"))
     }
 }
 
-- 
2.43.0

