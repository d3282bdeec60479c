From bd4f38d29f1f931e737c6aaeeba22bfb26f19937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 01/16] fix: keep the enclosing one-entry map when its key is
 itself a one-entry map, tagged value or enum variant

---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..5b76190 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -467,6 +469,7 @@ where
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
         if len == Some(1) {
+            self.flush_mapping_start()?;
             self.state = if let State::FoundTag(_) = self.state {
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From 2bfa9ec11d4dda03e094ba6e58d1e1255cb89fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 02/16] fix: keep the leading '!' of a displayed map key that
 turns out not to be a tag

---
 src/value/tagged.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..18c308b 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -452,6 +452,7 @@ where
                 }
                 CheckForTag::Tag(string) => {
                     let mut string = mem::take(string);
+                    string.insert(0, '!');
                     string.push_str(s);
                     *self = CheckForTag::NotTag(string);
                 }
-- 
2.43.0


From 1d96e14ded6becdd3bd263b4ce28dadf95448a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 03/16] fix: Serializer::flush flushes the underlying writer

The documentation promises a call of io::Write::flush on the writer, but
only libyaml's own buffer was written out, so buffered writers kept the
data and their flush failures went unreported.
---
 src/libyaml/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..85c8f44 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,8 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            (*self.pin.ptr).write.flush().map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From 24e26628a170410227febb2b43fea6149ba9f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 04/16] fix: end the document iterator after a document that
 cannot be parsed

After a syntax error the iterator repeated the error forever. After an
unknown anchor it resumed in the middle of the document, and reading the
remaining events panicked ("unexpected end of sequence").
---
 src/loader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..6e64172 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -60,6 +60,8 @@ impl<'input> Loader<'input> {
             let (event, mark) = match parser.next() {
                 Ok((event, mark)) => (event, mark),
                 Err(err) => {
+                    // Nothing that follows an error can be made sense of.
+                    self.parser = None;
                     document.error = Some(Error::from(err).shared());
                     return Some(document);
                 }
@@ -82,6 +84,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::Alias(alias) => match anchors.get(&alias) {
                     Some(id) => Event::Alias(*id),
                     None => {
+                        self.parser = None;
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
                         return Some(document);
                     }
-- 
2.43.0


From 5eeeef212913bb3c9ef4e9690b7a7479c027de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 05/16] fix: end the document iterator after a reader failure

The failure was yielded again on every call, so a caller that skips
failed documents never finished.
---
 src/de.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..87139b9 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -155,12 +155,7 @@ impl<'de> Iterator for Deserializer<'de> {
                     progress: Progress::Document(document),
                 });
             }
-            Progress::Document(_) => return None,
-            Progress::Fail(err) => {
-                return Some(Deserializer {
-                    progress: Progress::Fail(Arc::clone(err)),
-                });
-            }
+            Progress::Document(_) | Progress::Fail(_) => return None,
             _ => {}
         }
 
-- 
2.43.0


From a4fc39789cbc06c24a2dfea7aa716e52144a5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 06/16] fix: read documents that start with a byte order mark

libyaml's scanner counts the mark as a column, so the first line of the
document seemed indented relative to the rest: "\u{feff}a: 1\nb: 2" was
read as two documents and "\u{feff}---" was not a document marker.
---
 src/libyaml/error.rs  | 16 ++++++++++++++++
 src/libyaml/parser.rs | 21 +++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/libyaml/error.rs b/src/libyaml/error.rs
index 8397f6e..4d8779a 100644
--- a/src/libyaml/error.rs
+++ b/src/libyaml/error.rs
@@ -60,6 +60,16 @@ impl Error {
     pub fn mark(&self) -> Mark {
         self.problem_mark
     }
+
+    /// Account for bytes of the input in front of what libyaml was given.
+    pub fn offset(mut self, bytes: usize) -> Self {
+        if self.kind == sys::YAML_READER_ERROR {
+            self.problem_offset += bytes as u64;
+        }
+        self.problem_mark = self.problem_mark.offset(bytes);
+        self.context_mark = self.context_mark.offset(bytes);
+        self
+    }
 }
 
 impl Display for Error {
@@ -124,6 +134,12 @@ impl Mark {
         self.sys.index
     }
 
+    /// Account for bytes of the input in front of what libyaml was given.
+    pub fn offset(mut self, bytes: usize) -> Self {
+        self.sys.index += bytes as u64;
+        self
+    }
+
     pub fn line(&self) -> u64 {
         self.sys.line
     }
diff --git a/src/libyaml/parser.rs b/src/libyaml/parser.rs
index 3492edd..efd3f05 100644
--- a/src/libyaml/parser.rs
+++ b/src/libyaml/parser.rs
@@ -16,6 +16,9 @@ pub(crate) struct Parser<'input> {
 struct ParserPinned<'input> {
     sys: sys::yaml_parser_t,
     input: Cow<'input, [u8]>,
+    /// Length of the byte order mark at the start of the input. It is not part
+    /// of what libyaml sees, which would count it as a column.
+    bom: usize,
 }
 
 #[derive(Debug)]
@@ -73,8 +76,11 @@ impl<'input> Parser<'input> {
                 panic!("malloc error: {}", Error::parse_error(parser));
             }
             sys::yaml_parser_set_encoding(parser, sys::YAML_UTF8_ENCODING);
-            sys::yaml_parser_set_input_string(parser, input.as_ptr(), input.len() as u64);
+            let bom = if input.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
+            let text = &input[bom..];
+            sys::yaml_parser_set_input_string(parser, text.as_ptr(), text.len() as u64);
             addr_of_mut!((*owned.ptr).input).write(input);
+            addr_of_mut!((*owned.ptr).bom).write(bom);
             Owned::assume_init(owned)
         };
         Parser { pin }
@@ -84,17 +90,19 @@ impl<'input> Parser<'input> {
         let mut event = MaybeUninit::<sys::yaml_event_t>::uninit();
         unsafe {
             let parser = addr_of_mut!((*self.pin.ptr).sys);
+            let bom = (*self.pin.ptr).bom;
             if (*parser).error != sys::YAML_NO_ERROR {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser).offset(bom));
             }
             let event = event.as_mut_ptr();
             if sys::yaml_parser_parse(parser, event).fail {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser).offset(bom));
             }
-            let ret = convert_event(&*event, &(*self.pin.ptr).input);
+            let ret = convert_event(&*event, &(*self.pin.ptr).input, bom);
             let mark = Mark {
                 sys: (*event).start_mark,
-            };
+            }
+            .offset(bom);
             sys::yaml_event_delete(event);
             Ok((ret, mark))
         }
@@ -104,6 +112,7 @@ impl<'input> Parser<'input> {
 unsafe fn convert_event<'input>(
     sys: &sys::yaml_event_t,
     input: &Cow<'input, [u8]>,
+    bom: usize,
 ) -> Event<'input> {
     match sys.type_ {
         sys::YAML_STREAM_START_EVENT => Event::StreamStart,
@@ -128,7 +137,7 @@ unsafe fn convert_event<'input>(
                 sys::YAML_ANY_SCALAR_STYLE | _ => unreachable!(),
             },
             repr: if let Cow::Borrowed(input) = input {
-                Some(&input[sys.start_mark.index as usize..sys.end_mark.index as usize])
+                Some(&input[bom..][sys.start_mark.index as usize..sys.end_mark.index as usize])
             } else {
                 None
             },
-- 
2.43.0


From f831614ec3980b49d89d13c703793fbb27b358d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 07/16] fix: give every anchor definition its own id

The id of an anchor was the number of distinct names so far, so after a
name had been redefined the next definition of another name took the same
id, and aliases of the first read as the second: [&a 1, &a 2, &b 3, *a]
gave 3 for *a.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 6e64172..9cd82e3 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -91,7 +91,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -99,7 +99,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -108,7 +108,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From 507d14b2ce3a34e172fb21bf85f240986784211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 08/16] fix: order equal mapping keys equally whatever order
 they were built in

The comparison that sorts the entries of a mapping looked at the entries
of mapping keys in insertion order, so two equal mappings with mapping
keys could be sorted differently and compare as less or greater.
---
 src/mapping.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..e49e725 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -428,6 +428,11 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    // Equal mappings can have their entries in different order.
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From 36c01ea04620d68fd4edad2b4fc34e82ac2bc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 09/16] fix: apply the merge keys of merged mappings

A mapping merged through << can have a << key of its own, as in a chain
of anchored mappings that extend each other. It was copied into the
surrounding mapping, and stayed there, or was dropped when an earlier
source had left one already.
---
 src/value/mod.rs | 69 +++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..3cef5dd 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -624,41 +624,50 @@ impl Value {
     /// assert_eq!(value["tasks"]["start"]["args"], "start");
     /// ```
     pub fn apply_merge(&mut self) -> Result<(), Error> {
+        // Merges the `<<` key of a single mapping. What is merged may have a
+        // `<<` key too, whose entries come after its own.
+        fn merge_into(mapping: &mut Mapping) -> Result<(), Error> {
+            match mapping.remove("<<") {
+                Some(Value::Mapping(mut merge)) => {
+                    merge_into(&mut merge)?;
+                    for (k, v) in merge {
+                        mapping.entry(k).or_insert(v);
+                    }
+                }
+                Some(Value::Sequence(sequence)) => {
+                    for value in sequence {
+                        match value {
+                            Value::Mapping(mut merge) => {
+                                merge_into(&mut merge)?;
+                                for (k, v) in merge {
+                                    mapping.entry(k).or_insert(v);
+                                }
+                            }
+                            Value::Sequence(_) => {
+                                return Err(error::new(ErrorImpl::SequenceInMergeElement));
+                            }
+                            Value::Tagged(_) => {
+                                return Err(error::new(ErrorImpl::TaggedInMerge));
+                            }
+                            _unexpected => {
+                                return Err(error::new(ErrorImpl::ScalarInMergeElement));
+                            }
+                        }
+                    }
+                }
+                None => {}
+                Some(Value::Tagged(_)) => return Err(error::new(ErrorImpl::TaggedInMerge)),
+                Some(_unexpected) => return Err(error::new(ErrorImpl::ScalarInMerge)),
+            }
+            Ok(())
+        }
+
         let mut stack = Vec::new();
         stack.push(self);
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
-                        Some(Value::Mapping(merge)) => {
-                            for (k, v) in merge {
-                                mapping.entry(k).or_insert(v);
-                            }
-                        }
-                        Some(Value::Sequence(sequence)) => {
-                            for value in sequence {
-                                match value {
-                                    Value::Mapping(merge) => {
-                                        for (k, v) in merge {
-                                            mapping.entry(k).or_insert(v);
-                                        }
-                                    }
-                                    Value::Sequence(_) => {
-                                        return Err(error::new(ErrorImpl::SequenceInMergeElement));
-                                    }
-                                    Value::Tagged(_) => {
-                                        return Err(error::new(ErrorImpl::TaggedInMerge));
-                                    }
-                                    _unexpected => {
-                                        return Err(error::new(ErrorImpl::ScalarInMergeElement));
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                        Some(Value::Tagged(_)) => return Err(error::new(ErrorImpl::TaggedInMerge)),
-                        Some(_unexpected) => return Err(error::new(ErrorImpl::ScalarInMerge)),
-                    }
+                    merge_into(mapping)?;
                     stack.extend(mapping.values_mut());
                 }
                 Value::Sequence(sequence) => stack.extend(sequence),
-- 
2.43.0


From c4596ac610ecf80c05753b98095916f782e0835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 10/16] fix: assigning through a tagged null turns it into a
 mapping, as a bare null does

---
 src/value/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/index.rs b/src/value/index.rs
index 9a886d5..579f975 100644
--- a/src/value/index.rs
+++ b/src/value/index.rs
@@ -88,6 +88,7 @@ where
     I: ?Sized + mapping::Index + ToOwned + Debug,
     Value: From<I::Owned>,
 {
+    v = v.untag_mut();
     if let Value::Null = *v {
         *v = Value::Mapping(Mapping::new());
         return match v {
-- 
2.43.0


From 00dafa6a8e099d540ae28ee0e6f086619ed17d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 11/16] fix: locate errors of optional and newtype nodes at the
 node

A bad !!null scalar read as an Option, and a visitor's own complaint about
an Option or a newtype struct, were reported at the enclosing collection.
---
 src/de.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 87139b9..0f9020d 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1513,7 +1513,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1527,12 +1528,14 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(()) = parse_null(&scalar.value) {
                             false
                         } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
+                            let err = de::Error::invalid_value(Unexpected::Str(v), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         } else {
-                            return Err(de::Error::invalid_value(
+                            let err = de::Error::invalid_value(
                                 Unexpected::Bytes(&scalar.value),
                                 &"null",
-                            ));
+                            );
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
@@ -1547,12 +1550,13 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
             Event::Void => false,
         };
         if is_some {
-            visitor.visit_some(self)
+            visitor.visit_some(&mut *self)
         } else {
             *self.pos += 1;
             self.current_enum = None;
             visitor.visit_none()
         }
+        .map_err(|err| error::fix_mark(err, mark, self.path))
     }
 
     fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
@@ -1602,6 +1606,7 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     {
         let (_event, mark) = self.peek_event_mark()?;
         self.recursion_check(mark, |de| visitor.visit_newtype_struct(de))
+            .map_err(|err| error::fix_mark(err, mark, self.path))
     }
 
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 4045d84992253465d9c4a65112ba7a2e49112a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 12/16] fix: read an empty tuple variant of a Value as an empty
 sequence

---
 src/value/de.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..816840c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -586,16 +586,12 @@ impl<'de> Deserializer<'de> for SeqDeserializer {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
@@ -1097,16 +1093,12 @@ impl<'de> Deserializer<'de> for SeqRefDeserializer<'de> {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
-- 
2.43.0


From 2b28bfed3549ed158d962feb736787c30b089ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 13/16] fix: refuse leftover entries when a struct variant is
 read from a Value

---
 src/value/de.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 816840c..e3be386 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -683,11 +683,18 @@ impl<'de> Deserializer<'de> for MapDeserializer {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
@@ -1189,11 +1196,18 @@ impl<'de> Deserializer<'de> for MapRefDeserializer<'de> {
     type Error = Error;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.as_ref().map_or(0, ExactSizeIterator::len);
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
-- 
2.43.0


From d3cd7a9b94c61ccca0ffc0eddf2b5663269ee1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 14/16] fix: refuse an empty variant name when writing text

---
 src/ser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 5b76190..7bc526c 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -413,6 +413,9 @@ where
     where
         T: ?Sized + ser::Serialize,
     {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -458,6 +461,9 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -494,6 +500,9 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
+        if variant.is_empty() {
+            return Err(error::new(ErrorImpl::EmptyTag));
+        }
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
-- 
2.43.0


From 6b2ef8c9280a78a36bd1e04dc15908705c8ce9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 15/16] fix: let a !!null tag on a quoted scalar make None of
 it, as in a Value

---
 src/de.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 0f9020d..823ab85 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1521,9 +1521,7 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
             }
             Event::Scalar(scalar) => {
                 let tagged_already = self.current_enum.is_some();
-                if scalar.style != ScalarStyle::Plain {
-                    true
-                } else if let (Some(tag), false) = (&scalar.tag, tagged_already) {
+                if let (Some(tag), false) = (&scalar.tag, tagged_already) {
                     if tag == Tag::NULL {
                         if let Some(()) = parse_null(&scalar.value) {
                             false
@@ -1541,7 +1539,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         true
                     }
                 } else {
-                    !scalar.value.is_empty() && parse_null(&scalar.value).is_none()
+                    scalar.style != ScalarStyle::Plain
+                        || !scalar.value.is_empty() && parse_null(&scalar.value).is_none()
                 }
             }
             Event::SequenceStart(_) | Event::MappingStart(_) => true,
-- 
2.43.0


From 3fb77705c11b01ea28ad4bc341f958ea68080f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 16/16] fix: an empty map announced as having one entry is
 written as an empty map

---
 src/ser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 7bc526c..0fc2f5d 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -649,9 +649,7 @@ where
     }
 
     fn end(self) -> Result<()> {
-        if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
-        }
+        self.flush_mapping_start()?;
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
         }
-- 
2.43.0

