From 7aab317d82a4191a76d09c1bf2d8fbdd32d4284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 01/23] fix: reject out-of-range integers when deserializing
 instead of wrapping around

A U64 event above i64::MAX wrapped to a negative number in i64/isize sinks (and u64 to
signed of other widths), and a negative I64 event wrapped to a huge number in u64/usize.
---
 deser/src/de/impls.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..777f6f0 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -74,6 +74,10 @@ impl Sink for SlotWrapper<String> {
 }
 deserialize!(String);
 
+fn out_of_range() -> Error {
+    Error::new(ErrorKind::OutOfRange, "value out of range for type")
+}
+
 macro_rules! int_sink {
     ($ty:ty) => {
         impl Sink for SlotWrapper<$ty> {
@@ -87,28 +91,12 @@ macro_rules! int_sink {
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
                     Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
-                            Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
-                        }
+                        **self = Some(<$ty>::try_from(value).map_err(|_| out_of_range())?);
+                        Ok(())
                     }
                     Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
-                            Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
-                        }
+                        **self = Some(<$ty>::try_from(value).map_err(|_| out_of_range())?);
+                        Ok(())
                     }
                     other => self.unexpected_atom(other, state),
                 }
-- 
2.43.0


From aa5f5929ef42c52a39f752337b6ad3c7c5b72707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 02/23] fix: HashMap sink accepts maps

The sink did not implement map() and so every HashMap failed to deserialize.
---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 777f6f0..a6a8c9e 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -376,6 +376,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 00f30cca08d99c1b492da3083b9bbeb1ea7c9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 03/23] fix: forward finish, value_for_key and expecting
 through Option sinks

Option<T> silently became None for every T whose sink delivers its value in finish
(vectors, maps, structs, arrays, tuples, boxes).
---
 deser/src/de/impls.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index a6a8c9e..4f73e49 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -520,7 +520,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                has_value: false,
+            }),
         }
     }
 
@@ -531,21 +534,28 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set once the wrapped sink received something; it must only be finished then.
+    has_value: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.has_value = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.has_value = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.has_value = true;
         self.sink.seq(state)
     }
 
@@ -557,9 +567,31 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        let rv = self.sink.value_for_key(key, state)?;
+        self.has_value |= rv.is_some();
+        Ok(rv)
+    }
+
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.has_value {
+            self.sink.finish(state)
+        } else {
+            Ok(())
+        }
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
+
+    fn expecting(&self) -> std::borrow::Cow<'_, str> {
+        self.sink.expecting()
+    }
 }
 
 macro_rules! deserialize_for_tuple {
-- 
2.43.0


From b9d3bb9d2fb8470527d2cfbe21aa058909f764cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 04/23] fix: deser-json rejects trailing commas and missing map
 values

[1,] and [1,} ran into unreachable!() and {"a":} was accepted.
---
 deser-json/src/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..24dbfbb 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,10 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(
+                        stack.pop(),
+                        Some(ContainerState::Map { key_pos: true, .. })
+                    ) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
@@ -142,7 +145,9 @@ impl<'a> Deserializer<'a> {
                         Token::Colon => {
                             return Err(Error::new(ErrorKind::Unexpected, "unexpected colon"));
                         }
-                        Token::SeqEnd | Token::MapEnd => unreachable!(),
+                        Token::SeqEnd | Token::MapEnd => {
+                            return Err(Error::new(ErrorKind::Unexpected, "trailing comma"));
+                        }
                     }
                 }
             }
-- 
2.43.0


From b158c8e0e0a765c4262f297cf28c319611e3ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 05/23] fix: deser-json does not overflow on an exponent of
 i32::MIN

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 24dbfbb..cf00293 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -614,7 +614,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.unsigned_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From 91c3f3b04a48be9aac4035b5bfd4b8bf321eeeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 06/23] fix: deser-json rejects strings that are not valid
 UTF-8

Deserializer::new takes arbitrary bytes but created str values from them unchecked.
---
 deser-json/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index cf00293..490b9d6 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -204,10 +204,10 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The input is an arbitrary byte slice.
+            str::from_utf8(bytes)
+                .map_err(|_| Error::new(ErrorKind::Unexpected, "invalid UTF-8 in string"))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -231,11 +231,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From ca85ed6449150b6de260cfd7275a8028bd695c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 07/23] fix: deser-json serializes chars as themselves

A char was written as a string with its decimal code point, which does not deserialize
back into the same char.
---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From c35df057d652f00f8aa746cd676078019c9bc646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 08/23] fix: forward finish, is_optional and descriptor through
 references, Box and Option

Serializables behind a reference, Box or Option never had finish called and lost their
descriptor; a reference to None or () no longer counted as optional.
---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..1f899af 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -395,16 +402,52 @@ impl<'a, T: Serialize> Serialize for &'a T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        (**self).finish(state)
+    }
+
+    fn is_optional(&self) -> bool {
+        (**self).is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        (**self).descriptor()
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        (**self).finish(state)
+    }
+
+    fn is_optional(&self) -> bool {
+        (**self).is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        (**self).descriptor()
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        (**self).finish(state)
+    }
+
+    fn is_optional(&self) -> bool {
+        (**self).is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        (**self).descriptor()
+    }
 }
-- 
2.43.0


From f9de1e30b136e7480b4f035b58ee788f44f6e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 09/23] fix: SerializeDriver drops emitters and serializables
 in inverse order of creation

An abandoned driver dropped all emitters first, also those that serializables still on the
stack borrow from.
---
 deser/src/ser/driver.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..b5df037 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,20 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // drop in inverse order.  There is one state for every serializable, and a
+        // serializable can borrow from the emitter that is below it on the stack.
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::SeqEmitterAdvance
+                | DriverState::MapEmitterNextKey
+                | DriverState::MapEmitterNextValue
+                | DriverState::StructEmitterAdvance
+                | DriverState::PopEmitter => {
+                    self.emitter_stack.pop();
+                }
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From 7b69bc75185debbe81d90e3a0a271d6d7448239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 10/23] fix: DeserializeDriver drops the current sink before
 the sinks it borrows from

---
 deser/src/de/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..0b5aada 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -139,6 +139,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // the current sink can borrow from the top of the stack
+        self.current_sink.take();
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From 072aae8857a61c9575d393d2c27f4e452371953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 11/23] fix: DeserializeDriver pops the descriptor also when
 finishing a container fails

The sink is dropped in that case and the descriptor that was left behind borrows from it.
---
 deser/src/de/driver.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 0b5aada..7b94a61 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -106,8 +106,10 @@ impl<'a> DeserializeDriver<'a> {
             }
             Event::MapEnd => match self.sink_stack.pop() {
                 Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
+                    let rv = map_sink.finish(&self.state);
+                    // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
+                    rv?;
                     self.current_sink = Some(map_sink);
                 }
                 _ => panic!("not inside a MapSink"),
@@ -125,8 +127,10 @@ impl<'a> DeserializeDriver<'a> {
             }
             Event::SeqEnd => match self.sink_stack.pop() {
                 Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
+                    let rv = seq_sink.finish(&self.state);
+                    // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
+                    rv?;
                     self.current_sink = Some(seq_sink);
                 }
                 _ => panic!("not inside a SeqSink"),
-- 
2.43.0


From 689839448b781b630215a3bf1cb49b504a790993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 12/23] fix: deser-path restores the path when a container ends
 and forgets previous keys

The segment pushed for a container was never popped, so everything after a nested
container had a wrong path, and a key that is no string or integer left the path of the
previous value in place.
---
 deser-path/src/de.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..635dab9 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -18,6 +18,7 @@ pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
     set_segment: Option<PathSegment>,
+    pushed: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -32,6 +33,7 @@ impl<'a> PathSink<'a> {
             sink,
             container: Container::None,
             set_segment: None,
+            pushed: false,
         }
     }
 
@@ -59,6 +61,7 @@ impl<'a> Sink for PathSink<'a> {
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Map(Rc::default());
         self.sink.map(state)
     }
@@ -66,6 +69,7 @@ impl<'a> Sink for PathSink<'a> {
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed = true;
         self.container = Container::Seq(0);
         self.sink.seq(state)
     }
@@ -79,6 +83,7 @@ impl<'a> Sink for PathSink<'a> {
                     _ => unreachable!(),
                 },
                 set_segment: None,
+                pushed: false,
             })
         })
     }
@@ -86,7 +91,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
@@ -98,11 +108,16 @@ impl<'a> Sink for PathSink<'a> {
                 sink,
                 container: Container::None,
                 set_segment,
+                pushed: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.pushed {
+            self.pushed = false;
+            state.get_mut::<Path>().segments.pop();
+        }
         self.sink.finish(state)
     }
 
-- 
2.43.0


From 482f70c9c6a7e3a49c8f43d43d9ecfce95d6f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 13/23] fix: deser-path serializables keep the descriptor of
 what they wrap

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..275dd46 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -42,6 +42,14 @@ impl<'a> Serialize for PathSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct PathStructEmitter<'a> {
@@ -147,6 +155,14 @@ impl<'a> Serialize for SegmentPushingSerializable<'a> {
         path.segments.pop();
         Ok(())
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct SegmentCollectingSerializable<'a> {
@@ -172,4 +188,12 @@ impl<'a> Serialize for SegmentCollectingSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
-- 
2.43.0


From dfe3c9cc3a577d174fe827410c19fa5da46d5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 14/23] fix: DeserializeDriver drops a sink before calling into
 the one it borrows from

---
 deser/src/de/driver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 7b94a61..f98382f 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -61,6 +61,8 @@ impl<'a> DeserializeDriver<'a> {
     fn update_current_sink(&mut self) -> Result<(), Error> {
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
+                // the previous sink borrows from the map sink and has to go first
+                self.current_sink.take();
                 let next_sink = if *is_key {
                     map_sink.next_key(&self.state)?
                 } else {
@@ -70,6 +72,8 @@ impl<'a> DeserializeDriver<'a> {
                 self.current_sink = Some(unsafe { extend_lifetime!(next_sink, SinkHandle<'_>) });
             }
             Some((seq_sink, Layer::Seq)) => {
+                // the previous sink borrows from the seq sink and has to go first
+                self.current_sink.take();
                 self.current_sink = Some(unsafe {
                     extend_lifetime!(seq_sink.next_value(&self.state)?, SinkHandle<'_>)
                 });
@@ -106,6 +110,7 @@ impl<'a> DeserializeDriver<'a> {
             }
             Event::MapEnd => match self.sink_stack.pop() {
                 Some((mut map_sink, Layer::Map(_))) => {
+                    self.current_sink.take();
                     let rv = map_sink.finish(&self.state);
                     // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
@@ -127,6 +132,7 @@ impl<'a> DeserializeDriver<'a> {
             }
             Event::SeqEnd => match self.sink_stack.pop() {
                 Some((mut seq_sink, Layer::Seq)) => {
+                    self.current_sink.take();
                     let rv = seq_sink.finish(&self.state);
                     // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
-- 
2.43.0


From 8d9cf35ee203c29c347b3bed663d592986df702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 15/23] fix: a mismatched end event does not release the outer
 sink before the inner one

---
 deser/src/de/driver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index f98382f..b0ba3f4 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -108,9 +108,10 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
+            Event::MapEnd => match self.sink_stack.last() {
+                Some((_, Layer::Map(_))) => {
                     self.current_sink.take();
+                    let (mut map_sink, _) = self.sink_stack.pop().unwrap();
                     let rv = map_sink.finish(&self.state);
                     // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
@@ -130,9 +131,10 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
+            Event::SeqEnd => match self.sink_stack.last() {
+                Some((_, Layer::Seq)) => {
                     self.current_sink.take();
+                    let (mut seq_sink, _) = self.sink_stack.pop().unwrap();
                     let rv = seq_sink.finish(&self.state);
                     // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
-- 
2.43.0


From 73844d080fe8a92edd90cffb4357097204758074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 16/23] fix: a container default also applies to missing
 optional fields

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..d1edba1 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -70,7 +70,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From 755a5dd8e5693ec7cd6258d6922dc54493a64dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 17/23] fix: camelCase renaming of fields with leading
 underscores starts lowercase

---
 deser-derive/src/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..cf4455c 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -195,7 +195,7 @@ impl<'a> ContainerAttrs<'a> {
                     let mut capitalize = false;
                     for ch in name.chars() {
                         if ch == '_' {
-                            capitalize = true;
+                            capitalize = !camel.is_empty();
                         } else if capitalize {
                             camel.push(ch.to_ascii_uppercase());
                             capitalize = false;
-- 
2.43.0


From f568c4cbe313873bfb4cde71428c0d540fb55893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 18/23] fix: debug formatting into a failing writer returns the
 error instead of looping

---
 deser-debug/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..eb4340d 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,7 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    rest = inner.rest()?;
                 }
                 map.finish()?;
             }
@@ -107,7 +107,7 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    rest = inner.rest()?;
                 }
                 list.finish()?;
             }
@@ -121,6 +121,18 @@ fn dump<'a, 'f>(
 
 struct Helper<'a>(&'a [(Event<'a>, Option<String>)], AtomicUsize);
 
+impl<'a> Helper<'a> {
+    /// Returns the tokens left over after formatting.
+    ///
+    /// If nothing was consumed the formatting failed.
+    fn rest(&self) -> Result<&'a [(Event<'a>, Option<String>)], fmt::Error> {
+        match self.1.load(atomic::Ordering::Relaxed) {
+            0 => Err(fmt::Error),
+            consumed => Ok(&self.0[consumed..]),
+        }
+    }
+}
+
 impl<'a> fmt::Debug for Helper<'a> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let new = dump(self.0, f)?;
-- 
2.43.0


From 32a87f25950745406af8811861fb9d47f67699ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 19/23] fix: missing fields whose absent value serialization
 leaves out can be read back

---
 deser-derive/src/de.rs |  4 ++++
 deser/src/de/impls.rs  | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index d1edba1..90e5b65 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -483,6 +483,10 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                         sink: ::deser::de::OwnedSink::deserialize(),
                     })
                 }
+
+                fn __private_initial_value() -> ::deser::__derive::Option<Self> {
+                    ::deser::de::Deserialize::__private_initial_value().map(#ident)
+                }
             }
 
             impl #wrapper_impl_generics ::deser::de::Sink for __Sink #wrapper_ty_generics #bounded_where_clause {
diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 4f73e49..9992b88 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -36,7 +36,16 @@ impl Sink for SlotWrapper<()> {
         }
     }
 }
-deserialize!(());
+
+impl Deserialize for () {
+    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
+        SlotWrapper::make_handle(out)
+    }
+
+    fn __private_initial_value() -> Option<Self> {
+        Some(())
+    }
+}
 
 impl Sink for SlotWrapper<bool> {
     fn descriptor(&self) -> &dyn Descriptor {
@@ -840,4 +849,8 @@ impl<T: Deserialize> Deserialize for Box<T> {
             sink: OwnedSink::deserialize(),
         })
     }
+
+    fn __private_initial_value() -> Option<Self> {
+        T::__private_initial_value().map(Box::new)
+    }
 }
-- 
2.43.0


From c0d9dc54c27b985fcf05f1f7ce967c9244ac7cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 20/23] fix: descriptors of active sinks are copied as the sink
 can replace them

---
 deser/src/de/driver.rs   | 18 +++++++-----------
 deser/src/de/mod.rs      |  9 ++++++---
 deser/src/descriptors.rs | 31 +++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index b0ba3f4..2751b17 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -1,7 +1,8 @@
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 
 use crate::de::{Deserialize, DeserializerState, SinkHandle};
-use crate::descriptors::Descriptor;
+use crate::descriptors::OwnedDescriptor;
 use crate::error::Error;
 use crate::event::Event;
 use crate::extensions::Extensions;
@@ -37,6 +38,7 @@ impl<'a> DeserializeDriver<'a> {
             state: DeserializerState {
                 extensions: Extensions::default(),
                 descriptor_stack: Vec::with_capacity(STACK_CAPACITY),
+                _marker: PhantomData,
             },
             sink_stack: ManuallyDrop::new(Vec::with_capacity(STACK_CAPACITY)),
             current_sink: Some(unsafe { extend_lifetime!(sink, SinkHandle<'_>) }),
@@ -100,10 +102,8 @@ impl<'a> DeserializeDriver<'a> {
             Event::MapStart => {
                 let current_sink = current_sink!();
                 current_sink.map(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor = OwnedDescriptor::new(current_sink.descriptor());
+                self.state.descriptor_stack.push(descriptor);
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
@@ -113,7 +113,6 @@ impl<'a> DeserializeDriver<'a> {
                     self.current_sink.take();
                     let (mut map_sink, _) = self.sink_stack.pop().unwrap();
                     let rv = map_sink.finish(&self.state);
-                    // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
                     rv?;
                     self.current_sink = Some(map_sink);
@@ -123,10 +122,8 @@ impl<'a> DeserializeDriver<'a> {
             Event::SeqStart => {
                 let current_sink = current_sink!();
                 current_sink.seq(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor = OwnedDescriptor::new(current_sink.descriptor());
+                self.state.descriptor_stack.push(descriptor);
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
@@ -136,7 +133,6 @@ impl<'a> DeserializeDriver<'a> {
                     self.current_sink.take();
                     let (mut seq_sink, _) = self.sink_stack.pop().unwrap();
                     let rv = seq_sink.finish(&self.state);
-                    // the descriptor borrows from the sink, it must not outlive it.
                     self.state.descriptor_stack.pop();
                     rv?;
                     self.current_sink = Some(seq_sink);
diff --git a/deser/src/de/mod.rs b/deser/src/de/mod.rs
index 935a3bc..44ac8d0 100644
--- a/deser/src/de/mod.rs
+++ b/deser/src/de/mod.rs
@@ -194,9 +194,10 @@
 use std::borrow::Cow;
 use std::cell::{Ref, RefMut};
 use std::fmt;
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 
-use crate::descriptors::{Descriptor, NullDescriptor};
+use crate::descriptors::{Descriptor, NullDescriptor, OwnedDescriptor};
 use crate::error::{Error, ErrorKind};
 use crate::event::Atom;
 
@@ -279,7 +280,9 @@ impl<'a> SinkHandle<'a> {
 /// Gives access to the deserializer state.
 pub struct DeserializerState<'a> {
     extensions: Extensions,
-    descriptor_stack: Vec<&'a dyn Descriptor>,
+    // these are copies as a sink can change its descriptor while it is active.
+    descriptor_stack: Vec<OwnedDescriptor>,
+    _marker: PhantomData<&'a ()>,
 }
 
 impl<'a> DeserializerState<'a> {
@@ -302,7 +305,7 @@ impl<'a> DeserializerState<'a> {
     ///
     /// This descriptor always points to a container as the descriptor.
     pub fn top_descriptor(&self) -> Option<&dyn Descriptor> {
-        self.descriptor_stack.last().copied()
+        self.descriptor_stack.last().map(|x| x as &dyn Descriptor)
     }
 }
 
diff --git a/deser/src/descriptors.rs b/deser/src/descriptors.rs
index 58660f2..e297ce2 100644
--- a/deser/src/descriptors.rs
+++ b/deser/src/descriptors.rs
@@ -52,6 +52,37 @@ pub trait Descriptor {
     }
 }
 
+/// A copy of what another descriptor says.
+pub(crate) struct OwnedDescriptor {
+    name: Option<String>,
+    precision: Option<usize>,
+    unordered: bool,
+}
+
+impl OwnedDescriptor {
+    pub(crate) fn new(descriptor: &dyn Descriptor) -> OwnedDescriptor {
+        OwnedDescriptor {
+            name: descriptor.name().map(Into::into),
+            precision: descriptor.precision(),
+            unordered: descriptor.unordered(),
+        }
+    }
+}
+
+impl Descriptor for OwnedDescriptor {
+    fn name(&self) -> Option<&str> {
+        self.name.as_deref()
+    }
+
+    fn precision(&self) -> Option<usize> {
+        self.precision
+    }
+
+    fn unordered(&self) -> bool {
+        self.unordered
+    }
+}
+
 impl Descriptor for NullDescriptor {}
 
 impl Descriptor for NamedDescriptor {
-- 
2.43.0


From 93933f53639cce256efde13ae1f5a1b640adb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 21/23] fix: an owned sink gives up the sink that refers to the
 value taken from it

---
 deser/src/de/owned.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..1ea5082 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -89,6 +89,8 @@ impl<T: ?Sized> Drop for NonuniqueBox<T> {
 pub struct OwnedSink<T> {
     storage: NonuniqueBox<Option<T>>,
     sink: ManuallyDrop<SinkHandle<'static>>,
+    // set when the value was taken and with it the sink that refers to it.
+    taken: bool,
 }
 
 impl<T: Deserialize> OwnedSink<T> {
@@ -98,14 +100,20 @@ impl<T: Deserialize> OwnedSink<T> {
     /// into a slot contained within the owned sink.  To extract the final
     /// value use [`take`](Self::take).
     pub fn deserialize() -> OwnedSink<T> {
-        let mut storage = NonuniqueBox::new(None);
+        let mut rv = OwnedSink {
+            storage: NonuniqueBox::new(None),
+            sink: ManuallyDrop::new(SinkHandle::null()),
+            taken: false,
+        };
+        rv.begin();
+        rv
+    }
+
+    /// Starts over with a new sink.
+    fn begin(&mut self) {
         unsafe {
-            let ptr = transmute::<_, &mut Option<T>>(&mut *storage);
-            let sink = extend_lifetime!(T::deserialize_into(ptr), SinkHandle<'_>);
-            OwnedSink {
-                storage,
-                sink: ManuallyDrop::new(extend_lifetime!(sink, SinkHandle<'_>)),
-            }
+            let ptr = transmute::<_, &mut Option<T>>(&mut *self.storage);
+            *self.sink = extend_lifetime!(T::deserialize_into(ptr), SinkHandle<'_>);
         }
     }
 
@@ -118,11 +126,22 @@ impl<T: Deserialize> OwnedSink<T> {
     /// Mutably borrows from the owned sink.
     #[allow(clippy::should_implement_trait)]
     pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
+        if std::mem::take(&mut self.taken) {
+            self.begin();
+        }
         unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
     }
 
     /// Takes the value produced by the sink.
+    ///
+    /// Once a value was taken the deserialization begins anew.
     pub fn take(&mut self) -> Option<T> {
+        if self.storage.is_some() {
+            // the sink can refer to the insides of the value, it must not be
+            // used any more once the value is gone.
+            *self.sink = SinkHandle::null();
+            self.taken = true;
+        }
         self.storage.take()
     }
 }
-- 
2.43.0


From ad7b83d34b7adf9e18abb2054162fa450e399dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 22/23] fix: the sink of a deserialize driver has to outlive
 the driver

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 2751b17..2ae425a 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -33,7 +33,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From a0156c30b690626f057011713c3d08d50a28e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 23/23] fix: the sink in an owned sink cannot be replaced by
 one that lives shorter

---
 deser/src/de/owned.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1ea5082..c80352c 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -2,7 +2,7 @@ use std::mem::{transmute, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
 use std::ptr::NonNull;
 
-use crate::de::{Deserialize, SinkHandle};
+use crate::de::{Deserialize, Sink, SinkHandle};
 
 struct NonuniqueBox<T: ?Sized> {
     ptr: NonNull<T>,
@@ -125,11 +125,13 @@ impl<T: Deserialize> OwnedSink<T> {
 
     /// Mutably borrows from the owned sink.
     #[allow(clippy::should_implement_trait)]
-    pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
+    pub fn borrow_mut(&mut self) -> &mut (dyn Sink + '_) {
         if std::mem::take(&mut self.taken) {
             self.begin();
         }
-        unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
+        // this is not the handle as it could be replaced with one to a sink that
+        // does not live as long as the owned sink.
+        &mut **self.sink
     }
 
     /// Takes the value produced by the sink.
-- 
2.43.0

