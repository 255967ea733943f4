From 4f43247a66833c408f812a39a2815b6f996410e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 01/44] fix: from_reader_strict misses trailing bytes the
 reader has not buffered yet

---
 protocol/bin-prot/src/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..ef977d7 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,15 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
+    // Looking at what is already buffered is not enough, the reader may have more to give
+    let unconsumed = loop {
+        match de.rdr.fill_buf() {
+            Ok(buf) => break buf.len(),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
+    };
+    match unconsumed {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From c5a62a37c268059b36b84b54a012de29524b7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 02/44] fix: floats and polyvar tags are cut short by writers
 that accept part of a buffer

---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From c0933716e0531e1f0812b68e8f25f5919f346638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 03/44] fix: 0x80 is not a valid first byte of an integer

---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From 721c8312d17fcb77e30ade8ddc1e385b293fb2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 04/44] fix: u64 values above i64::MAX can be encoded but not
 decoded

---
 protocol/bin-prot/src/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index ef977d7..1da7aa7 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -175,7 +175,9 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        visitor.visit_u64(self.rdr.bin_read_integer()?)
+        // the inverse of `serialize_u64`, which writes the value as the i64 with the same bits
+        let n: i64 = self.rdr.bin_read_integer()?;
+        visitor.visit_u64(n as u64)
     }
 
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 4a0702b90ad12e5924b4b88457afed4d2890c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 05/44] fix: a corrupt string length makes the reader allocate
 that much or abort

---
 protocol/bin-prot/src/read_ext.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..d276e00 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,14 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // The length is not trusted: the buffer only grows with the bytes that are really there
+        let mut buf = Vec::new();
+        let mut limited = io::Read::take(&mut *self, len);
+        io::Read::read_to_end(&mut limited, &mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 36a16010e138549c83ee455706853781f6e22728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 06/44] fix: loose decoding panics on unknown variants and on
 layout rules it does not support

---
 protocol/bin-prot/src/loose_deserializer.rs    | 18 ++++++++++--------
 protocol/bin-prot/src/value/layout/traverse.rs |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..d016ca9 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,16 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .into_iter()
+                            .find(|s| s.index == i32::from(index))
+                            .ok_or_else(|| Error::Custom {
+                                message: format!("Unknown variant index {index}"),
+                            })?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
@@ -70,7 +72,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => None, // don't know how to handle these yet
                                 }
                             })
                             .ok_or(Error::UnknownPolyvarTag(tag))?;
@@ -134,7 +136,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule = rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..953bbc2 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -56,7 +56,7 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
+                            // left for the driving code to reject
                         }
                         RuleRef::Resolved(payload) => {
                             self.stack.push(*payload.ref_rule);
@@ -79,7 +79,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported, left for the driving code to reject
                 };
                 r
             }
-- 
2.43.0


From 58d730b503326c8f8596503ab1ef683729237674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 07/44] fix: a corrupt list length makes loose decoding
 allocate that many rules or abort

---
 .../bin-prot/src/value/layout/traverse.rs     | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 953bbc2..2409c4c 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,7 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    pub(crate) stack: Vec<(BinProtRule, usize)>, // regular stack to implement the DFS, with how many times a rule repeats
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +31,13 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = match self.stack.last_mut() {
+            Some((rule, n)) if *n > 1 => {
+                *n -= 1;
+                Some(rule.clone())
+            }
+            _ => self.stack.pop().map(|(rule, _)| rule),
+        };
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -42,10 +48,11 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Record(mut rules) => {
                         self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                            .extend(rules.drain(0..).map(|field| (field.field_rule, 1)).rev());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.stack
+                            .extend(rules.drain(0..).map(|rule| (rule, 1)).rev());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -59,7 +66,7 @@ impl Iterator for BinProtRuleIterator {
                             // left for the driving code to reject
                         }
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.stack.push((*payload.ref_rule, 1));
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -91,12 +98,15 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        // n can come from the input, so it must not decide how much memory is used
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
     }
 }
 
@@ -106,7 +116,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 4376d2bf43585b0e27ba35932c065a168dcdd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 08/44] fix: polyvars with a non-ASCII label decode into the
 wrong variant

---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 1da7aa7..92d8c97 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -406,8 +406,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From 881be497370d5e03abbe89dc257d7499221d8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 09/44] fix: Value::Nat0 is not written with the Nat0 encoding

---
 protocol/bin-prot/src/value/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..19e4246 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::integers::nat0;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -16,7 +17,7 @@ impl Serialize for Value {
     {
         match *self {
             Value::Unit => serializer.serialize_unit(),
-            Value::Nat0(v) => v.serialize(serializer),
+            Value::Nat0(v) => nat0::serialize(&v, serializer),
             Value::Bool(b) => serializer.serialize_bool(b),
             Value::String(ref s) => s.serialize(serializer),
             Value::Char(c) => serializer.serialize_char(c as char),
-- 
2.43.0


From 8673765e6288b253e0bd7d4bf15075c2c77dd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 10/44] fix: chars that do not fit into a byte are silently
 written as another char

---
 protocol/bin-prot/src/write_ext.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..b190625 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,10 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let b = u8::try_from(c as u32).map_err(|_| {
+            io::Error::new(io::ErrorKind::InvalidInput, "char is not a single byte")
+        })?;
+        self.write_u8(b)?;
         Ok(1)
     }
 
-- 
2.43.0


From f895475c468bd31f609aa4729a6e57f2a98e58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 11/44] fix: decoding a Value without a layout panics instead
 of failing with an error

---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 92d8c97..d88cc67 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -109,7 +109,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From a30e5dd9ec3c69fa50840473a9450de884060447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 12/44] fix: fields annotated with integers::integer can be
 encoded but not decoded

---
 protocol/bin-prot/src/integers/integer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/integers/integer.rs b/protocol/bin-prot/src/integers/integer.rs
index 3dc26ca..6a977b1 100644
--- a/protocol/bin-prot/src/integers/integer.rs
+++ b/protocol/bin-prot/src/integers/integer.rs
@@ -7,7 +7,7 @@ use core::marker::PhantomData;
 use num::FromPrimitive;
 use std::io::Cursor;
 
-use crate::{ReadBinProtExt, WriteBinProtExt};
+use crate::{error::Error, ReadBinProtExt, WriteBinProtExt};
 use serde::de::{self, Deserializer, Visitor};
 use serde::ser::Serializer;
 
@@ -48,6 +48,13 @@ where
         rdr.bin_read_integer()
             .map_err(|err| de::Error::custom(format!("Failed to read valid integer: {err}")))
     }
+
+    fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
+        T::from_i64(value).ok_or_else(|| de::Error::custom(Error::DestinationIntegerOverflow))
+    }
 }
 
 /// Deserializer for variable length integer
@@ -56,5 +63,5 @@ where
     D: Deserializer<'de>,
     T: FromPrimitive,
 {
-    d.deserialize_bytes(IntegerVisitor::new())
+    d.deserialize_i64(IntegerVisitor::new())
 }
-- 
2.43.0


From 4b10a83c5492bf6857d786278b04b6faaf8ac5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 13/44] fix: polyvar values with a tag below 256 are written as
 a variant index

---
 protocol/bin-prot/src/value/ser.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 19e4246..9b28187 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -4,7 +4,7 @@
 //! Serialization implementation for a BinProt loosely typed Value
 
 use crate::integers::nat0;
-use crate::Value;
+use crate::{Value, WriteBinProtExt};
 
 use serde::ser::{SerializeStruct, SerializeTuple};
 use serde::Serialize;
@@ -52,10 +52,31 @@ impl Serialize for Value {
             } => serializer.serialize_newtype_variant("", *index as u32, "", value), // sum types/enums
             Value::Polyvar {
                 name: _,
-                ref tag,
+                tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => {
+                // always the 4 byte tag, also when it is as small as a variant index
+                let mut t = serializer.serialize_tuple(2)?;
+                t.serialize_element(&PolyvarTag(tag))?;
+                t.serialize_element(value)?;
+                t.end()
+            }
             Value::List(ref v) => v.serialize(serializer),
         }
     }
 }
+
+struct PolyvarTag(u32);
+
+impl Serialize for PolyvarTag {
+    fn serialize<S>(&self, serializer: S) -> std::result::Result<S::Ok, S::Error>
+    where
+        S: ::serde::Serializer,
+    {
+        let mut bytes = Vec::new();
+        bytes
+            .bin_write_polyvar_tag(self.0)
+            .map_err(::serde::ser::Error::custom)?;
+        serializer.serialize_bytes(&bytes)
+    }
+}
-- 
2.43.0


From e4a07374b6ef3fb35ad381a42ab9b1aa4d80c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 14/44] fix: merkle node depth is exact for every node index

The floating point logarithm rounded up for some large indices (e.g. 2^29-2),
which gave a wrong depth and an underflow of the height.
---
 merkle/src/metadata.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..d996867 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -15,9 +15,16 @@ impl MerkleTreeNodeMetadata {
     /// the node's index in the merkle tree, index of root node is 0
     /// the tree height does not count data/leaf nodes
     pub fn new(node_index: usize, tree_height: u32) -> Self {
-        let depth = depth::<2>(node_index);
-        let height = height::<2>(node_index, tree_height);
-        Self { depth, height }
+        Self::from_depth(depth(node_index), tree_height)
+    }
+
+    /// Creates a new instance of [MerkleTreeNodeMetadata] with
+    /// the node's distance to the root node
+    pub(crate) fn from_depth(depth: u32, tree_height: u32) -> Self {
+        Self {
+            depth,
+            height: tree_height - depth,
+        }
     }
 
     /// distance to the root node
@@ -31,10 +38,8 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
-}
-
-fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-    height - depth::<DEGREE>(index)
+/// Distance of a node to the root node, in integer arithmetic because
+/// floating point logarithms are off by one for large indices
+pub(crate) fn depth(index: usize) -> u32 {
+    index.checked_add(1).map_or(usize::BITS, usize::ilog2)
 }
-- 
2.43.0


From b862e99b362812a82e5af31b7557283e08a119a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 15/44] fix: adding a leaf invalidates every cached ancestor
 hash

Invalidation stopped at the first ancestor without a cached hash, but a merger
may return None for an empty subtree, so that the root kept its stale hash.
---
 merkle/src/tree_impl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..30e799d 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -177,12 +177,10 @@ where
     fn clear_dirty_hashes(&mut self, leaf_index: usize) {
         let mut parent = leaf_index;
         while parent > 0 {
+            // an ancestor can be cached even when a node below it is not,
+            // because the merger may return None for that node
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From 86956d757121b3c49f74b7f6533fbb8bd24a1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 16/44] fix: merkle tree nodes are hashed with their position
 in the whole tree

In a fixed height tree the depth was taken from the variable height part, and
in a variable height tree leaf hashes cached before the tree grew were reused
with a stale depth, so that roots and proofs disagreed for hashers that use it.
---
 merkle/src/tree_impl.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 30e799d..f98d84e 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -184,6 +184,17 @@ where
         }
     }
 
+    /// Metadata of a node in the tree of the full height, given its index
+    /// in the tree of the variable height
+    fn node_metadata(&self, index: usize) -> MerkleTreeNodeMetadata {
+        let height = self.mode.fixed_height().unwrap_or(self.variable_height);
+        let depth_above = height.saturating_sub(self.variable_height);
+        MerkleTreeNodeMetadata::from_depth(
+            depth_above + depth(index),
+            depth_above + self.variable_height,
+        )
+    }
+
     /// Calucates hash of a node if it's not available in the node cache
     /// either apply hash algorithm if it's a leaf node
     /// or apply merge algorithm if it's a non-leaf node
@@ -199,21 +210,19 @@ where
                 let right_hash = self.calculate_hash_if_needed(right);
                 let hash = Merger::merge(
                     [left_hash, right_hash],
-                    MerkleTreeNodeMetadata::new(index, self.variable_height),
+                    self.node_metadata(index),
                 );
                 self.nodes[index] = hash.clone();
                 hash
             }
         } else {
             let leaf_index = index - self.nodes.len();
+            let metadata = self.node_metadata(index);
             if leaf_index < self.leafs.len() {
                 let (data, hash) = &mut self.leafs[leaf_index];
                 match hash {
                     None => {
-                        let node_hash = Some(Hasher::hash(
-                            data,
-                            MerkleTreeNodeMetadata::new(index, self.variable_height),
-                        ));
+                        let node_hash = Some(Hasher::hash(data, metadata));
                         *hash = node_hash.clone();
                         node_hash
                     }
@@ -284,7 +293,10 @@ where
             Ordering::Equal => hash,
             Ordering::Greater => {
                 for h in (self.variable_height + 1)..=fixed_height {
-                    hash = Merger::merge([hash, None], MerkleTreeNodeMetadata::new(0, h));
+                    hash = Merger::merge(
+                        [hash, None],
+                        MerkleTreeNodeMetadata::from_depth(fixed_height - h, fixed_height),
+                    );
                 }
                 hash
             }
@@ -341,6 +353,12 @@ fn add_batch<Item, Hash, Hasher, Merger, Mode>(
         let new_node_count = calculate_node_count(new_height);
         tree.variable_height = new_height;
         tree.nodes = vec![None; new_node_count];
+        if tree.mode.fixed_height().is_none() {
+            // leaves have moved further away from the root
+            for (_, hash) in tree.leafs.iter_mut() {
+                *hash = None;
+            }
+        }
     } else {
         let start = tree.nodes.len() + tree.leafs.len();
         for i in start..(start + leaves.len()) {
-- 
2.43.0


From 5528d21d92c43e41c437947e1e4acf508274e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 17/44] fix: get_proof does not panic on a tree with a single
 leaf

calculate_parent_index underflowed for the only data node of the variable
height tree.
---
 merkle/src/tree_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index f98d84e..d95b8c4 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -102,6 +102,7 @@ where
 
     /// Gets the merkle proof of an item with the 0-based index of the item
     /// being added, e.g. the first item is index 0.
+    /// Returns None when there is no root hash, or the tree has no node above its data.
     /// This function panics when the index is out of range.
     pub fn get_proof(
         &mut self,
@@ -115,6 +116,9 @@ where
             } else {
                 self.variable_height
             };
+            if height_above == 0 {
+                return None;
+            }
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +137,8 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // (0 as well when that tree only consists of the data node)
+            let mut parent_index = (self.nodes.len() + index).saturating_sub(1) / 2;
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 537766ca14ba6ee210e96a2cbe0d65305aceee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 18/44] fix: malformed merkle proofs are rejected

root_hash panicked when the lists of siblings had different lengths or did not
match the depth of the index, and took a right child for a left one when the
sibling index belonged to the next pair.
---
 merkle/src/proof.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..a53d7ef 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // a data node has one sibling per level on its way to the root
+            if self.peer_indices.len() != self.peer_hashes.len()
+                || self.peer_indices.len() != depth(self.index) as usize
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +162,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // nodes of odd indices are left children
+    if index % 2 == 1 && Some(sibling_index) == index.checked_add(1) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && Some(sibling_index) == index.checked_sub(1) {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From e178aa0e3fba1dcbbcab2073a3bb179997939fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 19/44] fix: MerklePath::to_proof fails on empty and oversized
 paths

Both come from deserialized input and made it panic.
---
 merkle/src/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..fa126be 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,11 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        anyhow::ensure!(!self.0.is_empty(), "Invalid path, no node found");
+        anyhow::ensure!(
+            self.0.len() < usize::BITS as usize,
+            "Invalid path, too many nodes"
+        );
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From c71d8ab6e31e50212c6b7c63631995264a1c4056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 20/44] fix: numbers that are no field element are rejected,
 not a panic

A decimal at or above the modulus (or beyond 256 bits) in JSON made FpJson and
fp_from_radix_10 panic.
---
 proof-systems-shim/src/fp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..d4b88ee 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,9 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| <D::Error as serde::de::Error>::custom("not a field element"))?;
+        Ok(Self(fp))
     }
 }
 
@@ -42,8 +44,8 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    Fp::from_repr(big256).ok_or_else(|| anyhow::Error::msg("not a field element"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From e04e9bc9e2cc5328774c002f0486b89d5ebababd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 21/44] fix: fork choice: extreme heights, epochs, densities
 and a zero epoch length must not overflow or divide by zero

---
 consensus/src/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..fc0f415 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0, |sum: u32, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 045b72447064f01e2a8ed63b7df9b8a2b25bdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 22/44] fix: account permission Both requires a signature in
 the hashed form, it collided with Proof

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..1bcbd83 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,7 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary = matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 5354402674faf8a577c0a72e4eab35ee2c27fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:25 +0000
Subject: [PATCH 23/44] fix: a command whose signer is not a curve point fails
 verification instead of panicking

---
 base/src/user_commands/signed_command/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..6e26aee 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,15 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string. It fails when the compressed
+        // signer is not a point of the curve, no signature is valid then
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From 2c965696c7ac26ede20744c9148beabcd8699d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 24/44] fix: refuse numbers that are no field element instead
 of panicking in Field::from_str_radix

---
 crypto/src/hash/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/hash/types.rs b/crypto/src/hash/types.rs
index d0f03f5..f875e1b 100644
--- a/crypto/src/hash/types.rs
+++ b/crypto/src/hash/types.rs
@@ -10,7 +10,7 @@
 //! Depending on the type of hash a different byte prefix is used in the human readable form
 //!
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use mina_serialization_types::{impl_strconv_via_json, json::*, v1::*};
 use num::{BigUint, Num};
 use proof_systems::{
@@ -28,7 +28,9 @@ impl Field {
     pub fn from_str_radix(s: &str, radix: u32) -> anyhow::Result<Self> {
         let big = BigUint::from_str_radix(s, radix)?;
         let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
-        Ok(Self::from(&Fp::from(big256)))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| anyhow::Error::msg("not a canonical field element"))?;
+        Ok(Self::from(&fp))
     }
 }
 
-- 
2.43.0


From d2305ec04e2bdb989d172f4352b765850740bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 25/44] fix: refuse decimal amounts that are out of range or
 have more than nine decimals

---
 base/src/numbers.rs                        | 10 +++++++++-
 protocol/serialization-types/src/common.rs | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..a5f9dfc 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,10 +143,18 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        // an amount has no more than 9 decimals, and the fraction has no sign of its own
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+            MINA_PRECISION
+                .checked_mul(q)
+                .and_then(|n| n.checked_add(r))
+                .map(Amount)
+                .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))
         } else {
             Err(Self::Err::ErrorInvalidFormat(s.to_string()))
         }
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..8acc4c6 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,12 +119,24 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        // an amount has no more than 9 decimals, and the fraction has no sign of its own
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
+            MINA_PRECISION
+                .checked_mul(q)
+                .and_then(|n| n.checked_add(r))
+                .map(Self)
+                .ok_or_else(|| {
+                    <D::Error as serde::de::Error>::custom(format!("Out of range: {s}"))
+                })
         } else {
             Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-- 
2.43.0


From fb8a7641621b99240e3581c70ba0869f8885a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 26/44] fix: read the incrementNonce permission from its own
 field of the GraphQL json

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 1bcbd83..ba407b6 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From b1063514c89a7e376d530d9fe06f4f23591a99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 27/44] fix: do not panic on the text of a memo that is shorter
 than its length byte

---
 base/src/user_commands/memo.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..131ff33 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,10 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        // a memo that was received can be shorter than its length byte says
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text = self.0.get(2..).unwrap_or_default();
+        String::from_utf8_lossy(&text[..len.min(text.len())]).into()
     }
 }
 
-- 
2.43.0


From 88fda06471ee27d2621eca54bb609e26f4b85b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 28/44] fix: refuse hex field elements of another length than
 32 bytes instead of panicking

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..c9a4e82 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -139,8 +139,9 @@ impl FieldElementJson {
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
         let bytes = hex::decode(s)?;
-        let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        let b32 = bytes
+            .try_into()
+            .map_err(|_| hex::FromHexError::InvalidStringLength)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From e61a8a5dd8ef80930ae1d89b902ddeefcde3a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 29/44] fix: refuse list tagged enum json of the wrong shape
 instead of panicking

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From 7bf55702ceacbfb2370b69d2864d9fe9f0ef40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:02 +0000
Subject: [PATCH 30/44] fix: no undefined behaviour or panic on json strings of
 bytes that are not UTF-8 or empty

---
 protocol/serialization-types/src/common.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 8acc4c6..3cacfc6 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -134,9 +134,7 @@ impl<'de> Deserialize<'de> for DecimalJson {
                 .checked_mul(q)
                 .and_then(|n| n.checked_add(r))
                 .map(Self)
-                .ok_or_else(|| {
-                    <D::Error as serde::de::Error>::custom(format!("Out of range: {s}"))
-                })
+                .ok_or_else(|| <D::Error as serde::de::Error>::custom(format!("Out of range: {s}")))
         } else {
             Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
@@ -203,8 +201,7 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
-        serializer.serialize_str(&s)
+        serializer.serialize_str(&String::from_utf8_lossy(&[self.0]))
     }
 }
 
@@ -214,7 +211,11 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        let b =
+            s.as_bytes().first().copied().ok_or_else(|| {
+                <D::Error as serde::de::Error>::custom("Non-empty string expected")
+            })?;
+        Ok(b.into())
     }
 }
 
@@ -237,8 +238,7 @@ impl Serialize for ByteVecJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(self.0.clone()) };
-        serializer.serialize_str(&s)
+        serializer.serialize_str(&String::from_utf8_lossy(&self.0))
     }
 }
 
-- 
2.43.0


From cbe01fcaa7ed773dcfe7336ac04e424072d375f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 31/44] fix: refuse public keys and signatures that are no
 canonical field elements when decoding, converting them panicked

---
 .../serialization-types/src/signatures.rs     | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/protocol/serialization-types/src/signatures.rs b/protocol/serialization-types/src/signatures.rs
index 261817b..b5180b3 100644
--- a/protocol/serialization-types/src/signatures.rs
+++ b/protocol/serialization-types/src/signatures.rs
@@ -16,6 +16,7 @@ use versioned::Versioned;
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
 pub struct CompressedCurvePoint {
     /// The x coordinate of the EC point
+    #[serde(deserialize_with = "canonical::base_field")]
     pub x: FieldElement,
     /// If the point is odd (or even)
     pub is_odd: bool,
@@ -70,7 +71,10 @@ pub struct PublicKey2V1(pub Versioned<PublicKeyV1, 1>); // with an extra version
 
 /// Signature (v1)
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
-pub struct SignatureV1(pub Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>);
+pub struct SignatureV1(
+    #[serde(deserialize_with = "canonical::signature")]
+    pub  Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>,
+);
 
 /// Signature (json)
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -100,10 +104,40 @@ impl<'de> Deserialize<'de> for SignatureJson {
             .with_check(Some(version_bytes::SIGNATURE))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(
+        let t: Versioned<(FieldElement, InnerCurveScalar), 1> =
             bin_prot::from_reader_strict(&bytes[1..])
-                .map_err(<D::Error as serde::de::Error>::custom)?,
-        ))
+                .map_err(<D::Error as serde::de::Error>::custom)?;
+        canonical::check_signature(&t.t)?;
+        Ok(Self(t))
+    }
+}
+
+/// Public keys and signatures that are received have to hold canonical field elements,
+/// only those can be converted into the corresponding mina_signer types
+mod canonical {
+    use super::*;
+    use proof_systems::mina_signer::{BaseField, ScalarField};
+    use proof_systems::o1_utils::field_helpers::FieldHelpers;
+    use serde::de::Error;
+
+    pub fn base_field<'de, D: Deserializer<'de>>(d: D) -> Result<FieldElement, D::Error> {
+        let x = FieldElement::deserialize(d)?;
+        BaseField::from_bytes(&x).map_err(D::Error::custom)?;
+        Ok(x)
+    }
+
+    pub fn check_signature<E: Error>(t: &(FieldElement, InnerCurveScalar)) -> Result<(), E> {
+        BaseField::from_bytes(&t.0).map_err(E::custom)?;
+        ScalarField::from_bytes(&t.1).map_err(E::custom)?;
+        Ok(())
+    }
+
+    pub fn signature<'de, D: Deserializer<'de>>(
+        d: D,
+    ) -> Result<Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>, D::Error> {
+        let v = Versioned::<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>::deserialize(d)?;
+        check_signature(&v.t.t)?;
+        Ok(v)
     }
 }
 
-- 
2.43.0


From f769187098dcc7db4c9de59aae932e073abbabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 32/44] fix: refuse json chars that are not a single byte
 instead of taking the first byte

---
 protocol/serialization-types/src/common.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 3cacfc6..b44aa1e 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -211,11 +211,12 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        let b =
-            s.as_bytes().first().copied().ok_or_else(|| {
-                <D::Error as serde::de::Error>::custom("Non-empty string expected")
-            })?;
-        Ok(b.into())
+        match s.as_bytes() {
+            [b] => Ok((*b).into()),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Not a single byte: {s}"
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From a051e4bb0381f94ec9f78ab22d06f2865d527b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:39 +0000
Subject: [PATCH 33/44] fix: a wallet with a nonce of another length or an
 empty secret gives an error, not a panic

---
 secrets/src/secret_box/types_impls.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..0092ece 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -5,7 +5,7 @@ use super::{constants::*, utils::*, *};
 use argon2::{self, password_hash::SaltString, Argon2, ParamsBuilder, PasswordHasher};
 use xsalsa20poly1305::{
     aead::{generic_array::GenericArray, Aead},
-    KeyInit, XSalsa20Poly1305,
+    KeyInit, XSalsa20Poly1305, NONCE_SIZE,
 };
 
 impl TryFrom<SecretBoxJson> for SecretBox {
@@ -112,12 +112,21 @@ impl SecretBox {
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
+        if self.nonce.len() != NONCE_SIZE {
+            return Err(Error::AeadError(format!(
+                "Invalid nonce length: {}",
+                self.nonce.len()
+            )));
+        }
         let mut bytes = cipher
             .decrypt(
                 GenericArray::from_slice(self.nonce.as_slice()),
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty plaintext".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From 9d2dae42b0f3d1a40b1ac4734ab7713a1e10976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:39 +0000
Subject: [PATCH 34/44] fix: wallet password hash limits that do not fit are
 refused instead of cut down to 32 bits

---
 secrets/src/secret_box/types_impls.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 0092ece..b9a5b01 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,9 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: u32::try_from(json.pwdiff[1]).map_err(|e| {
+                Error::Argon2Error(format!("Invalid ops limit {}: {}", json.pwdiff[1], e))
+            })?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
@@ -86,7 +88,10 @@ impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(
+                u32::try_from(self.pw_mem_limit_bytes / 1024)
+                    .map_err(|_| argon2::Error::MemoryTooMuch)?,
+            )?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From 5020c9eeafa5ae8cad4badbeb36249f70bf1f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:39 +0000
Subject: [PATCH 35/44] fix: a genesis ledger reports a read error instead of
 ending before it

---
 ledger/src/rocksdb_genesis_ledger.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..d048cf3 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -80,7 +80,8 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
                 if let Ok((k, _)) = r {
                     k.first() == Some(&ACCOUNT_PREFIX)
                 } else {
-                    false
+                    // a read error is not the end of the ledger, it has to reach the caller
+                    true
                 }
             }); // Ensures the iterator stops when the prefix stops matching
 
-- 
2.43.0


From c1ad7d504b32e25328bf208d8eff06435f38a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:39 +0000
Subject: [PATCH 36/44] fix: a frontier with a block of height 0 takes further
 blocks by fork choice

---
 network/src/processor/naive_transition_frontier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/processor/naive_transition_frontier.rs b/network/src/processor/naive_transition_frontier.rs
index e904c8e..5495e8c 100644
--- a/network/src/processor/naive_transition_frontier.rs
+++ b/network/src/processor/naive_transition_frontier.rs
@@ -110,7 +110,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolStateLegacy, MerkleP
     async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
         let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
         anyhow::ensure!(block.verify(&mut ctx), "block verification failure");
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block.protocol_state)?;
         } else {
             let candidate_chains = vec![ProtocolStateChain(vec![block.protocol_state])];
@@ -170,7 +170,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolState, MerkleProofBe
         // TODO: Block verification
         let ProtocolStateWithSparseMerkleLedger(block, proofs) = block;
         let state_hash_of_new_block = block.state_hash_fp();
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block)?;
             self.sparse_merkle_ledger = proofs;
         } else {
-- 
2.43.0


From 652ea37afe0e11a0505b84fd24601c932cb45a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 37/44] fix: the web nodes report a failed GraphQL request as
 an error instead of panicking

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 18 ++++++++---------
 apps/wasm/mvp/src/payment.rs              | 24 +++++++++++------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 92c57ca..5c5ddf4 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -86,9 +86,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
 
@@ -109,9 +109,9 @@ pub async fn unlock_account(
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
 
@@ -128,8 +128,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9086659..90e482d 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -86,9 +86,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
 
@@ -106,9 +106,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
 
@@ -125,9 +125,9 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
 
@@ -144,8 +144,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(err_to_js_error)?;
+    let resp_text = res.text().await.map_err(err_to_js_error)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(err_to_js_error)?;
     Ok(resp.to_string())
 }
-- 
2.43.0


From 0084e6f96359061812c9efc44267ae1cc039ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 38/44] fix: texts are escaped in the GraphQL requests of the
 web nodes

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 12 ++++++------
 apps/wasm/mina-berkeley/src/utils.rs      |  5 +++++
 apps/wasm/mvp/src/payment.rs              | 16 ++++++++--------
 apps/wasm/mvp/src/utils.rs                |  5 +++++
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 5c5ddf4..604afa6 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -77,9 +77,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post(endpoint)
@@ -101,8 +101,8 @@ pub async fn unlock_account(
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_string(&pub_key), graphql_string(&password)
     );
     let res = client
         .post(endpoint)
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/utils.rs b/apps/wasm/mina-berkeley/src/utils.rs
index 49ad2e1..3d9a202 100644
--- a/apps/wasm/mina-berkeley/src/utils.rs
+++ b/apps/wasm/mina-berkeley/src/utils.rs
@@ -10,6 +10,11 @@ pub fn err_to_js_error<T: Display>(err: T) -> JsError {
     JsError::new(err.to_string().as_str())
 }
 
+/// Quotes a text as a GraphQL string, whose escapes are a superset of those of JSON
+pub(crate) fn graphql_string(text: &str) -> String {
+    serde_json::Value::from(text).to_string()
+}
+
 pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 90e482d..55f41e8 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -77,9 +77,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "query MyQuery {{  
-            account(publicKey: \"{}\") {{ balance {{ total }} inferredNonce locked  }}
+            account(publicKey: {}) {{ balance {{ total }} inferredNonce locked  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -97,9 +97,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -117,8 +117,8 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_string(&pub_key), graphql_string(&password)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -136,8 +136,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
     );
     let res = client
         .post("http://localhost:3085/graphql")
diff --git a/apps/wasm/mvp/src/utils.rs b/apps/wasm/mvp/src/utils.rs
index 97e6689..88f0fe4 100644
--- a/apps/wasm/mvp/src/utils.rs
+++ b/apps/wasm/mvp/src/utils.rs
@@ -30,6 +30,11 @@ export type UInt32 = number | bigint | string;
 export type UInt64 = number | bigint | string;
 "#;
 
+/// Quotes a text as a GraphQL string, whose escapes are a superset of those of JSON
+pub(crate) fn graphql_string(text: &str) -> String {
+    serde_json::Value::from(text).to_string()
+}
+
 pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
-- 
2.43.0


From b67505b2a180be529dcf2ee9c74d34fdf8a53af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 39/44] fix: sendPayment of the web nodes passes on nonce, memo
 and validUntil

---
 apps/wasm/mina-berkeley/src/js_exports.rs |  4 +--
 apps/wasm/mina-berkeley/src/payment.rs    | 40 ++++++++++++++++-----
 apps/wasm/mvp/src/payment.rs              | 44 +++++++++++++++++------
 3 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 604afa6..f4a6f5c 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}{}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from()), payment.optional_fields()?
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/payment.rs b/apps/wasm/mina-berkeley/src/payment.rs
index 1c2bc1a..c7e64b3 100644
--- a/apps/wasm/mina-berkeley/src/payment.rs
+++ b/apps/wasm/mina-berkeley/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,17 +57,39 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        js_to_option_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
+        js_to_option_u32(&self.valid_until())
+    }
+
+    /// The optional settings of a payment as fields of its GraphQL input
+    pub(crate) fn optional_fields(&self) -> Result<String, JsError> {
+        let mut fields = String::new();
+        if let Some(nonce) = self.nonce_u32()? {
+            fields.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            fields.push_str(&format!(", memo: {}", graphql_string(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(fields)
+    }
+}
+
+fn js_to_option_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        Ok(None)
+    } else {
+        let s = js_to_string(v);
+        if s.is_empty() {
             Ok(None)
         } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+            Ok(Some(s.parse().map_err(map_js_err)?))
         }
     }
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 55f41e8..70b2536 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,17 +57,39 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        js_to_option_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
+        js_to_option_u32(&self.valid_until())
+    }
+
+    /// The optional settings of a payment as fields of its GraphQL input
+    fn optional_fields(&self) -> Result<String, JsError> {
+        let mut fields = String::new();
+        if let Some(nonce) = self.nonce_u32()? {
+            fields.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            fields.push_str(&format!(", memo: {}", graphql_string(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            fields.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(fields)
+    }
+}
+
+fn js_to_option_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        Ok(None)
+    } else {
+        let s = js_to_string(v);
+        if s.is_empty() {
             Ok(None)
         } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+            Ok(Some(s.parse().map_err(map_js_err)?))
         }
     }
 }
@@ -136,8 +158,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from())
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}{}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_string(&payment.to()), graphql_string(&payment.from()), payment.optional_fields()?
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From 2dd4238a46e79ca8f648ea3d70d337869c29bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 40/44] fix: setApiList and setTrackingAccounts report a value
 that is no string instead of panicking

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index f4a6f5c..ec1487b 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -17,8 +17,14 @@ pub async fn run_processor() {
 pub async fn set_api_list(api_urls: Array) -> Result<bool, JsError> {
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
     let api_vec = api_urls.to_vec();
-    let api_list = api_vec.iter().map(|url| url.as_string().unwrap());
-    backend.set_api_list(api_list);
+    let api_list = api_vec
+        .iter()
+        .map(|url| {
+            url.as_string()
+                .ok_or_else(|| JsError::new("An api url is not a string"))
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+    backend.set_api_list(api_list.into_iter());
     Ok(true)
 }
 
@@ -26,8 +32,14 @@ pub async fn set_api_list(api_urls: Array) -> Result<bool, JsError> {
 pub async fn set_tracking_accounts(accounts: Array) -> Result<bool, JsError> {
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
     let acc_vec = accounts.to_vec();
-    let account_list = acc_vec.iter().map(|acc| acc.as_string().unwrap());
-    backend.set_tracking_accounts(account_list);
+    let account_list = acc_vec
+        .iter()
+        .map(|acc| {
+            acc.as_string()
+                .ok_or_else(|| JsError::new("An account is not a string"))
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+    backend.set_tracking_accounts(account_list.into_iter());
     Ok(true)
 }
 
-- 
2.43.0


From 42f31171141b50eea2870052123ffcfb67dc9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 41/44] fix: the node status stream of the web node ends with
 the stream instead of reading on for ever

---
 apps/wasm/mvp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 225db0a..fe10650 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -155,6 +155,8 @@ impl RequestResponseCodec for NodeStatusCodec {
         loop {
             let mut line = String::new();
             match reader.read_line(&mut line).await {
+                // end of the stream
+                Ok(0) => break,
                 Ok(n) => {
                     let line = line.trim();
                     if !line.is_empty() {
-- 
2.43.0


From 52f9d7bd43e8bed31266ca00729e823a67f16460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 42/44] fix: connect of the web node reports a bad address or a
 failed dial instead of panicking or claiming success

---
 apps/wasm/mvp/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index fe10650..fe228a6 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -34,7 +34,7 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         builder.build()?
     };
 
-    let parsed_addr: Multiaddr = request.address.parse().unwrap();
+    let parsed_addr: Multiaddr = request.address.parse()?;
     log::info!(
         "[WASM] Connecting to proxy server via ws {} ... ",
         request.address
@@ -58,13 +58,14 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
                 }
             }
         }
-        Err(e) => log::error!("[WASM] Fail to dail: {}", e),
+        Err(e) => {
+            log::error!("[WASM] Fail to dail: {}", e);
+            let mut r = CommonResponse::new();
+            r.success = false;
+            r.error_message = e.to_string();
+            Ok(r)
+        }
     }
-    Ok({
-        let mut r = CommonResponse::new();
-        r.success = true;
-        r
-    })
 }
 
 #[derive(NetworkBehaviour)]
-- 
2.43.0


From ecd9efdabb08ba637070460dae97285afedbb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 43/44] fix: a failing endpoint does not keep the berkeley
 backend from asking the others

---
 .../src/processor/js/graphql_api_berkeley.rs  | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/network/src/processor/js/graphql_api_berkeley.rs b/network/src/processor/js/graphql_api_berkeley.rs
index b4c4a02..0e25d83 100644
--- a/network/src/processor/js/graphql_api_berkeley.rs
+++ b/network/src/processor/js/graphql_api_berkeley.rs
@@ -63,15 +63,18 @@ impl NonConsensusGraphQLBerkeleyBackend {
 
     /// Poll latest blocks once
     pub async fn poll_latest_once(&self) -> anyhow::Result<()> {
+        let mut result = Ok(());
         if let Some(block_responder) = &self.block_responder {
             let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
             for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
+                match fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await {
+                    Ok(block_json) => block_responder.send(block_json).await?,
+                    // Go on with the other endpoints, and report the first failure
+                    Err(err) => result = result.and(Err(err)),
+                }
             }
         }
-        Ok(())
+        result
     }
 }
 
@@ -84,15 +87,7 @@ impl NonConsensusNetworkingOps for NonConsensusGraphQLBerkeleyBackend {
     }
 
     async fn query_block(&mut self, _request: &QueryBlockRequest) -> anyhow::Result<()> {
-        if let Some(block_responder) = &self.block_responder {
-            let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
-            for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
-            }
-        }
-        Ok(())
+        self.poll_latest_once().await
     }
 }
 
-- 
2.43.0


From 2e8cf9a497a37f41da86150aff7f7a6d0166784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 44/44] fix: the 64 bit integers of a block that is fetched
 through javascript are not rounded

---
 network/js/graphql_v1_utils.js | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/network/js/graphql_v1_utils.js b/network/js/graphql_v1_utils.js
index 76d8ab1..bd37384 100644
--- a/network/js/graphql_v1_utils.js
+++ b/network/js/graphql_v1_utils.js
@@ -17,21 +17,24 @@ async function retry(func, nRetry = 3) {
     throw exc
 }
 
-async function fetch_block_json_inner(height, stateHash, network) {
+async function fetch_block_json_str_inner(height, stateHash, network) {
     const url = `https://storage.googleapis.com/mina_network_block_data/${network}-${height}-${stateHash}.json`
     const response = await fetch(url)
-    return await response.json()
+    const text = await response.text()
+    // Throws and retries when the response is not json. The text itself is returned as its
+    // 64 bit integers do not fit into the numbers of javascript
+    JSON.parse(text)
+    return text
 }
 
 async function fetch_block_json(height, stateHash, network = 'mainnet') {
-    return retry(async function () {
-        return await fetch_block_json_inner(height, stateHash, network)
-    });
+    return JSON.parse(await fetch_block_json_str(height, stateHash, network))
 }
 
 async function fetch_block_json_str(height, stateHash, network = 'mainnet') {
-    const json = await fetch_block_json(height, stateHash, network)
-    return JSON.stringify(json)
+    return retry(async function () {
+        return await fetch_block_json_str_inner(height, stateHash, network)
+    });
 }
 
 async function query_latest_blocks_json_inner(limit) {
-- 
2.43.0

