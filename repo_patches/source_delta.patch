From f9960b6a2ae6ccdd24879cc041441071f0b7fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 01/30] fix: refuse to finalize a type system with unresolved
 inner types

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From 13ceeaa42d896e92d915fb3af796ce524b578cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 02/30] fix: iterate over all 255 components of a type without
 overflow

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From 11eeb4acc5f29a1c92959b6ff36ba153ed01f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 03/30] fix: keep every qualified name of a type defined by
 several libraries

---
 src/typesys/symbols.rs   | 11 +++++++++--
 src/typesys/translate.rs |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index c931e79..0f22e52 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -21,7 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Display, Formatter};
 use std::ops::Index;
 
@@ -124,13 +124,20 @@ impl SymbolicSys {
     pub(crate) fn with(
         libs: impl IntoIterator<Item = Dependency>,
         types: BTreeMap<SemId, SymTy>,
+        names: BTreeSet<TypeSymbol>,
     ) -> Result<Self, translate::Error> {
         let mut sys = TypeSystem::new();
         let mut sym = Symbols::with(libs)?;
 
         for (sem_id, info) in types {
             sys.insert_unchecked(sem_id, info.ty)?;
-            sym.update_unchecked(sem_id, info.orig)?;
+            if info.orig.is_none() {
+                sym.update_unchecked(sem_id, None)?;
+            }
+        }
+        // the same type may be known under several names
+        for name in names {
+            sym.update_unchecked(name.id, name.fqn)?;
         }
 
         Ok(Self {
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..5106a6d 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -93,6 +93,7 @@ pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
     types: BTreeMap<SemId, SymTy>,
+    symbols: BTreeSet<TypeSymbol>,
 }
 
 impl SystemBuilder {
@@ -108,6 +109,7 @@ impl SystemBuilder {
         for (ty_name, ty) in lib.types {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
+            self.symbols.insert(TypeSymbol::named(id, lib.name.clone(), ty_name.clone()));
             let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
             self.types.insert(id, info);
         }
@@ -136,7 +138,7 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        SymbolicSys::with(self.imported_deps, self.types, self.symbols).map_err(|err| vec![err])
     }
 
     #[allow(clippy::multiple_bound_locations)]
-- 
2.43.0


From 27736af3bb2de37d3c402c2e8db0a2e4f9919cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 04/30] fix: keep numbers within the range of their primitive
 type

---
 src/value/encode.rs | 22 ++---------
 src/value/typify.rs | 93 +++++++++++++++++++++++++++------------------
 2 files changed, 60 insertions(+), 55 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..132767c 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -31,7 +31,7 @@ use encoding::{
 };
 
 use crate::typify::TypedVal;
-use crate::value::{EnumTag, StrictNum};
+use crate::value::EnumTag;
 use crate::{SemId, StrictVal, Ty, TypeSystem};
 
 #[derive(Clone, Debug)]
@@ -113,25 +113,9 @@ impl TypeSystem {
                 debug_assert_eq!(*prim, Primitive::UNIT);
                 // Do nothing
             }
-            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim)) => {
+            (StrictVal::Number(num), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
-            }
-            (StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim)) => {
-                let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
-            }
-            (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim)) => {
-                let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
-            }
-            (StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim)) => {
-                let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                writer.write_all(&num.to_ext_bytes()[0..bytes_count])?;
             }
 
             (StrictVal::String(s), Ty::UnicodeChar) => {
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..19b4b1a 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -25,6 +25,7 @@
 
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
+use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
@@ -112,18 +113,54 @@ pub enum Error {
     InvalidOptional(StrictVal),
 }
 
-trait PrimitiveValue {
-    fn is_small_unsigned(&self) -> bool;
-    fn is_large_unsigned(&self) -> bool;
-    fn is_small_signed(&self) -> bool;
-    fn is_large_signed(&self) -> bool;
-}
+impl StrictNum {
+    /// Number of bytes required to represent the largest supported number, plus the sign.
+    const EXT: usize = 129;
+
+    /// Sign-extended little-endian representation.
+    pub(super) fn to_ext_bytes(self) -> [u8; Self::EXT] {
+        let (data, signed) = match self {
+            StrictNum::Uint(n) => (n.to_le_bytes().to_vec(), false),
+            StrictNum::BigUint(n) => (n.to_le_bytes().to_vec(), false),
+            StrictNum::Int(n) => (n.to_le_bytes().to_vec(), true),
+            StrictNum::BigInt(n) => (n.to_le_bytes().to_vec(), true),
+        };
+        let negative = signed && data[data.len() - 1] >= 0x80;
+        let mut ext = [if negative { 0xFF } else { 0x00 }; Self::EXT];
+        ext[..data.len()].copy_from_slice(&data);
+        ext
+    }
 
-impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    /// Reads little-endian bytes of an integer of a given primitive type. Returns `None` for
+    /// primitives which are not integers, or do not fit 1024 bits.
+    pub(super) fn from_le_slice(data: &[u8], prim: Primitive) -> Option<StrictNum> {
+        let signed = match prim.into_code() {
+            0x01..=0x40 => false,
+            0x41..=0x7F => true,
+            _ => return None,
+        };
+        let size = prim.byte_size() as usize;
+        if !(1..Self::EXT).contains(&size) || data.len() != size {
+            return None;
+        }
+        let mut buf = [if signed && data[size - 1] >= 0x80 { 0xFF } else { 0x00 }; 128];
+        buf[..size].copy_from_slice(data);
+        let mut small = [0u8; 8];
+        small.copy_from_slice(&buf[..8]);
+        Some(match (signed, size <= 8) {
+            (false, true) => StrictNum::Uint(u64::from_le_bytes(small)),
+            (true, true) => StrictNum::Int(i64::from_le_bytes(small)),
+            (false, false) => StrictNum::BigUint(u1024::from_le_bytes(buf)),
+            (true, false) => StrictNum::BigInt(i1024::from_le_bytes(buf)),
+        })
+    }
+
+    /// Converts the number to the canonical form for a given primitive type, if it is in range.
+    pub(super) fn fit(self, prim: Primitive) -> Option<StrictNum> {
+        let ext = self.to_ext_bytes();
+        let num = Self::from_le_slice(ext.get(..prim.byte_size() as usize)?, prim)?;
+        (num.to_ext_bytes() == ext).then_some(num)
+    }
 }
 
 impl SymbolicSys {
@@ -170,31 +207,15 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
-            {
-                val
-            }
-            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
-            {
-                StrictVal::Number(StrictNum::Int(val as i64))
-            }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
-            {
-                val
-            }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
-            {
-                val
-            }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
-                if prim.is_large_signed() =>
-            {
-                val
-            }
+            (StrictVal::Number(num), Ty::Primitive(prim)) => match num.fit(*prim) {
+                Some(num) => StrictVal::Number(num),
+                None => {
+                    return Err(Error::TypeMismatch {
+                        value: StrictVal::Number(num),
+                        expected: ty.clone(),
+                    });
+                }
+            },
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-- 
2.43.0


From e57ad6f8a9aca670af4587a17651b3db897dcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 05/30] fix: avoid overflow of restricted string bounds

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From eebefd682c74ef93d0599e47bdba159ff02ad936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 06/30] fix: check values against all type requirements and
 keep them in the canonical form

---
 src/value/typify.rs | 291 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 265 insertions(+), 26 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 19b4b1a..ac8f0ef 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,6 +23,8 @@
 
 //! Checks strict values against provied strict type specification.
 
+use std::cmp::Ordering;
+
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::num::{i1024, u1024};
@@ -31,7 +33,7 @@ use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
 
 use super::{Blob, StrictVal};
-use crate::ast::EnumVariants;
+use crate::ast::{EnumVariants, UnnamedFields};
 use crate::typesys::{SymbolicSys, TypeFqn, TypeSymbol};
 use crate::value::{EnumTag, StrictNum};
 use crate::{SemId, Ty, TypeRef, TypeSystem};
@@ -163,6 +165,86 @@ impl StrictNum {
     }
 }
 
+/// Text formats do not distinguish between lists, sets, tuples, maps and unions: brings the value
+/// to the shape which is required by the type.
+fn reshape(val: StrictVal, ty: &Ty<SemId>) -> StrictVal {
+    let pair = |tag: EnumTag, content: StrictVal| {
+        let tag = match tag {
+            EnumTag::Name(name) => StrictVal::str(name),
+            EnumTag::Ord(ord) => StrictVal::num(ord),
+        };
+        vec![tag, content]
+    };
+    let val = match (val, ty) {
+        (StrictVal::Union(tag, content), Ty::Array(..) | Ty::List(..) | Ty::Set(..)) => {
+            StrictVal::List(pair(tag, *content))
+        }
+        (StrictVal::Union(tag, content), Ty::Tuple(fields)) if fields.len() == 2 => {
+            StrictVal::List(pair(tag, *content))
+        }
+        (val, _) => val,
+    };
+    match (val, ty) {
+        (StrictVal::List(s), Ty::Array(id, _) | Ty::List(id, _)) if id.is_byte() => {
+            let bytes = s.iter().map(|item| match item {
+                StrictVal::Number(num) => match num.fit(Primitive::U8) {
+                    Some(StrictNum::Uint(byte)) => Some(byte as u8),
+                    _ => None,
+                },
+                _ => None,
+            });
+            match bytes.collect::<Option<Vec<_>>>() {
+                Some(bytes) => StrictVal::Bytes(Blob(bytes)),
+                None => StrictVal::List(s),
+            }
+        }
+        (StrictVal::List(s), Ty::List(id, _)) if id.is_unicode_char() => {
+            let chars = s.iter().map(|item| match item {
+                StrictVal::String(c) if c.chars().count() == 1 => Some(c.as_str()),
+                _ => None,
+            });
+            match chars.collect::<Option<String>>() {
+                Some(string) => StrictVal::String(string),
+                None => StrictVal::List(s),
+            }
+        }
+        (StrictVal::List(s), Ty::Set(..)) => StrictVal::Set(s),
+        (StrictVal::List(s), Ty::Map(..))
+            if s.iter().all(|item| match item {
+                StrictVal::Union(..) => true,
+                StrictVal::List(pair) => pair.len() == 2,
+                _ => false,
+            }) =>
+        {
+            let mut new = Vec::with_capacity(s.len());
+            for item in s {
+                let mut pair = match item {
+                    StrictVal::Union(tag, content) => pair(tag, *content),
+                    StrictVal::List(pair) => pair,
+                    _ => unreachable!("checked above"),
+                };
+                let val = pair.pop().expect("two elements");
+                let key = pair.pop().expect("two elements");
+                new.push((key, val));
+            }
+            StrictVal::Map(new)
+        }
+        (StrictVal::List(mut s), Ty::Union(variants)) if s.len() == 2 => {
+            let tag = match &s[0] {
+                StrictVal::String(tag) => VariantName::try_from(tag.clone()).ok(),
+                _ => None,
+            };
+            match tag {
+                Some(tag) if variants.ty_by_name(&tag).is_some() => {
+                    StrictVal::union(tag, s.pop().expect("two elements"))
+                }
+                _ => StrictVal::List(s),
+            }
+        }
+        (val, _) => val,
+    }
+}
+
 impl SymbolicSys {
     pub fn typify(&self, val: StrictVal, spec: impl Into<TypeSpec>) -> Result<TypedVal, Error> {
         let spec = spec.into();
@@ -176,6 +258,105 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    fn char_enum(&self, sem_id: SemId) -> Option<&EnumVariants> {
+        match self.find(sem_id) {
+            Some(ty @ Ty::Enum(variants)) if ty.is_char_enum() => Some(variants),
+            _ => None,
+        }
+    }
+
+    /// Checks that all characters of the string belong to the character enum type.
+    fn is_char_string(&self, s: &[u8], sem_id: SemId) -> bool {
+        self.char_enum(sem_id).is_some_and(|chars| s.iter().all(|c| chars.has_tag(*c)))
+    }
+
+    /// Checks that the string matches requirements of the restricted string type.
+    fn is_restricted_string(&self, s: &str, fields: &UnnamedFields<SemId>) -> bool {
+        let Ok(Some((rest, sizing))) = self.rstring_sizing(fields) else {
+            return false;
+        };
+        let s = s.as_bytes();
+        !s.is_empty()
+            && sizing.check(s.len())
+            && self.is_char_string(&s[..1], fields[0])
+            && self.is_char_string(&s[1..], rest)
+    }
+
+    /// Composes string out of the typed characters, if the type is a character enum.
+    fn char_string(&self, items: &[StrictVal], sem_id: SemId) -> Option<String> {
+        let chars = self.char_enum(sem_id)?;
+        items
+            .iter()
+            .map(|item| match item {
+                StrictVal::Enum(EnumTag::Name(name)) => chars.tag_by_name(name).map(char::from),
+                _ => None,
+            })
+            .collect()
+    }
+
+    /// Composes restricted string out of the first character and the rest of the string.
+    fn restricted_string(
+        &self,
+        items: &[StrictVal],
+        fields: &UnnamedFields<SemId>,
+    ) -> Option<String> {
+        let [first, StrictVal::String(rest)] = items else {
+            return None;
+        };
+        let s = self.char_string(std::slice::from_ref(first), fields[0])? + rest;
+        self.is_restricted_string(&s, fields).then_some(s)
+    }
+
+    /// Compares two typed values of the same type in the canonical order, which is the one used by
+    /// the native types.
+    fn cmp_typed(&self, sem_id: SemId, a: &StrictVal, b: &StrictVal) -> Ordering {
+        let seq = |id: SemId, a: &[StrictVal], b: &[StrictVal]| {
+            let iter = a.iter().zip(b).map(|(a, b)| self.cmp_typed(id, a, b));
+            iter.fold(Ordering::Equal, Ordering::then).then(a.len().cmp(&b.len()))
+        };
+        match (a, b, self.find(sem_id)) {
+            (StrictVal::Number(a), StrictVal::Number(b), _) => a.cmp(b),
+            (StrictVal::String(a), StrictVal::String(b), _) => a.cmp(b),
+            (StrictVal::Bytes(a), StrictVal::Bytes(b), _) => a.cmp(b),
+            (
+                StrictVal::Enum(EnumTag::Name(a)),
+                StrictVal::Enum(EnumTag::Name(b)),
+                Some(Ty::Enum(variants)),
+            ) => variants.tag_by_name(a).cmp(&variants.tag_by_name(b)),
+            (
+                StrictVal::Union(EnumTag::Name(a), x),
+                StrictVal::Union(EnumTag::Name(b), y),
+                Some(Ty::Union(variants)),
+            ) => match (variants.by_name(a), variants.by_name(b)) {
+                (Some((a, ty)), Some((b, _))) => {
+                    a.tag.cmp(&b.tag).then_with(|| self.cmp_typed(*ty, x, y))
+                }
+                _ => Ordering::Equal,
+            },
+            (StrictVal::Tuple(a), StrictVal::Tuple(b), Some(Ty::Tuple(fields))) => {
+                let iter = a.iter().zip(b).zip(fields);
+                iter.map(|((a, b), id)| self.cmp_typed(*id, a, b))
+                    .fold(Ordering::Equal, Ordering::then)
+            }
+            (StrictVal::Struct(a), StrictVal::Struct(b), Some(Ty::Struct(fields))) => {
+                let iter = fields.iter().map(|field| match (a.get(&field.name), b.get(&field.name)) {
+                    (Some(a), Some(b)) => self.cmp_typed(field.ty, a, b),
+                    _ => Ordering::Equal,
+                });
+                iter.fold(Ordering::Equal, Ordering::then)
+            }
+            (StrictVal::List(a), StrictVal::List(b), Some(Ty::Array(id, _) | Ty::List(id, _)))
+            | (StrictVal::Set(a), StrictVal::Set(b), Some(Ty::Set(id, _))) => seq(*id, a, b),
+            (StrictVal::Map(a), StrictVal::Map(b), Some(Ty::Map(key, val, _))) => {
+                let iter = a.iter().zip(b).map(|((k1, v1), (k2, v2))| {
+                    self.cmp_typed(*key, k1, k2).then_with(|| self.cmp_typed(*val, v1, v2))
+                });
+                iter.fold(Ordering::Equal, Ordering::then).then(a.len().cmp(&b.len()))
+            }
+            _ => Ordering::Equal,
+        }
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -183,7 +364,7 @@ impl TypeSystem {
         } else {
             self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?
         };
-        let val = match (val, ty) {
+        let val = match (reshape(val, ty), ty) {
             // Primitive direct matches:
             (val @ StrictVal::Unit, Ty::Primitive(prim)) if *prim == Primitive::UNIT => val,
             (StrictVal::Tuple(fields), Ty::Primitive(prim))
@@ -219,19 +400,21 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(id, len))
+                if !id.is_byte() && s.chars().count() != *len as usize =>
+            {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -249,25 +432,39 @@ impl TypeSystem {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
 
-            // Ascii or other sub-byte character
-            (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
-            }
             // Unicode character
-            (StrictVal::String(s), ty @ Ty::UnicodeChar)
-                if ty.is_unicode_char() && s.len() == 1 =>
-            {
+            (StrictVal::String(s), Ty::UnicodeChar) if s.chars().count() == 1 => {
                 StrictVal::String(s)
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
-                StrictVal::String(s)
+            (StrictVal::String(s), Ty::Array(id, _)) if id.is_byte() => {
+                StrictVal::Bytes(Blob(s.into_bytes()))
+            }
+            (StrictVal::String(s), Ty::Array(id, _)) if id.is_unicode_char() => {
+                StrictVal::list(s.chars().map(|c| StrictVal::str(c)))
+            }
+            (StrictVal::String(s), Ty::Array(id, _)) if self.is_char_string(s.as_bytes(), *id) => {
+                let mut new = Vec::with_capacity(s.len());
+                for c in s.bytes() {
+                    let checked = self.typify(StrictVal::enumer(c), *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
+            (StrictVal::String(s), Ty::Tuple(fields))
+                if fields.len() == 2 && self.is_restricted_string(&s, fields) =>
+            {
                 /* Invalid: we need to preserve string structure
                 let first = fields.first().expect("checked length");
                 let rest = fields.last().expect("checked length");
@@ -285,7 +482,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
+            (StrictVal::String(s), Ty::List(id, _)) if self.is_char_string(s.as_bytes(), *id) => {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
@@ -295,7 +492,10 @@ impl TypeSystem {
                     let checked = self.typify(item, *id)?;
                     new.push(checked.val);
                 }
-                StrictVal::List(new)
+                match self.char_string(&new, *id) {
+                    Some(s) => StrictVal::String(s),
+                    None => StrictVal::List(new),
+                }
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
@@ -306,6 +506,7 @@ impl TypeSystem {
                     }
                     new.push(checked.val);
                 }
+                new.sort_by(|a, b| self.cmp_typed(*id, a, b));
                 StrictVal::Set(new)
             }
             (StrictVal::Map(s), Ty::Map(key_id, id, _)) => {
@@ -318,6 +519,7 @@ impl TypeSystem {
                     }
                     new.push((checked_key.val, checked_val.val));
                 }
+                new.sort_by(|(a, _), (b, _)| self.cmp_typed(*key_id, a, b));
                 StrictVal::Map(new)
             }
 
@@ -332,6 +534,17 @@ impl TypeSystem {
                     Some(name) => StrictVal::enumer(name.clone()),
                 }
             }
+            // Ascii or other sub-byte character
+            (StrictVal::String(s), Ty::Enum(variants))
+                if s.len() == 1
+                    && variants.has_tag(s.as_bytes()[0])
+                    && !VariantName::try_from(s.clone())
+                        .map(|vname| variants.has_name(&vname))
+                        .unwrap_or_default() =>
+            {
+                let vname = variants.name_by_tag(s.as_bytes()[0]).expect("checked tag presence");
+                StrictVal::enumer(vname.clone())
+            }
             (StrictVal::String(s), Ty::Enum(variants)) => {
                 if let Ok(vname) = VariantName::try_from(s.clone()) {
                     if !variants.has_name(&vname) {
@@ -354,9 +567,9 @@ impl TypeSystem {
                 }
             }
             (StrictVal::Union(tag, content), Ty::Union(vars_req)) => {
-                let Some(id) = (match &tag {
-                    EnumTag::Name(name) => vars_req.ty_by_name(name),
-                    EnumTag::Ord(ord) => vars_req.ty_by_tag(*ord),
+                let Some((variant, id)) = (match &tag {
+                    EnumTag::Name(name) => vars_req.by_name(name),
+                    EnumTag::Ord(ord) => vars_req.by_tag(*ord),
                 }) else {
                     return Err(Error::UnionTagInvalid(
                         tag,
@@ -364,7 +577,7 @@ impl TypeSystem {
                     ));
                 };
                 let checked = self.typify(*content, *id)?;
-                StrictVal::Union(tag, Box::new(checked.val))
+                StrictVal::union(variant.name.clone(), checked.val)
             }
 
             // Field count check:
@@ -387,14 +600,38 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::List(fields), Ty::Tuple(fields_req))
+                if fields.len() != fields_req.len() && fields_req.len() != 1 =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+            (StrictVal::Map(fields), Ty::Struct(fields_req))
+                if fields.len() != fields_req.len() =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
-            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
+            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req))
+                if s.len() == fields_req.len() =>
+            {
                 let mut new = Vec::with_capacity(s.len());
                 for (item, id) in s.into_iter().zip(fields_req) {
                     let checked = self.typify(item, *id)?;
                     new.push(checked.val);
                 }
-                StrictVal::Tuple(new)
+                match self.restricted_string(&new, fields_req) {
+                    Some(s) => StrictVal::String(s),
+                    None => StrictVal::Tuple(new),
+                }
             }
             (StrictVal::Struct(s), Ty::Struct(fields_req)) => {
                 let mut new = IndexMap::with_capacity(s.len());
@@ -418,7 +655,9 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
-                    new.insert(fname, checked.val);
+                    if new.insert(fname.clone(), checked.val).is_some() {
+                        return Err(Error::RepeatedKeyValue(spec, StrictVal::str(fname)));
+                    }
                 }
                 StrictVal::Struct(new)
             }
-- 
2.43.0


From fb5f44744047d01945c0727413a8d5770002cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 07/30] fix: encode arrays of items other than bytes

---
 src/value/encode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 132767c..a56466a 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -131,6 +131,13 @@ impl TypeSystem {
                 writer.write_all(s.as_bytes())?;
             }
 
+            (StrictVal::List(vals), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(vals.len(), *len as usize);
+                for val in vals {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
+
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
                 for (val, sem_id) in vals.iter().zip(fields) {
-- 
2.43.0


From 3dce36567cb5506666c7f6d2b682b2ba95caa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 08/30] fix: refuse binary data not matching the type, without
 excessive allocations

---
 src/value/decode.rs | 112 +++++++++++++++++++++++++++++---------------
 1 file changed, 75 insertions(+), 37 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..6d167e8 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,11 +23,9 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
-use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob,
+    TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
@@ -35,7 +33,7 @@ use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
 use crate::typify::{TypeSpec, TypedVal};
-use crate::value::Blob;
+use crate::value::{Blob, StrictNum};
 use crate::{SemId, StrictVal, Ty, TypeRef, TypeSystem};
 
 #[derive(Clone, Eq, PartialEq, Debug, Display, Error, From)]
@@ -59,6 +57,24 @@ pub enum Error {
     NotEntirelyConsumed,
 }
 
+/// Maximum number of collection items to allocate memory for before reading the actual data.
+const MAX_PREALLOC: usize = 0x400;
+
+/// Reads length-prefixed data of large collections, allocating memory only for the data which are
+/// really present.
+fn read_large(max: u64, d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
+    let len = if max <= u32::MAX as u64 {
+        u32::from_le_bytes(d.read_raw_array::<4>()?) as usize
+    } else {
+        u64::from_le_bytes(d.read_raw_array::<8>()?) as usize
+    };
+    let mut data = Vec::new();
+    while data.len() < len {
+        data.extend(d.read_raw::<MAX16>((len - data.len()).min(MAX16))?);
+    }
+    Ok(data)
+}
+
 impl SymbolicSys {
     pub fn strict_deserialize_type(
         &self,
@@ -88,9 +104,9 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
-            let item = self.strict_read_type(ty, d)?;
+            let item = self.strict_read_unchecked(ty, d)?;
             list.push(item.val);
         }
         Ok(list)
@@ -103,10 +119,10 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
-            let key = self.strict_read_type(key_ty, d)?;
-            let item = self.strict_read_type(ty, d)?;
+            let key = self.strict_read_unchecked(key_ty, d)?;
+            let item = self.strict_read_unchecked(ty, d)?;
             list.push((key.val, item.val));
         }
         Ok(list)
@@ -122,6 +138,23 @@ impl TypeSystem {
     }
 
     pub fn strict_read_type(
+        &self,
+        sem_id: SemId,
+        d: &mut impl ReadRaw,
+    ) -> Result<TypedVal, Error> {
+        let typed = self.strict_read_unchecked(sem_id, d)?;
+        // Ensure that the value is valid and had a canonical encoding
+        match self.typify(typed.val.clone(), sem_id) {
+            Ok(checked) if checked == typed => Ok(typed),
+            Ok(_) => Err(DecodeError::DataIntegrityError(format!(
+                "non-canonical encoding of a value of type {sem_id}"
+            ))
+            .into()),
+            Err(err) => Err(DecodeError::DataIntegrityError(err.to_string()).into()),
+        }
+    }
+
+    fn strict_read_unchecked(
         &self,
         sem_id: SemId,
         mut d: &mut impl ReadRaw,
@@ -152,6 +185,15 @@ impl TypeSystem {
                     Primitive::I64 => StrictVal::num(i64::strict_decode(&mut reader)?),
                     // Primitive::I128 => StrictVal::num(i128::strict_decode(&mut reader)?),
                     other => {
+                        let d = reader.unbox();
+                        let size = other.byte_size() as usize;
+                        let data = d.read_raw::<MAX16>(size).map_err(DecodeError::from)?;
+                        if let Some(num) = StrictNum::from_le_slice(&data, other) {
+                            return Ok(TypedVal {
+                                val: StrictVal::Number(num),
+                                orig: TypeSymbol::unnamed(sem_id),
+                            });
+                        }
                         return Err(Error::NotImplemented(format!(
                             "loading {other} into a typed value is not yet implemented"
                         )));
@@ -159,7 +201,16 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                let d = reader.unbox();
+                let mut data = d.read_raw::<MAX16>(1).map_err(DecodeError::from)?;
+                let rest = match data[0] {
+                    0xC0..=0xDF => 1,
+                    0xE0..=0xEF => 2,
+                    0xF0..=0xFF => 3,
+                    _ => 0,
+                };
+                data.extend(d.read_raw::<MAX16>(rest).map_err(DecodeError::from)?);
+                StrictVal::String(String::from_utf8(data).map_err(DecodeError::from)?)
             }
 
             // ASCII strings:
@@ -175,15 +226,9 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let data = read_large(sizing.max, reader.unbox())?;
+                    StrictVal::String(String::from_utf8(data).map_err(DecodeError::from)?)
                 }
             }
             // Restricted strings:
@@ -195,15 +240,9 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let data = read_large(sizing.max, reader.unbox())?;
+                    StrictVal::String(String::from_utf8(data).map_err(DecodeError::from)?)
                 }
             }
 
@@ -219,14 +258,14 @@ impl TypeSystem {
                 let Some((variant, ty)) = variants.by_tag(tag) else {
                     return Err(DecodeError::EnumTagNotKnown(spec.to_string(), tag).into());
                 };
-                let fields = self.strict_read_type(*ty, reader.unbox())?;
+                let fields = self.strict_read_unchecked(*ty, reader.unbox())?;
                 StrictVal::union(variant.name.clone(), fields.val)
             }
             Ty::Tuple(reqs) => {
                 let mut fields = Vec::with_capacity(reqs.len());
                 let d = reader.unbox();
                 for ty in reqs {
-                    let checked = self.strict_read_type(*ty, d)?;
+                    let checked = self.strict_read_unchecked(*ty, d)?;
                     fields.push(checked.val);
                 }
                 StrictVal::tuple(fields)
@@ -235,7 +274,7 @@ impl TypeSystem {
                 let mut fields = IndexMap::with_capacity(reqs.len());
                 let d = reader.unbox();
                 for field in reqs {
-                    let checked = self.strict_read_type(field.ty, d)?;
+                    let checked = self.strict_read_unchecked(field.ty, d)?;
                     fields.insert(field.name.clone(), checked.val);
                 }
                 StrictVal::Struct(fields)
@@ -251,7 +290,7 @@ impl TypeSystem {
                 let mut list = Vec::<StrictVal>::with_capacity(*len as usize);
                 let d = reader.unbox();
                 for _ in 0..*len {
-                    let checked = self.strict_read_type(*ty, d)?;
+                    let checked = self.strict_read_unchecked(*ty, d)?;
                     list.push(checked.val);
                 }
                 StrictVal::List(list)
@@ -270,9 +309,8 @@ impl TypeSystem {
                 let string = MediumBlob::strict_decode(&mut reader)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
+            Ty::List(ty, sizing) if ty.is_byte() => {
+                StrictVal::Bytes(Blob(read_large(sizing.max, reader.unbox())?))
             }
 
             // Unicode strings:
@@ -288,9 +326,9 @@ impl TypeSystem {
                 let string = MediumString::strict_decode(&mut reader)?;
                 StrictVal::String(string.release())
             }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
+            Ty::List(ty, sizing) if ty.is_unicode_char() => {
+                let data = read_large(sizing.max, reader.unbox())?;
+                StrictVal::String(String::from_utf8(data).map_err(DecodeError::from)?)
             }
 
             // Other lists:
-- 
2.43.0


From eecb2f2ecaf766ef028e51fd0e9455ddcad05a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 09/30] fix: accept strings for lists of all ASCII characters

---
 src/value/typify.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index ac8f0ef..be4e619 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -270,6 +270,14 @@ impl TypeSystem {
         self.char_enum(sem_id).is_some_and(|chars| s.iter().all(|c| chars.has_tag(*c)))
     }
 
+    /// Checks that all characters of the string are ASCII and spell tags of the enum type.
+    fn is_tag_string(&self, s: &str, sem_id: SemId) -> bool {
+        match self.find(sem_id) {
+            Some(Ty::Enum(variants)) => s.bytes().all(|c| c.is_ascii() && variants.has_tag(c)),
+            _ => false,
+        }
+    }
+
     /// Checks that the string matches requirements of the restricted string type.
     fn is_restricted_string(&self, s: &str, fields: &UnnamedFields<SemId>) -> bool {
         let Ok(Some((rest, sizing))) = self.rstring_sizing(fields) else {
@@ -444,7 +452,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, _)) if id.is_unicode_char() => {
                 StrictVal::list(s.chars().map(|c| StrictVal::str(c)))
             }
-            (StrictVal::String(s), Ty::Array(id, _)) if self.is_char_string(s.as_bytes(), *id) => {
+            (StrictVal::String(s), Ty::Array(id, _)) if self.is_tag_string(&s, *id) => {
                 let mut new = Vec::with_capacity(s.len());
                 for c in s.bytes() {
                     let checked = self.typify(StrictVal::enumer(c), *id)?;
@@ -486,6 +494,15 @@ impl TypeSystem {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
+            // ASCII repertoire including control characters
+            (StrictVal::String(s), Ty::List(id, _)) if self.is_tag_string(&s, *id) => {
+                let mut new = Vec::with_capacity(s.len());
+                for c in s.bytes() {
+                    let checked = self.typify(StrictVal::enumer(c), *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
             (StrictVal::List(s), Ty::List(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
                 for item in s {
-- 
2.43.0


From cc1436678662b0708d8117fa670f40a2de93f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 10/30] fix: follow value paths through all their steps

---
 src/value/path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..144044c 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -172,9 +172,11 @@ impl StrictVal {
             {
                 Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
             }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
+            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => {
+                fields[*no as usize].at_path(iter)
+            }
             (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
-                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
+                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))?.at_path(iter)
             }
             (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
                 if *idx as usize >= items.len() =>
@@ -182,13 +184,14 @@ impl StrictVal {
                 Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
             }
             (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
-                Ok(&items[*idx as usize])
+                items[*idx as usize].at_path(iter)
             }
             (StrictVal::Map(items), Some(Step::Key(idx))) => items
                 .iter()
                 .find(|(key, _)| idx.has_match(key))
                 .map(|(_, val)| val)
-                .ok_or(PathError::UnknownKey(idx.clone())),
+                .ok_or(PathError::UnknownKey(idx.clone()))?
+                .at_path(iter),
 
             (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
         }
-- 
2.43.0


From 504266ca860396b14f4a9d68496b32c9dac448d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 11/30] fix: follow type paths from their first step

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..7b1fa2b 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(pos)) => fields.ty_by_pos(*pos),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 323c61ab21bb4ccb148de2ade6f6b785eb97ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:06 +0000
Subject: [PATCH 12/30] fix: refuse symbolic libraries with unknown or circular
 references

Compilation never ended (or panicked with debug assertions) when some of the
remaining types could not be resolved. Too many types are also reported.
---
 src/typelib/symbolic.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..15c73d4 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,15 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Returns name of the first type referenced by `ty` which is absent from the index.
+fn find_unresolved<'ty>(ty: &'ty Ty<TranspileRef>, index: &TypeIndex) -> Option<&'ty TypeName> {
+    ty.type_refs().find_map(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => find_unresolved(ty, index),
+        TranspileRef::Named(name) if !index.contains_key(name) => Some(name),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +322,18 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // What remains refers to unknown types, or to each other in a cycle
+                for ty in old_types.values() {
+                    if let Some(unknown) = find_unresolved(ty, &index) {
+                        return Err(CompileError::UnknownType {
+                            unknown: unknown.clone(),
+                            within: ty.clone(),
+                        });
+                    }
+                }
+                unreachable!("a type with all of its references resolved is not compiled");
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
@@ -332,7 +352,7 @@ impl SymbolicLib {
             }
         }
 
-        let types = TypeMap::from_checked(new_types);
+        let types = TypeMap::try_from(new_types).map_err(|_| CompileError::TooManyTypes)?;
         let dependencies = Confined::from_checked(used_dependencies);
 
         Ok(TypeLib {
-- 
2.43.0


From c1b19e211933cfbc2c9d8d902d2efd4b95aeb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 13/30] fix: refuse symbolic libraries with dangling foreign
 references

A reference to a library absent from the dependencies, or to a type not listed
as used from it, was compiled into a library which cannot be resolved.
---
 src/typelib/symbolic.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 15c73d4..e65ff22 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -283,6 +283,32 @@ fn find_unresolved<'ty>(ty: &'ty Ty<TranspileRef>, index: &TypeIndex) -> Option<
     })
 }
 
+/// Checks that each foreign type referenced by `ty` is known from one of the dependencies.
+fn check_extern(
+    ty: &Ty<TranspileRef>,
+    dependencies: &TinyOrdSet<Dependency>,
+    extern_types: &ExternTypes,
+) -> Result<(), CompileError> {
+    ty.type_refs().try_for_each(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => check_extern(ty, dependencies, extern_types),
+        TranspileRef::Named(_) => Ok(()),
+        TranspileRef::Extern(ext) => {
+            if !dependencies.iter().any(|dep| dep.id == ext.lib_id && dep.name == ext.lib_name) {
+                return Err(CompileError::UnknownLib(ext.lib_name.clone()));
+            }
+            let known = extern_types.get(&ext.lib_name).and_then(|types| types.get(&ext.sem_id));
+            if known != Some(&ext.ty_name) {
+                return Err(CompileError::DependencyMissesType(
+                    ext.lib_name.clone(),
+                    ext.sem_id,
+                    ext.ty_name.clone(),
+                ));
+            }
+            Ok(())
+        }
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -306,7 +332,10 @@ impl SymbolicLib {
                     stack: empty!(),
                 };
                 let ty: Ty<LibRef> = match ty.clone().translate(&mut ctx, &()) {
-                    Ok(ty) => ty,
+                    Ok(new_ty) => {
+                        check_extern(ty, &dependencies, &ctx.extern_types)?;
+                        new_ty
+                    }
                     Err(CompileError::Continue) => {
                         index = ctx.index;
                         extern_types = ctx.extern_types;
-- 
2.43.0


From 4af29fb9c45cb8f5c8b6f13cad31c1e5c87716a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 14/30] fix: refuse unions which repeat a variant name in
 binary data

---
 src/ast/encoding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..311f898 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -56,8 +56,11 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
-        let mut inner = BTreeMap::new();
+        let mut inner = BTreeMap::<Variant, Ref>::new();
         for (tag, info) in read {
+            if inner.keys().any(|variant| variant.name == info.name) {
+                return Err(DecodeError::RepeatedMapValue);
+            }
             inner.insert(
                 Variant {
                     name: info.name,
-- 
2.43.0


From 6474acf486a662b9857f8e746189b850e599fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 15/30] fix: write library armor with several dependencies in a
 readable form

---
 src/typelib/serialize.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..03032b1 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,9 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // headers with multiple values are not readable by the armor parser
+            let deps = self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>();
+            headers.push(ArmorHeader::new("Dependencies", deps.join(", ")));
         }
         headers
     }
-- 
2.43.0


From c1a631a14373bced3d5738a2c120714859ff812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 16/30] fix: limit nesting of embedded types in binary symbolic
 libraries

---
 src/typelib/symbolic.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index e65ff22..f579134 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -21,6 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
+use std::cell::Cell;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::{self, Display, Formatter};
 
@@ -28,7 +29,10 @@ use amplify::confinement::{Confined, NonEmptyOrdMap, SmallOrdMap, TinyOrdMap, Ti
 use amplify::ByteArray;
 use encoding::{LibName, LIB_EMBEDDED};
 use sha2::Digest;
-use strict_encoding::{StrictDumb, TypeName, STRICT_TYPES_LIB};
+use strict_encoding::{
+    DecodeError, ReadTuple, ReadUnion, StrictDecode, StrictDumb, TypeName, TypedRead,
+    STRICT_TYPES_LIB,
+};
 
 use super::{LibBuilder, SymbolContext};
 use crate::ast::{PrimitiveRef, SemCommit, SEM_ID_TAG};
@@ -92,7 +96,7 @@ impl From<SymbolRef> for ExternRef {
 }
 
 #[derive(Clone, Eq, PartialEq, Debug, From)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, tags = order, dumb = { Self::Named(strict_dumb!()) })]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub enum TranspileRef {
@@ -103,6 +107,36 @@ pub enum TranspileRef {
     Extern(SymbolRef),
 }
 
+/// Maximal nesting of embedded types accepted when a symbolic library is read from binary data;
+/// prevents stack overflow. Libraries with more than three levels do not compile.
+const MAX_EMBED_DEPTH: u8 = 16;
+
+thread_local! {
+    static EMBED_DEPTH: Cell<u8> = const { Cell::new(0) };
+}
+
+impl StrictDecode for TranspileRef {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        reader.read_union(|name, r| match name.as_str() {
+            "embedded" => {
+                let depth = EMBED_DEPTH.get();
+                if depth >= MAX_EMBED_DEPTH {
+                    return Err(DecodeError::DataIntegrityError(s!(
+                        "too many levels of embedded types"
+                    )));
+                }
+                EMBED_DEPTH.set(depth + 1);
+                let res = r.read_tuple(|r| r.read_field().map(Self::Embedded));
+                EMBED_DEPTH.set(depth);
+                res
+            }
+            "named" => r.read_tuple(|r| r.read_field().map(Self::Named)),
+            "extern" => r.read_tuple(|r| r.read_field().map(Self::Extern)),
+            _ => unreachable!("all variants are handled"),
+        })
+    }
+}
+
 impl StrictDumb for Box<Ty<TranspileRef>> {
     fn strict_dumb() -> Self { Box::new(Ty::UNIT) }
 }
-- 
2.43.0


From 16cc20bcd5ccc3f82d5c04829064ac7655d1ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 17/30] fix: make nested types and fixed-size lists
 distinguishable in listings

---
 src/ast/ty.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..757add9 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -207,8 +207,8 @@ impl<Ref: TypeRef> Ty<Ref> {
     pub fn is_compound(&self) -> bool {
         match self {
             Ty::Tuple(fields) if fields.len() > 1 => true,
-            Ty::Struct(fields) if fields.len() > 1 => true,
-            Ty::Enum(_) | Ty::Union(_) => true,
+            Ty::Struct(_) | Ty::Enum(_) => true,
+            Ty::Union(_) => !self.is_option(),
             _ => false,
         }
     }
@@ -247,6 +247,17 @@ impl<Ref: TypeRef> Ty<Ref> {
     }
 }
 
+/// Displays a type used inside another type, delimiting it where it would not be otherwise clear
+/// where it ends.
+fn fmt_nested<Ref: TypeRef + Display>(ty: &Ref, f: &mut Formatter<'_>) -> fmt::Result {
+    if !ty.is_compound() {
+        return Display::fmt(ty, f);
+    }
+    f.write_str("(")?;
+    Display::fmt(ty, f)?;
+    f.write_str(")")
+}
+
 impl<Ref: TypeRef> Display for Ty<Ref>
 where Ref: Display
 {
@@ -256,7 +267,7 @@ where Ref: Display
             Ty::Enum(vars) => Display::fmt(vars, f),
             Ty::Union(fields) if self.is_option() => {
                 let variant = fields.get(&Variant::some()).expect("optional");
-                Display::fmt(variant, f)?;
+                fmt_nested(variant, f)?;
                 f.write_str("?")
             }
             Ty::Union(fields) => Display::fmt(fields, f),
@@ -264,23 +275,29 @@ where Ref: Display
             Ty::Tuple(fields) => Display::fmt(fields, f),
             Ty::Array(ty, len) => {
                 f.write_str("[")?;
-                Display::fmt(ty, f)?;
+                fmt_nested(ty, f)?;
                 write!(f, " ^ {len}]")
             }
             Ty::UnicodeChar => f.write_str("Unicode"),
             Ty::List(ty, sizing) => {
                 f.write_str("[")?;
-                Display::fmt(ty, f)?;
+                fmt_nested(ty, f)?;
+                if sizing.min == sizing.max {
+                    // must be distinguishable from an array
+                    return write!(f, " ^ {}..{:#x}]", sizing.min, sizing.max);
+                }
                 write!(f, "{sizing}]")
             }
             Ty::Set(ty, sizing) => {
                 f.write_str("{")?;
-                Display::fmt(ty, f)?;
+                fmt_nested(ty, f)?;
                 write!(f, "{sizing}}}")
             }
             Ty::Map(key, ty, sizing) => {
-                write!(f, "{{{key} ->{sizing} ")?;
-                Display::fmt(ty, f)?;
+                f.write_str("{")?;
+                fmt_nested(key, f)?;
+                write!(f, " ->{sizing} ")?;
+                fmt_nested(ty, f)?;
                 f.write_str("}")
             }
         }
@@ -359,7 +376,7 @@ where Ref: Display
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         Display::fmt(&self.name, f)?;
         f.write_str(" ")?;
-        Display::fmt(&self.ty, f)
+        fmt_nested(&self.ty, f)
     }
 }
 
@@ -495,11 +512,11 @@ where Ref: Display
         let mut iter = self.iter();
         let last = iter.next_back();
         for ty in iter {
-            Display::fmt(ty, f)?;
+            fmt_nested(ty, f)?;
             f.write_str(", ")?;
         }
         if let Some(ty) = last {
-            Display::fmt(ty, f)?;
+            fmt_nested(ty, f)?;
         }
         Ok(())
     }
-- 
2.43.0


From f6f2649eb0232054d36aff08694e02311c4b8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 18/30] fix: treat a union as an option only if its first
 variant is empty

---
 src/ast/id.rs            |  1 +
 src/ast/ty.rs            |  2 ++
 src/typelib/symbolic.rs  |  1 +
 src/typelib/type_lib.rs  | 22 ++++++++++++++++++++++
 src/typesys/translate.rs |  4 +++-
 5 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/ast/id.rs b/src/ast/id.rs
index 855ea98..78151d2 100644
--- a/src/ast/id.rs
+++ b/src/ast/id.rs
@@ -77,6 +77,7 @@ impl SemId {
 }
 
 impl TypeRef for SemId {
+    fn is_unit(&self) -> bool { Self::unit() == *self }
     fn is_unicode_char(&self) -> bool { Self::unicode_char() == *self }
     fn is_byte(&self) -> bool { Self::byte() == *self || Ty::<Self>::U8.sem_id_unnamed() == *self }
 }
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 757add9..42742be 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -43,6 +43,7 @@ pub trait TypeRef:
     fn type_refs(&self) -> Iter<Self> { Iter::from(self) }
 
     fn is_compound(&self) -> bool { false }
+    fn is_unit(&self) -> bool { false }
     fn is_byte(&self) -> bool { false }
     fn is_unicode_char(&self) -> bool { false }
 }
@@ -226,6 +227,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 if variants.len() == 2
                     && variants.unwrap_first().name == vname!("none")
                     && variants.unwrap_first().tag == 0
+                    && variants.ty_by_tag(0).map(Ref::is_unit).unwrap_or_default()
                     && variants.unwrap_last().name == vname!("some")
                     && variants.unwrap_last().tag == 1 =>
             {
diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index f579134..2a14e05 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -172,6 +172,7 @@ impl TypeRef for TranspileRef {
             _ => false,
         }
     }
+    fn is_unit(&self) -> bool { matches!(self, TranspileRef::Embedded(ty) if **ty == Ty::UNIT) }
     fn is_byte(&self) -> bool {
         match self {
             TranspileRef::Embedded(ty) => ty.is_byte(),
diff --git a/src/typelib/type_lib.rs b/src/typelib/type_lib.rs
index 3741bd5..c2129da 100644
--- a/src/typelib/type_lib.rs
+++ b/src/typelib/type_lib.rs
@@ -75,6 +75,13 @@ impl TypeRef for InlineRef {
             _ => false,
         }
     }
+    fn is_unit(&self) -> bool {
+        match self {
+            InlineRef::Inline(ty) => ty == &Ty::UNIT,
+            InlineRef::Named(sem_id) => sem_id.is_unit(),
+            InlineRef::Extern(_) => false,
+        }
+    }
     fn is_byte(&self) -> bool {
         match self {
             InlineRef::Inline(ty) => ty.is_byte(),
@@ -117,6 +124,13 @@ impl TypeRef for InlineRef1 {
             _ => false,
         }
     }
+    fn is_unit(&self) -> bool {
+        match self {
+            InlineRef1::Inline(ty) => ty == &Ty::UNIT,
+            InlineRef1::Named(sem_id) => sem_id.is_unit(),
+            InlineRef1::Extern(_) => false,
+        }
+    }
     fn is_byte(&self) -> bool {
         match self {
             InlineRef1::Inline(ty) => ty.is_byte(),
@@ -152,6 +166,7 @@ pub enum InlineRef2 {
 
 impl TypeRef for InlineRef2 {
     fn is_compound(&self) -> bool { false }
+    fn is_unit(&self) -> bool { matches!(self, InlineRef2::Named(sem_id) if sem_id.is_unit()) }
     fn is_byte(&self) -> bool { false }
     fn is_unicode_char(&self) -> bool { false }
 }
@@ -184,6 +199,13 @@ impl TypeRef for LibRef {
             _ => false,
         }
     }
+    fn is_unit(&self) -> bool {
+        match self {
+            LibRef::Inline(ty) => ty == &Ty::UNIT,
+            LibRef::Named(sem_id) => sem_id.is_unit(),
+            LibRef::Extern(_) => false,
+        }
+    }
     fn is_byte(&self) -> bool {
         match self {
             LibRef::Inline(ty) => ty.is_byte(),
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 5106a6d..d5d3fa5 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -60,7 +60,9 @@ impl SemCommit for TypeSymbol {
     fn sem_commit(&self, hasher: &mut impl CommitConsume) { self.id.sem_commit(hasher); }
 }
 
-impl TypeRef for TypeSymbol {}
+impl TypeRef for TypeSymbol {
+    fn is_unit(&self) -> bool { self.id.is_unit() }
+}
 
 impl Display for TypeSymbol {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From 88205b935a36ddf4b1317ebf228de9f901f91d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 19/30] fix: list symbolic types under the mnemonics of their
 actual ids

---
 src/typelib/serialize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 03032b1..5111d5e 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -132,8 +132,10 @@ impl Display for SymbolicLib {
         }
         writeln!(f)?;
         let width = f.width().unwrap_or(17);
+        // semantic ids depend on the ids of the referenced types, known only after the compilation
+        let compiled = if f.alternate() { None } else { self.clone().compile().ok() };
         for (name, ty) in self.types() {
-            if !f.alternate() {
+            if let Some(ty) = compiled.as_ref().and_then(|lib| lib.types.get(name)) {
                 let mnemo = ty.sem_id_named(name).to_baid64_mnemonic();
                 writeln!(f, "@mnemonic({mnemo})")?;
             }
-- 
2.43.0


From 72cc63f8ca4b921cc1ba7e12a4c2fc3e8e69d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 20/30] fix: show tags and not positions of union variants in
 layouts

---
 src/ast/ty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 42742be..767a62a 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -344,7 +344,8 @@ impl<Ref: TypeRef> Ty<Ref> {
     pub fn case_at(&self, pos: u8) -> Option<ItemCase> {
         match self {
             Ty::Union(fields) => {
-                fields.name_by_pos(pos).map(|name| ItemCase::UnionVariant(pos, name.clone()))
+                let variant = fields.keys().nth(pos as usize)?;
+                Some(ItemCase::UnionVariant(variant.tag, variant.name.clone()))
             }
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
-- 
2.43.0


From 9630bfd3bf3b6eb8435549d18256d24ffc33960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 21/30] fix: label tuple fields with their positions in layouts

---
 src/ast/ty.rs           | 2 +-
 src/layout/translate.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 767a62a..592c431 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -350,7 +350,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From 2111a89900b64dcd01054935d1b7e7ecb2eefd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 22/30] fix: keep depths and labels of optional entries in
 layouts

---
 src/typesys/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..21aa1ce 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +241,10 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    if !matches!(
+                        self.nested.last(),
+                        Some(NestedCase::NewType(_) | NestedCase::Option)
+                    ) {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From 75228c52ef8129380f549fd637d200a533126578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 23/30] fix: escape quotes in strings of the native notation

---
 src/value/ston.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/ston.rs b/src/value/ston.rs
index d4fd844..3917d30 100644
--- a/src/value/ston.rs
+++ b/src/value/ston.rs
@@ -54,7 +54,9 @@ impl Display for StrictVal {
         match self {
             StrictVal::Unit => f.write_str("(,)"),
             StrictVal::Number(n) => Display::fmt(n, f),
-            StrictVal::String(s) => write!(f, r#""{s}""#),
+            StrictVal::String(s) => {
+                write!(f, r#""{}""#, s.replace('\\', r"\\").replace('"', r#"\""#))
+            }
             StrictVal::Bytes(blob) => write!(f, "0x{}", blob.to_hex()),
             StrictVal::Tuple(fields) => {
                 let mut iter = fields.iter();
-- 
2.43.0


From 13848c146d22b815b5469666a36366f2663b2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 24/30] fix: convert fractional numbers and dates from foreign
 data instead of crashing

---
 src/value/convert.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/value/convert.rs b/src/value/convert.rs
index 72d13d6..e71efc4 100644
--- a/src/value/convert.rs
+++ b/src/value/convert.rs
@@ -34,10 +34,8 @@ impl From<serde_json::Value> for StrictVal {
             Value::Bool(v) => StrictVal::bool(v),
             Value::Number(no) if no.is_u64() => StrictVal::num(no.as_u64().unwrap()),
             Value::Number(no) if no.is_i64() => StrictVal::num(no.as_i64().unwrap()),
-            Value::Number(no) if no.is_f64() => todo!(),
-            Value::Number(_) => {
-                unreachable!()
-            }
+            // Strict types have no floating-point numbers: keep the text of the number
+            Value::Number(no) => StrictVal::str(no),
             Value::String(s) => StrictVal::String(s),
             Value::Array(vec) => StrictVal::list(vec.into_iter().map(StrictVal::from)),
             Value::Object(map) => {
@@ -56,10 +54,8 @@ impl From<serde_yaml::Value> for StrictVal {
             Value::Bool(v) => StrictVal::bool(v),
             Value::Number(no) if no.is_u64() => StrictVal::num(no.as_u64().unwrap()),
             Value::Number(no) if no.is_i64() => StrictVal::num(no.as_i64().unwrap()),
-            Value::Number(no) if no.is_f64() => todo!(),
-            Value::Number(_) => {
-                unreachable!()
-            }
+            // Strict types have no floating-point numbers: keep the text of the number
+            Value::Number(no) => StrictVal::str(no),
             Value::String(s) => StrictVal::String(s),
             Value::Sequence(vec) => StrictVal::list(vec.into_iter().map(StrictVal::from)),
             Value::Mapping(map) => {
@@ -76,14 +72,15 @@ impl From<toml::Value> for StrictVal {
 
         match toml {
             Value::Integer(no) => StrictVal::num(no),
-            Value::Float(_f) => todo!(),
+            // Strict types have no floating-point numbers: keep the text of the number
+            Value::Float(f) => StrictVal::str(f),
             Value::Boolean(v) => StrictVal::bool(v),
             Value::String(s) => StrictVal::String(s),
             Value::Array(vec) => StrictVal::list(vec.into_iter().map(StrictVal::from)),
             Value::Table(map) => {
                 StrictVal::map(map.into_iter().map(|(k, v)| (k, StrictVal::from(v))))
             }
-            Value::Datetime(_dt) => todo!(),
+            Value::Datetime(dt) => StrictVal::str(dt),
         }
     }
 }
-- 
2.43.0


From 2eb7c3f535741a7e12e040994a141592bd436709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 25/30] fix: accept binary data of native types with an
 ordering of their own

---
 src/value/decode.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 6d167e8..3134e07 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -143,15 +143,11 @@ impl TypeSystem {
         d: &mut impl ReadRaw,
     ) -> Result<TypedVal, Error> {
         let typed = self.strict_read_unchecked(sem_id, d)?;
-        // Ensure that the value is valid and had a canonical encoding
-        match self.typify(typed.val.clone(), sem_id) {
-            Ok(checked) if checked == typed => Ok(typed),
-            Ok(_) => Err(DecodeError::DataIntegrityError(format!(
-                "non-canonical encoding of a value of type {sem_id}"
-            ))
-            .into()),
-            Err(err) => Err(DecodeError::DataIntegrityError(err.to_string()).into()),
-        }
+        // Ensure that the value is valid. The order of set items and map keys is defined by the native
+        // type and not by its strict type, thus it can't be checked here.
+        self.typify(typed.val.clone(), sem_id)
+            .map_err(|err| DecodeError::DataIntegrityError(err.to_string()))?;
+        Ok(typed)
     }
 
     fn strict_read_unchecked(
-- 
2.43.0


From 101dbb5c111efb70394bf18351d96d8ea8dad8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 26/30] fix: notice conflicting definitions of nested types

A type nested in another one was taken for already compiled if any type
had been registered under its name, so a second type of the same name was
silently replaced by the first one, or not, depending on the order in which
types are added.  Remember the rust types compiled instead.
---
 src/typelib/transpile.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..72024ad 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -22,8 +22,8 @@
 // the License.
 
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
-use std::io;
 use std::io::Sink;
+use std::{any, io};
 
 use amplify::confinement::{Confined, NonEmptyVec, U64 as U64MAX};
 use amplify::Wrapper;
@@ -55,6 +55,8 @@ pub struct LibBuilder {
     pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
+    /// Names of the rust types which are already compiled and do not need to be compiled again.
+    compiled: HashSet<(TypeName, &'static str)>,
     sink: StreamWriter<Sink>,
     last_compiled: Option<TranspileRef>,
 }
@@ -74,6 +76,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|d| (d, None)).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -88,6 +91,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|(d, types)| (d, Some(types))).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -245,8 +249,15 @@ impl BuilderParent for LibBuilder {
                 let lib_id = me.dependency_id(&lib_name);
                 (me, TranspileRef::Extern(SymbolRef::with(lib_name, name, lib_id, r.id())))
             }
-            (_, Some(name)) if self.types.contains_key(&name) => (self, TranspileRef::Named(name)),
-            (_, Some(_)) => _compile(self),
+            (_, Some(name)) => {
+                let key = (name, any::type_name::<T>());
+                if self.compiled.contains(&key) {
+                    return (self, TranspileRef::Named(key.0));
+                }
+                let (mut me, r) = _compile(self);
+                me.compiled.insert(key);
+                (me, r)
+            }
         }
     }
 
-- 
2.43.0


From 956c88aed44ec96675f0fdd46daf23232cbda419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 27/30] fix: choose among dependencies of one name
 independently of the run

Dependencies were kept in a hash map and searched by name, so with two
versions of a library given, the one which was used varied from run to run.
---
 src/typelib/transpile.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 72024ad..f056edb 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -52,7 +52,7 @@ pub trait BuilderParent: StrictParent<StreamWriter<Sink>> {
 #[derive(Debug)]
 pub struct LibBuilder {
     pub(super) lib_name: LibName,
-    pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
+    pub(super) known_libs: BTreeMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
     /// Names of the rust types which are already compiled and do not need to be compiled again.
@@ -73,7 +73,7 @@ impl LibBuilder {
     ) -> LibBuilder {
         LibBuilder {
             lib_name: name.into(),
-            known_libs: known_libs.into_iter().map(|d| (d, None)).collect(),
+            known_libs: Self::index_libs(known_libs.into_iter().map(|d| (d, None))),
             extern_types: empty!(),
             types: empty!(),
             compiled: empty!(),
@@ -88,7 +88,9 @@ impl LibBuilder {
     ) -> LibBuilder {
         LibBuilder {
             lib_name: name.into(),
-            known_libs: known_libs.into_iter().map(|(d, types)| (d, Some(types))).collect(),
+            known_libs: Self::index_libs(
+                known_libs.into_iter().map(|(d, types)| (d, Some(types))),
+            ),
             extern_types: empty!(),
             types: empty!(),
             compiled: empty!(),
@@ -97,6 +99,18 @@ impl LibBuilder {
         }
     }
 
+    /// Inserts dependencies one by one, since collecting them into a map drops some of the
+    /// dependencies which have the same name.
+    fn index_libs(
+        libs: impl Iterator<Item = (Dependency, Option<HashSet<SemId>>)>,
+    ) -> BTreeMap<Dependency, Option<HashSet<SemId>>> {
+        let mut index = BTreeMap::new();
+        for (dep, types) in libs {
+            index.insert(dep, types);
+        }
+        index
+    }
+
     pub fn transpile<T: StrictEncode + StrictDumb>(self) -> Self {
         T::strict_dumb().strict_encode(self).expect("memory encoding doesn't error")
     }
-- 
2.43.0


From f3fa34d249c085f4793f025c6f720a7755e21dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 28/30] fix: keep all versions of a dependency when compiling a
 symbolic library

---
 src/typelib/symbolic.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 2a14e05..c7fe815 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -405,15 +405,12 @@ impl SymbolicLib {
             if lib == &libname!(LIB_EMBEDDED) {
                 continue;
             }
-            match dependencies.iter().find(|dep| &dep.name == lib) {
-                None if !used_dependencies.iter().any(|dep| &dep.name == lib) => {
-                    return Err(CompileError::UnknownLib(lib.clone()));
-                }
-                None => {}
-                Some(dep) => {
-                    used_dependencies.insert(dep.clone());
-                }
+            // several versions of the same library may be in use
+            let mut versions = dependencies.iter().filter(|dep| &dep.name == lib).peekable();
+            if versions.peek().is_none() {
+                return Err(CompileError::UnknownLib(lib.clone()));
             }
+            used_dependencies.extend(versions.cloned());
         }
 
         let types = TypeMap::try_from(new_types).map_err(|_| CompileError::TooManyTypes)?;
-- 
2.43.0


From 878432bdbcfe0c7f797403329057edcbf936d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 29/30] fix: refuse repeated set items and map keys before
 reading the rest

---
 src/value/decode.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 3134e07..3dfed13 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -112,6 +112,24 @@ impl TypeSystem {
         Ok(list)
     }
 
+    fn strict_read_set(
+        &self,
+        len: usize,
+        ty: SemId,
+        d: &mut impl ReadRaw,
+    ) -> Result<Vec<StrictVal>, Error> {
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
+        for _ in 0..len {
+            let item = self.strict_read_unchecked(ty, d)?;
+            // Items occupying no bytes are all the same: a large length must not build many of them
+            if list.last() == Some(&item.val) {
+                return Err(DecodeError::DataIntegrityError(s!("repeated set item")).into());
+            }
+            list.push(item.val);
+        }
+        Ok(list)
+    }
+
     fn strict_read_map(
         &self,
         len: usize,
@@ -122,6 +140,9 @@ impl TypeSystem {
         let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let key = self.strict_read_unchecked(key_ty, d)?;
+            if list.last().map(|(prev, _)| prev) == Some(&key.val) {
+                return Err(DecodeError::DataIntegrityError(s!("repeated map key")).into());
+            }
             let item = self.strict_read_unchecked(ty, d)?;
             list.push((key.val, item.val));
         }
@@ -362,31 +383,31 @@ impl TypeSystem {
             Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u16::MAX as u64 => {
                 let len = u16::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
                 let len = u24::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
+                let list = self.strict_read_set(len.into_usize(), *ty, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, sizing) if sizing.max <= u32::MAX as u64 => {
                 let len = u32::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, d)?;
                 StrictVal::Set(list)
             }
             Ty::Set(ty, _) => {
                 let len = u64::strict_decode(&mut reader)?;
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let list = self.strict_read_set(len as usize, *ty, d)?;
                 StrictVal::Set(list)
             }
             Ty::Map(key_id, id, sizing) if sizing.max <= u8::MAX as u64 => {
-- 
2.43.0


From 0879f3fe3271b89d02e53f85a8841f2fa04e3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 30/30] fix: print the pre-release of a version after the dash
 and the build after the plus

The two were swapped, so that a pre-release was spelled as build metadata and
the other way round (semver.org, items 9 and 10).
---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0

