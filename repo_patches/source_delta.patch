From b0700dd38bad791c89772369824a1efc235a589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 01/25] fix: read arrays from arrays as well as lists, in
 from_reflect and patch

---
 .../mirror-mirror/src/foreign_impls/array.rs  | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..266c362 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -44,8 +44,8 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
+        if let Some(iter) = array_or_list_iter(value) {
+            for (idx, new_value) in iter.enumerate() {
                 if let Some(value) = self.get_mut(idx) {
                     value.patch(new_value);
                 }
@@ -108,7 +108,21 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        array_or_list_iter(reflect)?
+            .map(T::from_reflect)
+            .collect::<Option<Vec<T>>>()?
+            .try_into()
+            .ok()
+    }
+}
+
+/// Arrays are converted to lists by [`Reflect::to_value`] so both must be accepted when reading an
+/// array.
+fn array_or_list_iter(reflect: &dyn Reflect) -> Option<crate::array::Iter<'_>> {
+    match reflect.reflect_ref() {
+        ReflectRef::Array(array) => Some(array.iter()),
+        ReflectRef::List(list) => Some(list.iter()),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 69f87446fb48b7b5aa3ad90961503947c103fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 02/25] fix: don't wrap out of range integers when indexing
 with a key path

---
 crates/mirror-mirror/src/key_path.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..5c69a71 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -568,16 +568,16 @@ impl fmt::Display for KeyPath {
 pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
     match value {
         Value::usize(n) => Some(*n),
-        Value::u8(n) => Some(*n as usize),
-        Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u8(n) => usize::try_from(*n).ok(),
+        Value::u16(n) => usize::try_from(*n).ok(),
+        Value::u32(n) => usize::try_from(*n).ok(),
+        Value::u64(n) => usize::try_from(*n).ok(),
+        Value::u128(n) => usize::try_from(*n).ok(),
+        Value::i8(n) => usize::try_from(*n).ok(),
+        Value::i16(n) => usize::try_from(*n).ok(),
+        Value::i32(n) => usize::try_from(*n).ok(),
+        Value::i64(n) => usize::try_from(*n).ok(),
+        Value::i128(n) => usize::try_from(*n).ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From 71b7b6a2f0a98611e831987971d81d0634f0cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 03/25] fix: don't panic when a Duration is built from a float
 it cannot represent

---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..b700b1d 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -66,6 +66,7 @@ macro_rules! impl_reflect_via_scalar {
             }
 
             impl FromReflect for $ty {
+                #[allow(clippy::redundant_closure_call)]
                 fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
                     if let Some(n) = reflect.downcast_ref::<Self>() {
                         Some(*n)
@@ -97,7 +98,13 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! {
+    Duration,
+    f32,
+    |d: &Duration| d.as_secs_f32(),
+    // `from_secs_f32` panics for values a `Duration` cannot represent
+    |secs: f32| (secs >= 0.0 && secs < u64::MAX as f32).then(|| Self::from_secs_f32(secs)),
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From fd5ed7654db485dd5c316db0d52df97400d96fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 04/25] fix: clone containers without going through a lossy
 value conversion

---
 crates/mirror-mirror-macros/src/derive_reflect/attrs.rs | 3 +--
 crates/mirror-mirror/src/foreign_impls/array.rs         | 3 +--
 crates/mirror-mirror/src/foreign_impls/btree_map.rs     | 3 +--
 crates/mirror-mirror/src/foreign_impls/vec.rs           | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 143adcf..fdc64e9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -150,8 +150,7 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    let value = self.to_value();
-                    Box::new(Self::from_reflect(&value).unwrap())
+                    Box::new(Self::from_reflect(self).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 266c362..9fd4e11 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -59,8 +59,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/btree_map.rs b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
index 3afed9a..ed2b633 100644
--- a/crates/mirror-mirror/src/foreign_impls/btree_map.rs
+++ b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
@@ -117,8 +117,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 2675b45..3afbd12 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -107,8 +107,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-- 
2.43.0


From 2d095af8dc8110d80e1e5efcfa6542f0a910d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 05/25] fix: setting a StructValue field again replaces it
 instead of duplicating its name

---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..164de40 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From 0ccd3d086af1c5e1fb06e80e6fcb14117d115619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 06/25] fix: StructValue::fields_mut yields the fields in the
 order fields does

---
 crates/mirror-mirror/src/struct_.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 164de40..5df40c4 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,12 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
-        let iter = self
-            .fields
-            .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+        // yield the fields in the same order as `fields`
+        let mut fields = self.fields.iter_mut().collect::<BTreeMap<_, _>>();
+        let iter = self.field_names.iter().filter_map(move |name| {
+            let value = fields.remove(name)?;
+            Some((&**name, value.as_reflect_mut()))
+        });
         Box::new(iter)
     }
 
-- 
2.43.0


From 56fd957de87a9185cbacb83e456e2f1425d07afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 07/25] fix: report the remaining length of partially consumed
 iterators

---
 crates/mirror-mirror/src/array.rs        | 9 +++++----
 crates/mirror-mirror/src/key_path.rs     | 8 ++++++++
 crates/mirror-mirror/src/struct_.rs      | 9 +++++----
 crates/mirror-mirror/src/tuple.rs        | 9 +++++----
 crates/mirror-mirror/src/tuple_struct.rs | 9 +++++----
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..4397269 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,12 +45,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.array.len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.array.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 5c69a71..a816d13 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index 5df40c4..cbe82de 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -222,12 +222,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.struct_.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.struct_.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..f485fc4 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,12 +339,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..2e8f9f8 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,12 +190,13 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
-}
 
-impl<'a> ExactSizeIterator for Iter<'a> {
-    fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.tuple_struct.fields_len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
+impl<'a> ExactSizeIterator for Iter<'a> {}
+
 impl<'a> FusedIterator for Iter<'a> {}
-- 
2.43.0


From b3893a397b77879414f0b0dcfc228fc3bca74f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 08/25] fix: enum fields no longer shadow the variables of the
 derived code

---
 .../src/derive_reflect/enum_.rs               | 116 +++++++++---------
 1 file changed, 61 insertions(+), 55 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..a933b04 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,3 @@
-use alloc::borrow::Cow;
-
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -130,22 +128,22 @@ fn expand_reflect(
     let fn_patch = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
-            let field_names = variant.field_names();
+            let field_patterns = variant.field_patterns();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = field.ident;
-                        let ident_string = stringify(ident);
+                        let fake_ident = &field.fake_ident;
+                        let ident_string = stringify(field.ident);
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                                #fake_ident.patch(new_value);
                             }
                         }
                     });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             if variant_matches {
                                 #(#set_fields)*
                             }
@@ -165,7 +163,7 @@ fn expand_reflect(
                     );
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             if variant_matches {
                                 #(#set_fields)*
                             }
@@ -223,22 +221,22 @@ fn expand_reflect(
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
             let variant_ident_string = stringify(variant_ident);
-            let field_names = variant.field_names();
+            let field_patterns = variant.field_patterns();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let ident_string = stringify(ident);
+                        let fake_ident = &field.fake_ident;
+                        let ident_string = stringify(field.ident);
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            value.set_struct_field(#ident_string, #fake_ident.to_value());
                         }
                     });
 
                     let fields_len = fields.len();
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             let mut value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(#set_fields)*
                             value.finish().into()
@@ -246,7 +244,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let field_names = field_names.collect::<Vec<_>>();
+                    let field_patterns = field_patterns.collect::<Vec<_>>();
 
                     let included_fields = fields
                         .iter()
@@ -256,7 +254,7 @@ fn expand_reflect(
                     let fields_len = fields.len();
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             let mut value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(
                                 value.push_tuple_field(#included_fields.to_value());
@@ -531,21 +529,21 @@ fn expand_enum(
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
-                    let field_names = variant.field_names();
+                    let field_patterns = variant.field_patterns();
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let fake_ident = &field.fake_ident;
+                            let ident_string = stringify(field.ident);
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#fake_ident);
                                 }
                             }
                         });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             #(#return_if_name_matches)*
                         }
                     }
@@ -579,21 +577,21 @@ fn expand_enum(
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
-                    let field_names = variant.field_names();
+                    let field_patterns = variant.field_patterns();
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let fake_ident = &field.fake_ident;
+                            let ident_string = stringify(field.ident);
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#fake_ident);
                                 }
                             }
                         });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             #(#return_if_name_matches)*
                         },
                     }
@@ -625,14 +623,14 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
+                let field_patterns = variant.field_patterns();
 
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
                             fields.iter().enumerate().filter(filter_out_skipped).map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect());
@@ -642,7 +640,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { #(#field_patterns,)* } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -661,7 +659,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(#(#field_patterns,)*) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -689,14 +687,14 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
+                let field_patterns = variant.field_patterns();
 
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
                             fields.iter().enumerate().filter(filter_out_skipped).map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let field_name = &field.fake_ident;
                                     quote! {
                                         if #idx == index {
                                             return Some(#field_name.as_reflect_mut());
@@ -706,7 +704,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { #(#field_patterns,)* } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -725,7 +723,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(#(#field_patterns,)*) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -762,20 +760,20 @@ fn expand_enum(
     let fn_fields_mut = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
-            let field_names = variant.field_names().collect::<Vec<_>>();
+            let field_patterns = variant.field_patterns().collect::<Vec<_>>();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let code_for_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let field = stringify(ident);
+                        let fake_ident = &field.fake_ident;
+                        let field = stringify(field.ident);
                         quote! {
-                            (#field, #ident.as_reflect_mut()),
+                            (#field, #fake_ident.as_reflect_mut()),
                         }
                     });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             let iter = [#(#code_for_fields)*];
                             VariantFieldIterMut::new_struct_variant(iter)
                         },
@@ -788,7 +786,7 @@ fn expand_enum(
                         .map(|field| &field.fake_ident);
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             let iter = [#(#included_fields.as_reflect_mut(),)*];
                             VariantFieldIterMut::new_tuple_variant(iter)
                         },
@@ -865,8 +863,6 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
-
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
@@ -882,7 +878,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { .. } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -901,7 +897,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(..) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -963,12 +959,19 @@ impl<'a> VariantData<'a> {
                         let fields = fields
                             .named
                             .iter()
-                            .map(|field| {
+                            .enumerate()
+                            .map(|(index, field)| {
                                 let ident = field.ident.as_ref().unwrap();
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
+                                let fake_ident = quote::format_ident!("field_{index}");
 
-                                Ok(NamedField { ident, ty, attrs })
+                                Ok(NamedField {
+                                    ident,
+                                    ty,
+                                    attrs,
+                                    fake_ident,
+                                })
                             })
                             .collect::<syn::Result<Vec<_>>>()?;
 
@@ -1010,17 +1013,19 @@ impl<'a> VariantData<'a> {
 }
 
 impl<'a> VariantData<'a> {
-    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = Cow<'a, Ident>> + 'this> {
+    /// Patterns that bind each field to its `fake_ident`, so a field cannot shadow the other
+    /// variables the generated code uses.
+    fn field_patterns<'this>(&'this self) -> Box<dyn Iterator<Item = TokenStream> + 'this> {
         match &self.fields {
-            FieldsData::Named(fields) => {
-                Box::new(fields.iter().map(|field| Cow::Borrowed(field.ident)))
-            }
-            FieldsData::Unnamed(fields) => Box::new(
-                fields
-                    .iter()
-                    .enumerate()
-                    .map(|(index, _)| Cow::Owned(quote::format_ident!("field_{index}"))),
-            ),
+            FieldsData::Named(fields) => Box::new(fields.iter().map(|field| {
+                let ident = field.ident;
+                let fake_ident = &field.fake_ident;
+                quote! { #ident: #fake_ident }
+            })),
+            FieldsData::Unnamed(fields) => Box::new(fields.iter().map(|field| {
+                let fake_ident = &field.fake_ident;
+                quote! { #fake_ident }
+            })),
             FieldsData::Unit => Box::new(core::iter::empty()),
         }
     }
@@ -1036,6 +1041,7 @@ struct NamedField<'a> {
     ident: &'a Ident,
     ty: &'a Type,
     attrs: InnerAttrs,
+    fake_ident: Ident,
 }
 
 impl<'a> NamedField<'a> {
-- 
2.43.0


From a13ba5d779d8c7ffec1bdb3e459b082b9436379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 09/25] fix: number the fields of tuple structs and enum
 variants without the skipped ones

---
 .../src/derive_reflect/enum_.rs               | 29 ++++++++-----------
 .../src/derive_reflect/tuple_struct.rs        | 28 +++++++++++-------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index a933b04..28bbba9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -151,7 +151,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -404,12 +404,16 @@ fn expand_from_reflect(
                 }
             }
             FieldsData::Unnamed(fields) => {
-                let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                // skipped fields don't count towards the index of the fields that follow them
+                let mut next_idx = 0_usize;
+                let set_fields = fields.iter().map(|field| {
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
                         }
                     } else {
+                        let idx = next_idx;
+                        next_idx += 1;
                         let ty = &field.ty;
                         if let Some(from_reflect_with) = field.from_reflect_with() {
                             quote! {
@@ -628,7 +632,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -647,7 +651,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -692,7 +696,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -711,7 +715,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -866,7 +870,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -885,7 +889,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -1084,15 +1088,6 @@ where
     }
 }
 
-impl<T> Skippable for (usize, T)
-where
-    T: Skippable + ?Sized,
-{
-    fn skip(&self) -> bool {
-        self.1.skip()
-    }
-}
-
 impl Skippable for VariantData<'_> {
     fn skip(&self) -> bool {
         self.attrs.skip
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..da02a2e 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,6 +91,7 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
+            .enumerate()
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
@@ -195,6 +196,8 @@ fn expand_from_reflect(
     generics: &Generics<'_>,
 ) -> TokenStream {
     let fn_from_reflect = {
+        // skipped fields don't count towards the index of the fields that follow them
+        let mut next_reflect_idx = 0_usize;
         let code_for_fields = fields.iter().enumerate().map(|(idx, field)| {
             let field_index = Index {
                 index: idx as u32,
@@ -203,27 +206,30 @@ fn expand_from_reflect(
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
-                quote_spanned! {span=>
+                return quote_spanned! {span=>
                     #field_index: ::core::default::Default::default(),
-                }
-            } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
+                };
+            }
+            let reflect_idx = next_reflect_idx;
+            next_reflect_idx += 1;
+            if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflect_idx)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +275,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #reflect_idx => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +301,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflect_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflect_idx => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From 79c84bb19777234f5d1fb66f9af6b049408f8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:40 +0000
Subject: [PATCH 10/25] fix: describing recursive tuple structs and enums
 terminates

---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 28bbba9..d5a50e3 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -110,8 +110,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index da02a2e..8a6db4b 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 46c9969ea595255b514c95b40b61ef80011df14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 11/25] fix: from_reflect_with works on any field of a tuple
 struct

---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 8a6db4b..a52c1fa 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -217,7 +217,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflect_idx)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From 8d7fda852a7909e7bcf8a5d8281fd6d980cdc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 12/25] fix: the fields of tuple variants of derived enums have
 no name

---
 .../src/derive_reflect/enum_.rs               | 72 ++++++++-----------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d5a50e3..b6f610f 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -864,53 +864,37 @@ fn expand_enum(
     };
 
     let fn_name_at = {
-        let match_arms =
-            variants.iter().filter(filter_out_skipped).map(|variant| {
-                let variant_ident = &variant.ident;
-                match &variant.fields {
-                    FieldsData::Named(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.ident;
-                                    quote! {
-                                        if #idx == index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
-
-                        quote! {
-                            Self::#variant_ident { .. } => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
-                    }
-                    FieldsData::Unnamed(fields) => {
-                        let return_if_index_matches =
-                            fields.iter().filter(filter_out_skipped).enumerate().map(
-                                |(idx, field)| {
-                                    let field_name = &field.fake_ident;
-                                    quote! {
-                                        if #idx == index {
-                                            return Some(::core::stringify!(#field_name));
-                                        }
-                                    }
-                                },
-                            );
+        let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
+            let variant_ident = &variant.ident;
+            match &variant.fields {
+                FieldsData::Named(fields) => {
+                    let return_if_index_matches = fields
+                        .iter()
+                        .filter(filter_out_skipped)
+                        .enumerate()
+                        .map(|(idx, field)| {
+                            let field_name = &field.ident;
+                            quote! {
+                                if #idx == index {
+                                    return Some(::core::stringify!(#field_name));
+                                }
+                            }
+                        });
 
-                        quote! {
-                            Self::#variant_ident(..) => {
-                                #(#return_if_index_matches)*
-                            },
-                        }
+                    quote! {
+                        Self::#variant_ident { .. } => {
+                            #(#return_if_index_matches)*
+                        },
                     }
-                    FieldsData::Unit => quote! {
-                        Self::#variant_ident => {},
-                    },
                 }
-            });
+                FieldsData::Unnamed(_) => quote! {
+                    Self::#variant_ident(..) => {},
+                },
+                FieldsData::Unit => quote! {
+                    Self::#variant_ident => {},
+                },
+            }
+        });
         quote! {
             fn name_at(&self, index: usize) -> Option<&str> {
                 match self {
-- 
2.43.0


From 366d518afaffbe6b83ff6e4b939b655fb73d02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 13/25] fix: empty arrays always have a default value

---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..c7593c8 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1269,7 +1269,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From 2a91230955e5597bb58039fab1e9d83c12ac3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 14/25] fix: the meta data and docs of a variant are available
 at its key path

---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c7593c8..c0d763a 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1399,9 +1399,9 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.meta(key),
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
+            TypeAtPath::Variant(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1414,8 +1414,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From d96feb9a31de0a435ff0d8e42f15e9138f86b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 15/25] fix: leave lifetime arguments out of simple type names

---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..a00c66d 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -295,8 +295,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // some compilers include (erased) lifetimes in type names
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0


From 96daee197eb1154290acef835b60541f6e00404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 16/25] fix: keep the leading underscore of names in simple
 type names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index a00c66d..686bba0 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,14 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        // types inside unnamed constants have paths like `foo::_::Bar`
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        // loop because the path segments of nested unnamed constants overlap
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From 1cdbcb9321b4580ad13f852107b6d69bad6a7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 17/25] fix: pretty printing falls back to the full name of
 types without a simple name

---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..95fe4ae 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -51,10 +51,11 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+    // `SimpleTypeName` fails on the type names it doesn't support
+    let mut simple_name = alloc::string::String::new();
+    match super::SimpleTypeName::new(type_name) {
+        Some(name) if write!(simple_name, "{name}").is_ok() => f.write_str(&simple_name),
+        _ => f.write_str(type_name),
     }
 }
 
-- 
2.43.0


From 5ac88b6d6a35a74bafc3df2c655f6b55309b093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 18/25] fix: struct and enum values downcast like the other
 kinds of values

---
 crates/mirror-mirror/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/value.rs b/crates/mirror-mirror/src/value.rs
index 34808da..e9155b6 100644
--- a/crates/mirror-mirror/src/value.rs
+++ b/crates/mirror-mirror/src/value.rs
@@ -195,11 +195,11 @@ impl Reflect for Value {
     }
 
     fn as_any(&self) -> &dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any())
     }
 
     fn as_any_mut(&mut self) -> &mut dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any_mut())
     }
 
     fn as_reflect(&self) -> &dyn Reflect {
-- 
2.43.0


From 3a6da852b773726a784fd049f5cdc4bc1a3ac8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 19/25] fix: build type descriptors without holding the lock of
 the cache

---
 crates/mirror-mirror/src/type_info/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c0d763a..d7f3c73 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -38,8 +38,8 @@ pub use self::simple_type_name::SimpleTypeName;
 pub trait DescribeType: 'static {
     /// Creates a type descriptor for the current type.
     ///
-    /// On targets with the standard library, it's done only once per process, then subsequent
-    /// accesses are "free" because the result is cached. On non-std targets, the type descriptor
+    /// On targets with the standard library, the result is cached for the rest of the process, so
+    /// subsequent accesses are "free". On non-std targets, the type descriptor
     /// is recomputed and reallocated on each call.
     fn type_descriptor() -> Cow<'static, TypeDescriptor> {
         #[cfg(feature = "std")]
@@ -65,13 +65,16 @@ pub trait DescribeType: 'static {
                 return Cow::Borrowed(info);
             }
 
+            // don't hold the lock while building since that runs code outside this crate, which might
+            // panic or get other type descriptors
+            let mut graph = TypeGraph::default();
+            let id = Self::build(&mut graph);
+            let info = TypeDescriptor::new(id, graph);
+
             let mut map = lock.write().unwrap();
-            let info = map.entry(type_id).or_insert_with(|| {
-                let mut graph = TypeGraph::default();
-                let id = Self::build(&mut graph);
-                let info = TypeDescriptor::new(id, graph);
-                Box::leak(Box::new(info))
-            });
+            let info = map
+                .entry(type_id)
+                .or_insert_with(|| Box::leak(Box::new(info)));
             Cow::Borrowed(*info)
         }
 
-- 
2.43.0


From f88d9f417b143ecd3dffa42377ac0d16bbd022e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 20/25] Add model checking hook for the type descriptor cache

Guarded by --cfg mirror_mirror_model_check
---
 crates/mirror-mirror/src/lib.rs           |   7 +
 crates/mirror-mirror/src/model_check.rs   | 148 ++++++++++++++++++++++
 crates/mirror-mirror/src/type_info/mod.rs |   4 +
 3 files changed, 159 insertions(+)
 create mode 100644 crates/mirror-mirror/src/model_check.rs

diff --git a/crates/mirror-mirror/src/lib.rs b/crates/mirror-mirror/src/lib.rs
index 2675667..05f7b6e 100644
--- a/crates/mirror-mirror/src/lib.rs
+++ b/crates/mirror-mirror/src/lib.rs
@@ -249,6 +249,9 @@
 #![allow(
     elided_lifetimes_in_paths,
     clippy::type_complexity,
+    // for `cfg(mirror_mirror_model_check)`
+    unknown_lints,
+    unexpected_cfgs,
     // because speedy
     clippy::not_unsafe_ptr_arg_deref,
 )]
@@ -333,6 +336,10 @@ pub mod value;
 
 pub mod try_visit;
 
+#[cfg(all(feature = "std", mirror_mirror_model_check))]
+#[doc(hidden)]
+pub mod model_check;
+
 mod foreign_impls;
 mod reflect_eq;
 
diff --git a/crates/mirror-mirror/src/model_check.rs b/crates/mirror-mirror/src/model_check.rs
new file mode 100644
index 0000000..f90fe07
--- /dev/null
+++ b/crates/mirror-mirror/src/model_check.rs
@@ -0,0 +1,148 @@
+//! Stand-ins for synchronization primitives that let a model checker control the order in which
+//! threads use them.
+//!
+//! Only compiled with `--cfg mirror_mirror_model_check`.
+
+#![allow(missing_debug_implementations)]
+
+use core::ops::Deref;
+use core::ops::DerefMut;
+use std::sync::LockResult;
+use std::sync::OnceLock;
+use std::sync::PoisonError;
+use std::sync::TryLockError;
+use std::sync::TryLockResult;
+
+/// What a thread is about to do, or has just done, with a lock.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum LockOp {
+    New,
+    Read,
+    Write,
+    TryRead,
+    TryWrite,
+    ReleaseRead,
+    ReleaseWrite,
+}
+
+/// Called at every operation on a lock.
+///
+/// For `Read` and `Write` it must not return before the lock can be acquired. For `TryRead` and
+/// `TryWrite` it must return whether the lock is acquired. What it returns for the other
+/// operations is ignored.
+pub type Scheduler = fn(op: LockOp, lock: usize) -> bool;
+
+static SCHEDULER: OnceLock<Scheduler> = OnceLock::new();
+
+/// Set the scheduler for the current process.
+pub fn set_scheduler(scheduler: Scheduler) {
+    let _ = SCHEDULER.set(scheduler);
+}
+
+fn at(op: LockOp, lock: usize) -> bool {
+    SCHEDULER
+        .get()
+        .map_or(true, |scheduler| scheduler(op, lock))
+}
+
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+        at(LockOp::New, 0);
+        Self(std::sync::RwLock::new(value))
+    }
+
+    fn id(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn read(&self) -> LockResult<ReadGuard<'_, T>> {
+        at(LockOp::Read, self.id());
+        map_result(self.0.read(), |guard| ReadGuard(Some(guard), self.id()))
+    }
+
+    pub fn write(&self) -> LockResult<WriteGuard<'_, T>> {
+        at(LockOp::Write, self.id());
+        map_result(self.0.write(), |guard| WriteGuard(Some(guard), self.id()))
+    }
+
+    pub fn try_read(&self) -> TryLockResult<ReadGuard<'_, T>> {
+        if at(LockOp::TryRead, self.id()) {
+            map_try_result(self.0.try_read(), |guard| ReadGuard(Some(guard), self.id()))
+        } else {
+            Err(TryLockError::WouldBlock)
+        }
+    }
+
+    pub fn try_write(&self) -> TryLockResult<WriteGuard<'_, T>> {
+        if at(LockOp::TryWrite, self.id()) {
+            map_try_result(self.0.try_write(), |guard| {
+                WriteGuard(Some(guard), self.id())
+            })
+        } else {
+            Err(TryLockError::WouldBlock)
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+}
+
+fn map_result<A, B>(result: LockResult<A>, f: impl FnOnce(A) -> B) -> LockResult<B> {
+    match result {
+        Ok(guard) => Ok(f(guard)),
+        Err(err) => Err(PoisonError::new(f(err.into_inner()))),
+    }
+}
+
+fn map_try_result<A, B>(result: TryLockResult<A>, f: impl FnOnce(A) -> B) -> TryLockResult<B> {
+    match result {
+        Ok(guard) => Ok(f(guard)),
+        Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(f(
+            err.into_inner()
+        )))),
+        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+    }
+}
+
+pub struct ReadGuard<'a, T>(Option<std::sync::RwLockReadGuard<'a, T>>, usize);
+
+impl<T> Deref for ReadGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.0.as_ref().unwrap()
+    }
+}
+
+impl<T> Drop for ReadGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0 = None;
+        at(LockOp::ReleaseRead, self.1);
+    }
+}
+
+pub struct WriteGuard<'a, T>(Option<std::sync::RwLockWriteGuard<'a, T>>, usize);
+
+impl<T> Deref for WriteGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.0.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for WriteGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for WriteGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0 = None;
+        at(LockOp::ReleaseWrite, self.1);
+    }
+}
diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index d7f3c73..9447fe5 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -46,6 +46,10 @@ pub trait DescribeType: 'static {
         {
             use crate::__private::*;
             use std::collections::HashMap;
+
+            #[cfg(mirror_mirror_model_check)]
+            use crate::model_check::RwLock;
+            #[cfg(not(mirror_mirror_model_check))]
             use std::sync::RwLock;
 
             // a map required for generic types to have different type descriptors such as
-- 
2.43.0


From c7c01c9b39cb260858b52ec01a2f992e20cb573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 21/25] fix: reflected equality of maps compares the keys
 themselves

Looking the keys of one map up in the other converts them to its key type,
which made equality asymmetric for maps with different key types, unequal to
itself for keys with skipped fields, and equal for opaque keys.
---
 crates/mirror-mirror/src/reflect_eq.rs | 40 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/mirror-mirror/src/reflect_eq.rs b/crates/mirror-mirror/src/reflect_eq.rs
index e3b9413..a29f00a 100644
--- a/crates/mirror-mirror/src/reflect_eq.rs
+++ b/crates/mirror-mirror/src/reflect_eq.rs
@@ -1,3 +1,5 @@
+use alloc::collections::VecDeque;
+
 use crate::{
     enum_::{VariantField, VariantKind},
     Array, Enum, List, Map, Reflect, ReflectRef, Struct, Tuple, TupleStruct,
@@ -253,23 +255,29 @@ fn reflect_eq_list(a: &dyn List, b: &dyn List) -> Option<bool> {
 }
 
 fn reflect_eq_map(a: &dyn Map, b: &dyn Map) -> Option<bool> {
-    Some(
-        a.len() == b.len() && {
-            for (key, value_a) in a.iter() {
-                let Some(value_b) = b.get(key) else {
-                    return Some(false);
-                };
-                match reflect_eq(value_a, value_b) {
-                    Some(true) => {}
-                    Some(false) => {
-                        return Some(false);
-                    }
-                    None => return None,
-                }
+    if a.len() != b.len() {
+        return Some(false);
+    }
+
+    // keys are compared like everything else, `b.get(key)` would convert them to the key type of
+    // `b` first, which might lose part of them
+    let mut entries_b = b.iter().collect::<VecDeque<_>>();
+
+    for (key_a, value_a) in a.iter() {
+        let mut found = None;
+        for (index, (key_b, value_b)) in entries_b.iter().enumerate() {
+            if reflect_eq(key_a, *key_b)? && reflect_eq(value_a, *value_b)? {
+                found = Some(index);
+                break;
             }
-            true
-        },
-    )
+        }
+        let Some(index) = found else {
+            return Some(false);
+        };
+        entries_b.remove(index);
+    }
+
+    Some(true)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2eefc7d77d1f76626626a0a82c04afb5438538ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 22/25] fix: enums that contain themselves in their first
 variant have no default value

Asking for it used to overflow the stack.
---
 crates/mirror-mirror/src/type_info/mod.rs | 47 +++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 9447fe5..a690cff 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -4,6 +4,7 @@ use core::iter::Peekable;
 use alloc::borrow::Cow;
 use alloc::boxed::Box;
 use alloc::collections::BTreeMap;
+use alloc::collections::BTreeSet;
 use alloc::string::String;
 use alloc::vec::Vec;
 
@@ -891,17 +892,63 @@ impl<'a> EnumType<'a> {
     }
 
     pub fn default_value(self) -> Option<Value> {
+        if self.default_value_contains_itself() {
+            return None;
+        }
         let mut variants = self.variants();
         let first_variant = variants.next()?;
         first_variant.default_value()
     }
 
     pub fn has_default_value(&self) -> bool {
+        if self.default_value_contains_itself() {
+            return false;
+        }
         let mut variants = self.variants();
         variants
             .next()
             .map_or(false, |first_variant| first_variant.has_default_value())
     }
+
+    /// Whether the default value would contain another default value of this enum, and so never
+    /// end.
+    fn default_value_contains_itself(self) -> bool {
+        let mut seen = BTreeSet::new();
+        let mut remaining = Vec::from([self.node.id]);
+        while let Some(id) = remaining.pop() {
+            if !seen.insert(id) {
+                if id == self.node.id {
+                    return true;
+                }
+                continue;
+            }
+            match self.graph.get(id) {
+                TypeNode::Struct(node) => {
+                    remaining.extend(node.fields.values().map(|field| field.id));
+                }
+                TypeNode::TupleStruct(node) => {
+                    remaining.extend(node.fields.iter().map(|field| field.id));
+                }
+                TypeNode::Tuple(node) => {
+                    remaining.extend(node.fields.iter().map(|field| field.id));
+                }
+                TypeNode::Enum(node) => match node.variants.first() {
+                    Some(VariantNode::Struct(variant)) => {
+                        remaining.extend(variant.fields.values().map(|field| field.id));
+                    }
+                    Some(VariantNode::Tuple(variant)) => {
+                        remaining.extend(variant.fields.iter().map(|field| field.id));
+                    }
+                    Some(VariantNode::Unit(_)) | None => {}
+                },
+                TypeNode::Array(node) if node.len > 0 => remaining.push(node.field_type_id),
+                // their default values are empty
+                TypeNode::Array(_) | TypeNode::List(_) | TypeNode::Map(_) => {}
+                TypeNode::Scalar(_) | TypeNode::Opaque(_) => {}
+            }
+        }
+        false
+    }
 }
 
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
-- 
2.43.0


From b4ff17f9a3737b8f93a7337605dc3d0e076398d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 23/25] fix: debug output of a box is that of the value in it

---
 crates/mirror-mirror/src/foreign_impls/boxed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/boxed.rs b/crates/mirror-mirror/src/foreign_impls/boxed.rs
index 5387ffd..cfcd2cd 100644
--- a/crates/mirror-mirror/src/foreign_impls/boxed.rs
+++ b/crates/mirror-mirror/src/foreign_impls/boxed.rs
@@ -3,7 +3,6 @@ use alloc::boxed::Box;
 use core::any::Any;
 use core::fmt;
 
-use crate::reflect_debug;
 use crate::type_info::graph::NodeId;
 use crate::type_info::graph::TypeGraph;
 use crate::DescribeType;
@@ -73,7 +72,7 @@ where
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        reflect_debug(self, f)
+        <T as Reflect>::debug(self, f)
     }
 }
 
-- 
2.43.0


From 3fc4be38ebf67f3df5fb994e22ae0171d1d49d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 24/25] fix: debug output of tuples shows their fields

It was the name of the type.
---
 crates/mirror-mirror/src/lib.rs   | 1 +
 crates/mirror-mirror/src/tuple.rs | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/lib.rs b/crates/mirror-mirror/src/lib.rs
index 05f7b6e..4d8cbba 100644
--- a/crates/mirror-mirror/src/lib.rs
+++ b/crates/mirror-mirror/src/lib.rs
@@ -1237,6 +1237,7 @@ pub fn reflect_debug(value: &dyn Reflect, f: &mut core::fmt::Formatter<'_>) -> c
             }
             f.finish()
         }
+        ReflectRef::Tuple(inner) if inner.fields_len() == 0 => write!(f, "()"),
         ReflectRef::Tuple(inner) => {
             let mut f = f.debug_tuple("");
             for field in inner.fields() {
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index f485fc4..55fb35a 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -6,6 +6,7 @@ use core::fmt::Debug;
 use core::iter::FusedIterator;
 
 use crate::iter::ValueIterMut;
+use crate::reflect_debug;
 use crate::type_info::graph::NodeId;
 use crate::type_info::graph::OpaqueNode;
 use crate::type_info::graph::TupleNode;
@@ -205,7 +206,7 @@ macro_rules! impl_tuple {
             }
 
             fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-                write!(f, "{}", core::any::type_name::<Self>())
+                reflect_debug(self, f)
             }
 
             fn reflect_owned(self: Box<Self>) -> ReflectOwned {
-- 
2.43.0


From ef80eda0a35e7ccaa21c68a75f91d01a8e7c2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:45 +0000
Subject: [PATCH 25/25] fix: pretty print tuples of one element with their
 comma

---
 crates/mirror-mirror/src/type_info/pretty_print.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 95fe4ae..bd31906 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -114,6 +114,9 @@ impl<'a> PrettyPrintRoot for TupleType<'a> {
                 f.write_str(", ")?;
             }
         }
+        if self.fields_len() == 1 {
+            f.write_char(',')?;
+        }
         f.write_str(")")?;
         Ok(())
     }
-- 
2.43.0

