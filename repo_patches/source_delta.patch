From f05a485c7dbaa00f91f4c1bfeefe481b52059c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 1/8] fix: do not wrap the source mask of unaligned fields
 wider than 255 bits

The running bit count was truncated to u8 before the mask lookup, so from the
33rd byte on the mask of a field that does not start on a byte boundary started
over and bits were lost when packing and unpacking.
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..9df5350 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -193,7 +193,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(l.min(8) as u8);
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From e505637dfef2c57e6e47993230da96e551d3666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 2/8] fix: refuse bytes delivered for a vector of zero-sized
 elements

---
 packed_struct/src/types_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packed_struct/src/types_vec.rs b/packed_struct/src/types_vec.rs
index 5779716..0e00103 100644
--- a/packed_struct/src/types_vec.rs
+++ b/packed_struct/src/types_vec.rs
@@ -24,7 +24,10 @@ impl<T> PackedStructSlice for Vec<T> where T: PackedStructSlice {
 
     fn unpack_from_slice(src: &[u8]) -> Result<Self, PackingError> {
         let item_size = T::packed_bytes_size(None)?;
-        if item_size == 0 || src.is_empty() { return Ok(vec![]); }
+        if src.is_empty() { return Ok(vec![]); }
+        if item_size == 0 {
+            return Err(crate::PackingError::BufferModMismatch { actual_size: src.len(), modulo_required: item_size });
+        }
         let modulo = src.len() % item_size;
         if modulo != 0 {
             return Err(crate::PackingError::BufferModMismatch { actual_size: src.len(), modulo_required: item_size });
-- 
2.43.0


From 1f5b29c394f7a951b2e510bcda0bccf8c8fe640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 3/8] fix: unpack record fields into locals whose names cannot
 clash

An array field 'a' was unpacked into locals a_0, a_1, ..., so a record that also
has a field named 'a_0' silently got that field's value as the array's element
(or the other way round). A field named 'src' shadowed the source bytes.
---
 packed_struct_codegen/src/pack_codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 9df5350..08b64e7 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -51,20 +51,23 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
-        for field in &parsed.fields {
+        // the unpacked values are named after their position, since names made from the
+        // fields' own names could clash with each other or with the names used in the code
+        for (field_i, field) in parsed.fields.iter().enumerate() {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target: syn::Ident = syn::parse_str(&format!("unpacked_{}", field_i))?;
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target: syn::Ident = syn::parse_str(&format!("unpacked_{}_{}", field_i, i))?;
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From 81f18f6a116532f015d6ea81c79022cf8f1d772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 4/8] fix: detect a primitive type that holds every
 discriminant of the enum

With negative discriminants the detected type was too small for discriminants
below -2147483648 and for positive ones that need an unsigned type of the same
width: enum { A = -1, B = 200 } was given i8, and B converted to -56.
---
 packed_struct_codegen/src/primitive_enum.rs | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..41d089d 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,22 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        // a negative discriminant makes the type signed, it then needs room for the positive ones as well
+        let signed = v.iter().any(|d| d.negative || d.suffix.starts_with('i'));
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
+            } else if signed {
+                let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+                if n < <i32>::min_value() as i128 || n > <i32>::max_value() as i128 {
                     "i64".into()
+                } else if n < <i16>::min_value() as i128 || n > <i16>::max_value() as i128 {
+                    "i32".into()
+                } else if n < <i8>::min_value() as i128 || n > <i8>::max_value() as i128 {
+                    "i16".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i8".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From 13cee16d28621669db16952a59ff1fe2cb276c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 5/8] fix: make the alloc feature compile without std again

The no_std prelude lacked Formatter, which the field table formatter (built with
alloc as well as with std) needs.
---
 packed_struct/src/internal_prelude/no_std.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..a9a2408 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -4,6 +4,7 @@ pub use core::iter;
 pub use core::cell::RefCell;
 pub use core::fmt;
 pub use core::fmt::{Debug, Display};
+pub use core::fmt::Formatter;
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
 pub use core::ops::Range;
-- 
2.43.0


From 6c3fae36a27468c319d328068656cc0eed55cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 6/8] fix: name enum variants that are raw identifiers without
 the r# prefix

---
 packed_struct_codegen/src/primitive_enum.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 41d089d..7f96443 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -3,6 +3,7 @@ extern crate syn;
 
 use proc_macro2::Span;
 use quote::TokenStreamExt;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use crate::utils::*;
 use crate::common::collections_prefix;
@@ -24,21 +25,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let to_display_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #name::#n => (#d)
     }}).collect();
 
     let from_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
 
     let from_str_lower: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string().to_lowercase();
+        let d = n.unraw().to_string().to_lowercase();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
@@ -105,7 +106,7 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
-    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
+    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.unraw().to_string())).to_uppercase(), Span::call_site());
     
 
     let mut str_format = {
-- 
2.43.0


From 03970de3eb95ca96807a001a7da9da1b33dd684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 7/8] fix: name record fields that are raw identifiers without
 the r# prefix

---
 packed_struct_codegen/src/pack_codegen_docs.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..e6908c9 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -2,18 +2,19 @@ use crate::pack::*;
 use crate::common::*;
 use proc_macro2::Span;
 use quote::{ToTokens};
+use syn::ext::IdentExt;
 use syn::parse_quote;
 use crate::utils::*;
 
 pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream> {
     let (impl_generics, ty_generics, where_clause) = parsed.derive_input.generics.split_for_impl();
     let name = &parsed.derive_input.ident;
-    let snake_name = to_snake_case(&name.to_string());
+    let snake_name = to_snake_case(&name.unraw().to_string());
     let stdlib_prefix = collections_prefix();
     let debug_fields_fn = syn::Ident::new(&format!("debug_fields_{}", snake_name), Span::call_site());
 
     let display_header = format!("{} ({} {})",
-        name,
+        name.unraw(),
         parsed.num_bytes,
         if parsed.num_bytes == 1 { "byte" } else { "bytes" }
     );
@@ -22,7 +23,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     for field in &parsed.fields {
         match field {
             FieldKind::Regular { ref ident, ref field } => {
-                let name_str = &ident.to_string();
+                let name_str = &ident.unraw().to_string();
                 let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                 
                 debug_fields.push(quote! {
@@ -35,7 +36,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
             },
             FieldKind::Array { ref ident, ref elements, .. } => {
                 for (i, field) in elements.iter().enumerate() {
-                    let name_str = format!("{}[{}]", ident, i);
+                    let name_str = format!("{}[{}]", ident.unraw(), i);
                     let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                     
                     debug_fields.push(quote! {
@@ -132,11 +133,11 @@ pub fn type_docs(parsed: &PackStruct) -> proc_macro2::TokenStream {
         for field in &parsed.fields {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    emit_field_docs(&field.bit_range, ident.to_string(), &field.ty);
+                    emit_field_docs(&field.bit_range, ident.unraw().to_string(), &field.ty);
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     for (i, field) in elements.iter().enumerate() {
-                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident, i), &field.ty);
+                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident.unraw(), i), &field.ty);
                     }
                 }
             }            
-- 
2.43.0


From 7fe6e73f89c28d233f8a9fd53424464420be0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 8/8] fix: byte ranges written from the last to the first byte
 cover all their bits

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..275a558 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -205,7 +205,9 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
-                return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
+                // the larger unit reaches up to its last bit, whichever way around the range was written
+                let (first, last) = (::std::cmp::min(start, end), ::std::cmp::max(start, end));
+                return Ok(BitsPositionParsed::Range(first * multiplier, ((last+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
             }
-- 
2.43.0

