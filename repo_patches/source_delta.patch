From ee364b79f1e368915d02ffbba0b2799701e7ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 01/18] fix: pick a primitive type that holds every
 discriminant of an enum with negative ones

---
 packed_struct_codegen/src/primitive_enum.rs | 25 +++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..a220425 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,23 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        let any_negative = v.iter().any(|d| d.negative);
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
-                    "i64".into()
+            } else if any_negative {
+                // a signed type has to hold both the negative and the positive discriminants
+                let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+                let fits = |bits: u32| n >= -(1i128 << (bits - 1)) && n < (1i128 << (bits - 1));
+                if fits(8) {
+                    "i8".into()
+                } else if fits(16) {
+                    "i16".into()
+                } else if fits(32) {
+                    "i32".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i64".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From 258073db82f4530f772fc81094bfcfd682b828c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 02/18] fix: keep generated locals apart from field names when
 unpacking

---
 packed_struct_codegen/src/pack_codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..8f307a4 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -51,20 +51,23 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
-        for field in &parsed.fields {
+        // The locals that hold the unpacked values are numbered, so that no field name can
+        // shadow or be mixed up with them, or with the names used by the generated code.
+        for (n, field) in parsed.fields.iter().enumerate() {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target = quote::format_ident!("__packed_struct_field_{}", n);
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target = quote::format_ident!("__packed_struct_field_{}_{}", n, i);
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From 2248df794c20df2dcc14ac5f206ec1d182f3b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 03/18] fix: enum names of raw identifiers do not include the
 r# prefix

---
 packed_struct_codegen/src/primitive_enum.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index a220425..2d4be12 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -3,6 +3,7 @@ extern crate syn;
 
 use proc_macro2::Span;
 use quote::TokenStreamExt;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use crate::utils::*;
 use crate::common::collections_prefix;
@@ -24,21 +25,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let to_display_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #name::#n => (#d)
     }}).collect();
 
     let from_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
 
     let from_str_lower: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string().to_lowercase();
+        let d = n.unraw().to_string().to_lowercase();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
-- 
2.43.0


From 59653863db3a6ae1806314f049fa19d6683a96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 04/18] fix: a byte range written from its end to its start
 covers whole bytes

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..3d23ed9 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -202,8 +202,10 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
         };
 
         if s.len() == 2 {
-            let start = parse_num(s[0])?;
-            let end = parse_num(s[1])?;
+            let a = parse_num(s[0])?;
+            let b = parse_num(s[1])?;
+            // the range can be written in either order
+            let (start, end) = (a.min(b), a.max(b));
             if multiplier > 1 {
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
             } else {
-- 
2.43.0


From 94a30d72b6783827c70a2a37a190012dfc049d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 05/18] fix: fields wider than 256 bits that do not start on a
 byte keep all their bits

---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 8f307a4..ee10ef6 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -196,7 +196,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(l.min(8) as u8);                        
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From 8c0637e0d947ba962af687b7dee7488d4e63cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 06/18] fix: the alloc configuration builds

---
 packed_struct/src/internal_prelude/no_std.rs | 1 +
 packed_struct/src/lib.rs                     | 2 --
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..4b1e831 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -3,6 +3,7 @@ pub use core::marker::PhantomData;
 pub use core::iter;
 pub use core::cell::RefCell;
 pub use core::fmt;
+pub use core::fmt::Formatter;
 pub use core::fmt::{Debug, Display};
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
diff --git a/packed_struct/src/lib.rs b/packed_struct/src/lib.rs
index 833a200..52b4e6f 100644
--- a/packed_struct/src/lib.rs
+++ b/packed_struct/src/lib.rs
@@ -318,8 +318,6 @@
 
 #![cfg_attr(not(feature = "std"), no_std)]
 
-#![cfg_attr(feature="alloc", feature(alloc))]
-
 extern crate packed_struct_codegen;
 
 #[cfg(feature="alloc")]
-- 
2.43.0


From b47c33ff591d137e5e4e4d7825299a0cd01c36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 07/18] fix: reject arrays whose bits cannot be divided among
 their elements

---
 packed_struct_codegen/src/pack_parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..38a6201 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -211,10 +211,10 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
 
             let size = get_expr_int_val(&type_array.len)?;
 
-            let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if (mp.bit_width % size) != 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
+            let element_size_bits = mp.bit_width / size;
 
             let mut elements = vec![];
             for i in 0..size {
-- 
2.43.0


From fcebf2bc0011a6c573f88311c7ce51d50a170598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 08/18] fix: reject fields whose size and position contradict
 each other

---
 packed_struct_codegen/src/pack_parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 38a6201..d8bddf5 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -189,6 +189,12 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
         return Err(syn::Error::new(field.span(), "Couldn't determine the bit/byte width for this field."));
     };
 
+    if let BitsPositionParsed::Range(a, b) = bits_position {
+        if (b as isize - a as isize).unsigned_abs() + 1 != bit_width {
+            return Err(syn::Error::new(field.span(), "The size of this field does not match its position."));
+        }
+    }
+
     Ok(FieldMidPositioning {
         bit_width,
         bits_position
-- 
2.43.0


From 238911d173db75f989ae4b7d71158ca2b4aeaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 09/18] fix: reject integer fields that are narrower than their
 declared type

---
 packed_struct_codegen/src/pack_parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index d8bddf5..54c58a8 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -136,7 +136,7 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
     let mut array_size = 1;
     let bit_width_builtin: Option<usize>;
 
-    let _ty = match &field.ty {
+    let ty = match &field.ty {
         syn::Type::Path(type_path) => {
             let segment = get_single_segment(type_path)?;
 
@@ -195,6 +195,10 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
         }
     }
 
+    if ty.ident == "Integer" && bit_width_builtin.map_or(false, |b| bit_width < b * array_size) {
+        return Err(syn::Error::new(field.span(), "This field is too narrow for its type."));
+    }
+
     Ok(FieldMidPositioning {
         bit_width,
         bits_position
-- 
2.43.0


From a58615fd859fb1bb127f6fd2840437638506883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 10/18] fix: reject empty exclusive ranges

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 3d23ed9..09f6321 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -223,6 +223,9 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             if end == 0 {
                 panic!("Ending cannot be 0 for exclusive ranges.");
             }
+            if end <= start {
+                panic!("Empty range of bits. Tried to parse: '{}'", v);
+            }
             
             if multiplier > 1 {
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end-1) * multiplier)-1));
-- 
2.43.0


From 676b30a1ed0055648ad65d578bd8ef8491d90aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 11/18] fix: reject positions and sizes that are not numbers
 instead of ignoring them

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 09f6321..b2f4ccd 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -41,7 +41,7 @@ impl PackStructAttribute {
         }
 
         if name == PackStructAttributeKind::SizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackStructAttribute::SizeBytes(b));
         }
 
@@ -115,32 +115,32 @@ impl PackFieldAttribute {
         }
 
         if name == PackFieldAttributeKind::BitPosition.get_attr_name() {
-            let b = parse_position_val(val, 1)?;
+            let b = parse_position_val(val, 1).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::BitPosition(b));
         }
 
         if name == PackFieldAttributeKind::BytePosition.get_attr_name() {
-            let b = parse_position_val(val, 8)?;
+            let b = parse_position_val(val, 8).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::BytePosition(b));
         }
 
         if name == PackFieldAttributeKind::SizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::SizeBits(b * 8));
         }
 
         if name == PackFieldAttributeKind::SizeBits.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::SizeBits(b));
         }
 
         if name == PackFieldAttributeKind::ElementSizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::ElementSizeBits(b * 8));
         }
 
         if name == PackFieldAttributeKind::ElementSizeBits.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).unwrap_or_else(|e| panic!("{}", e));
             return Ok(PackFieldAttribute::ElementSizeBits(b));
         }
 
-- 
2.43.0


From 707bf529caf238be2325951020b6c63c5cb7dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 12/18] fix: negative zero is the discriminant zero

---
 packed_struct_codegen/src/primitive_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 2d4be12..49136b0 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -254,7 +254,9 @@ fn get_unitary_enum(input: &syn::DeriveInput) -> syn::Result<Vec<Variant>> {
 
                 match **expr {
                     syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(ref lit_int), .. }) => {
-                        (lit_int.base10_parse()?, true, lit_int.suffix().into())
+                        // there is no negative zero
+                        let discriminant: u64 = lit_int.base10_parse()?;
+                        (discriminant, discriminant != 0, lit_int.suffix().into())
                     },
                     _ => return Err(syn::Error::new(expr.span(), "Unsupported enum const expr (negated)"))
                 }
-- 
2.43.0


From 698f7f5d895080f126b2e84240fed466f5b49e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 13/18] fix: positions beyond bit 2^24 are not rounded

---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index ee10ef6..447dcaf 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -174,8 +174,8 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8;
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 54c58a8..9da6f27 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -447,7 +447,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = (num_bits + 7) / 8;
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0


From b2c56a39860f9c7cb311e2704d8301aa00553f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 14/18] fix: a position with repeated ".." or ":" is malformed

`bits="1..2.."` meant bit 12 and onwards, as the separators were removed
from the text instead of from its end.
---
 packed_struct_codegen/src/pack_parse_attributes.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index b2f4ccd..53136c9 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -182,13 +182,11 @@ impl PackFieldAttribute {
 /// Returns: INCLUSIVE range
 pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionParsed, String> {
     let v = v.trim();
-    if v.ends_with("..") {
-        let v = v.replace("..", "");
-        let n = parse_num(&v)?;
+    if let Some(v) = v.strip_suffix("..") {
+        let n = parse_num(v)?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
-    } else if v.ends_with(':') {
-        let v = v.replace(':', "");
-        let n = parse_num(&v)?;
+    } else if let Some(v) = v.strip_suffix(':') {
+        let n = parse_num(v)?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
     } else if v.contains(':') || v.contains("..=") {
         // inclusive
-- 
2.43.0


From 190d10348a5fe0e42c74a192259c6c541b625c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 15/18] fix: attribute contents that are not understood are
 rejected

`bits=3`, `bits("3")` or a missing comma were silently ignored and the field
was laid out somewhere else. A quoted value that reaches the macro through an
expression fragment of a macro_rules macro was ignored, too; it is now used.
---
 packed_struct_codegen/src/pack_parse.rs | 29 +++++++++++--------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 9da6f27..215e741 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -23,23 +23,20 @@ pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str,
         }
 
         if attr.path().is_ident(main_attribute) {
-            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated);
-            let nested = if let Ok(nested) = nested {
-                nested
-            } else {
+            if let syn::Meta::Path(_) = attr.meta {
                 continue;
-            };
-            for meta in nested {
-                match meta {            
-                    syn::Meta::Path(_) => (),
-                    syn::Meta::List(_) => (),
-                    syn::Meta::NameValue(nv) => {
-                        if let (Some(key), syn::Expr::Lit(lit)) = (nv.path.get_ident(), &nv.value) {
-                            if let syn::Lit::Str(lit) = &lit.lit {
-                                r.push((key.to_string(), lit.value()));
-                            }
-                        }
-                    }
+            }
+
+            for meta in attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)? {
+                let nv = meta.require_name_value()?;
+                let mut value = &nv.value;
+                // a value that comes from a macro can be wrapped into a group
+                while let syn::Expr::Group(group) = value {
+                    value = &group.expr;
+                }
+                match (nv.path.get_ident(), value) {
+                    (Some(key), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. })) => r.push((key.to_string(), lit.value())),
+                    _ => return Err(syn::Error::new(nv.span(), "Expected a name and a quoted value."))
                 }
             }
         }
-- 
2.43.0


From accb0c58e7cb0c0de37e59c449006888ea231f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 16/18] fix: the width of Integer<T, Bits<N>> is known when
 Bits is imported directly

Only `packed_bits::Bits<N>` was recognized, as the text searched for began
with a space.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 215e741..eae76b4 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -97,7 +97,7 @@ fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>
                 ::syn::PathArguments::AngleBracketed(ref args) => {
                     for t in &args.args {
                         if let syn::GenericArgument::Type(ty) = t {                            
-                            let ty_str = tokens_to_string(ty);                            
+                            let ty_str = format!(" {}", tokens_to_string(ty));
                             let p = " Bits ";
                             if let Some(bits_pos) = ty_str.find(p) {
                                 let ty_start = &ty_str[(bits_pos+p.len())..];                                
-- 
2.43.0


From d93756077cbc49a5c4880d789b5ec9e32de1f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 17/18] fix: several positions or sizes given for a field have
 to agree

The first one was used and any other one ignored, such as
`bits="0..=7", bytes="1"` or `size_bits="8", size_bytes="2"`.
---
 packed_struct_codegen/src/pack_parse.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index eae76b4..69f0bd6 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -186,10 +186,24 @@ fn get_field_mid_positioning(field: &syn::Field) -> syn::Result<FieldMidPosition
         return Err(syn::Error::new(field.span(), "Couldn't determine the bit/byte width for this field."));
     };
 
-    if let BitsPositionParsed::Range(a, b) = bits_position {
-        if (b as isize - a as isize).unsigned_abs() + 1 != bit_width {
+    // every attribute has to agree with the width and the position
+    for attribute in &field_attributes {
+        let (position, width) = match *attribute {
+            PackFieldAttribute::BitPosition(p) | PackFieldAttribute::BytePosition(p) => (p, None),
+            PackFieldAttribute::SizeBits(bits) => (BitsPositionParsed::Next, Some(bits)),
+            PackFieldAttribute::ElementSizeBits(bits) => (BitsPositionParsed::Next, Some(bits * array_size)),
+            _ => (BitsPositionParsed::Next, None)
+        };
+        let width = match position {
+            BitsPositionParsed::Range(a, b) => Some((b as isize - a as isize).unsigned_abs() + 1),
+            _ => width
+        };
+        if width.map_or(false, |width| width != bit_width) {
             return Err(syn::Error::new(field.span(), "The size of this field does not match its position."));
         }
+        if position.start().map_or(false, |start| Some(start) != bits_position.start()) {
+            return Err(syn::Error::new(field.span(), "The positions given for this field do not match."));
+        }
     }
 
     if ty.ident == "Integer" && bit_width_builtin.map_or(false, |b| bit_width < b * array_size) {
@@ -339,6 +353,13 @@ impl BitsPositionParsed {
         }
     }
 
+    fn start(self) -> Option<usize> {
+        match self {
+            BitsPositionParsed::Next => None,
+            BitsPositionParsed::Start(s) | BitsPositionParsed::Range(s, _) => Some(s)
+        }
+    }
+
     pub fn range_in_order(a: usize, b: usize) -> Self {
         BitsPositionParsed::Range(::std::cmp::min(a, b), ::std::cmp::max(a, b))
     }
-- 
2.43.0


From fb34043467bb5f88f971b9978eddf46a62ba9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 18/18] fix: the width of Bits<N> is taken from a literal, not
 from any digits in it

`Integer<u8, Bits<W3>>` and `Integer<u8, Bits<{3 + 2}>>` without a position
were laid out on 3 bits and silently lost the upper bits of their values; the
width is not known there and has to be given. `Bits<0xA>` and `Bits<1_0>` are
understood now.
---
 packed_struct_codegen/src/pack_parse.rs | 41 +++++++++++++++----------
 packed_struct_codegen/src/utils_syn.rs  | 14 +++++++++
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 69f0bd6..ffdc0b6 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -12,7 +12,7 @@ use crate::utils::*;
 
 use std::ops::Range;
 
-use crate::utils_syn::{get_expr_int_val, get_single_segment, tokens_to_string};
+use crate::utils_syn::{get_expr_int_val, get_literal_int_val, get_single_segment, tokens_to_string};
 
 pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str, wrong_attribute: &str) -> syn::Result<Vec<(String, String)>> {
     let mut r = vec![];
@@ -84,6 +84,26 @@ impl IntegerEndianness {
 }
 
 
+/// The width of `Bits<5>`. Unknown if it's not spelled out, for instance `Bits<WIDTH>`.
+fn get_bits_type_width(ty: &syn::Type) -> syn::Result<Option<usize>> {
+    let path = match ty {
+        syn::Type::Path(type_path) => &type_path.path,
+        syn::Type::Group(group) => return get_bits_type_width(&group.elem),
+        syn::Type::Paren(paren) => return get_bits_type_width(&paren.elem),
+        _ => return Ok(None)
+    };
+
+    let args = match path.segments.last() {
+        Some(syn::PathSegment { ident, arguments: syn::PathArguments::AngleBracketed(args) }) if ident == "Bits" => &args.args,
+        _ => return Ok(None)
+    };
+
+    match args.first() {
+        Some(syn::GenericArgument::Const(expr)) => get_literal_int_val(expr),
+        _ => Ok(None)
+    }
+}
+
 fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>> {
     match p.ident.to_string().as_str() {
         "bool" => Ok(Some(1)),
@@ -96,22 +116,9 @@ fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>
             match p.arguments {
                 ::syn::PathArguments::AngleBracketed(ref args) => {
                     for t in &args.args {
-                        if let syn::GenericArgument::Type(ty) = t {                            
-                            let ty_str = format!(" {}", tokens_to_string(ty));
-                            let p = " Bits ";
-                            if let Some(bits_pos) = ty_str.find(p) {
-                                let ty_start = &ty_str[(bits_pos+p.len())..];                                
-                                let start = ty_start.find(|p: char| p.is_numeric());
-                                if let Some(start) = start {
-                                    let num_start = &ty_start[start..];                                    
-                                    let end = num_start.find(|p: char| !p.is_numeric());
-                                    if let Some(end) = end {
-                                        let num = &num_start[..end];
-                                        if let Ok(bits) = num.parse::<usize>() {
-                                            return Ok(Some(bits));
-                                        }
-                                    }
-                                }
+                        if let syn::GenericArgument::Type(ty) = t {
+                            if let Some(bits) = get_bits_type_width(ty)? {
+                                return Ok(Some(bits));
                             }
                         }
                     }
diff --git a/packed_struct_codegen/src/utils_syn.rs b/packed_struct_codegen/src/utils_syn.rs
index 2d6eced..d3497fb 100644
--- a/packed_struct_codegen/src/utils_syn.rs
+++ b/packed_struct_codegen/src/utils_syn.rs
@@ -19,6 +19,20 @@ pub fn get_expr_int_val(expr: &syn::Expr) -> Result<usize> {
     }
 }
 
+/// The value of a literal, also in a block. Any other expression has an unknown value.
+pub fn get_literal_int_val(expr: &syn::Expr) -> Result<Option<usize>> {
+    match expr {
+        syn::Expr::Lit(_) => get_expr_int_val(expr).map(Some),
+        syn::Expr::Group(group) => get_literal_int_val(&group.expr),
+        syn::Expr::Paren(paren) => get_literal_int_val(&paren.expr),
+        syn::Expr::Block(block) => match block.block.stmts.as_slice() {
+            [syn::Stmt::Expr(expr, None)] => get_literal_int_val(expr),
+            _ => Ok(None)
+        },
+        _ => Ok(None)
+    }
+}
+
 pub fn tokens_to_string<T: quote::ToTokens>(t: &T) -> String {
     let mut tokens = TokenStream::new();
     t.to_tokens(&mut tokens);
-- 
2.43.0

