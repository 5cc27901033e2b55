From d1d798f6e7d0eba6e989aac86bd8a8921ca5d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 1/9] fix: count each padding byte when the output accepts it

Writer::write_std140/write_std430 only added the padding to the offset once
all of it had been written. If the output failed part way through the padding
(and took each call wholly or not at all), len() no longer matched the bytes
in the output, and every later write landed at an offset other than the one
returned.
---
 src/std140/writer.rs | 2 +-
 src/std430/writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std140/writer.rs b/src/std140/writer.rs
index c9333b5..a94b689 100644
--- a/src/std140/writer.rs
+++ b/src/std140/writer.rs
@@ -131,8 +131,8 @@ impl<W: Write> Writer<W> {
 
         for _ in 0..padding {
             self.writer.write_all(&[0])?;
+            self.offset += 1;
         }
-        self.offset += padding;
 
         let value = value.as_std140();
         self.writer.write_all(bytes_of(&value))?;
diff --git a/src/std430/writer.rs b/src/std430/writer.rs
index 976bf25..2c52ea2 100644
--- a/src/std430/writer.rs
+++ b/src/std430/writer.rs
@@ -131,8 +131,8 @@ impl<W: Write> Writer<W> {
 
         for _ in 0..padding {
             self.writer.write_all(&[0])?;
+            self.offset += 1;
         }
-        self.offset += padding;
 
         let value = value.as_std430();
         self.writer.write_all(bytes_of(&value))?;
-- 
2.43.0


From 86a6804ae18f114f67fbaa4f507b4f9dc6d9621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 2/9] fix: drop the raw prefix from names in generated GLSL

A field such as r#type was emitted as 'float r#type;', which is not a GLSL
identifier.
---
 crevice-derive/src/glsl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..6bda495 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
-use syn::{parse_quote, Data, DeriveInput, Fields, Path};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
     let fields = match &input.data {
@@ -16,13 +16,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 9d94d43d8231dd10b2591ca9de8a34ac9637b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 3/9] fix: give bool its GLSL name

bool was the only supported scalar without a Glsl implementation, so a struct
with a bool field could be laid out but could not derive GlslStruct, although
the vectors of bool could.
---
 src/glsl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..b63182d 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -97,3 +97,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for crate::bool::Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From 95d5840a947cd23e18489b928fc2299856ea34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 4/9] fix: let structs with DynamicUniform fields derive
 AsStd140

The derive's output implements Debug, which the wrapper's std140 version did
not, so deriving failed to compile although every field implements AsStd140.
---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From fd8c88feeb0e210e8b20a5bfb47a7910583cb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 5/9] fix: keep padding fields from colliding with the user's
 fields

A struct with a field named like _pad0 failed to derive because the generated
struct declared that name twice.
---
 crevice-derive/src/layout.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..c77d32f 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
-use syn::{parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
 
 pub fn emit(
     input: DeriveInput,
@@ -125,13 +125,23 @@ pub fn emit(
         })
         .collect();
 
+    // Padding fields live next to the user's fields, so pick a prefix that none
+    // of those fields starts with.
+    let mut pad_prefix = String::from("_pad");
+    while fields.iter().any(|field| {
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
+        name.starts_with(&pad_prefix)
+    }) {
+        pad_prefix.insert(0, '_');
+    }
+
     let generated_struct_fields: TokenStream = fields
         .iter()
         .enumerate()
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("{}{}", pad_prefix, index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From f4e379bcaead024000e2f3b22dae266c6d243a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 6/9] fix: derive layouts without exponential constant
 evaluation

Each padding function called all earlier ones, so a struct with n fields took
2^n steps to evaluate; from 20 fields on rustc gave up with 'constant
evaluation is taking a long time'.
---
 crevice-derive/src/layout.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index c77d32f..1ffde4e 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -65,31 +65,27 @@ pub fn emit(
 
     // Computes the offset immediately AFTER the field with the given index.
     //
-    // This function depends on the generated padding calculation functions to
-    // do correct alignment. Be careful not to cause recursion!
+    // This expression must not call the generated padding calculation functions:
+    // each of them contains it, so evaluating them would take time exponential in
+    // the number of fields.
     let offset_after_field = |target: usize| {
-        let mut output = vec![quote!(0usize)];
+        let mut output = TokenStream::new();
 
-        for index in 0..=target {
-            let field_ty = &fields[index].ty;
-            let layout_ty = layout_version_of_ty(field_ty);
+        for field in &fields[..=target] {
+            let layout_ty = layout_version_of_ty(&field.ty);
+            let layout_alignment = layout_alignment_of_ty(&field.ty);
 
-            output.push(quote! {
-                + ::core::mem::size_of::<#layout_ty>()
+            output.extend(quote! {
+                offset += ::crevice::internal::align_offset(offset, #layout_alignment);
+                offset += ::core::mem::size_of::<#layout_ty>();
             });
-
-            // For every field except our target field, also add the generated
-            // padding. Padding occurs after each field, so it isn't included in
-            // this value.
-            if index < target {
-                let pad_fn = &pad_fns[index];
-                output.push(quote! {
-                    + #pad_fn()
-                });
-            }
         }
 
-        output.into_iter().collect::<TokenStream>()
+        quote!({
+            let mut offset = 0usize;
+            #output
+            offset
+        })
     };
 
     let pad_fn_impls: TokenStream = pad_fns
-- 
2.43.0


From 89224e03c3539c541384427c21aeff0e20b65824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 7/9] fix: call conversion methods by path in derived code

Method syntax picked up inherent methods and other traits' methods of the
same name on the field types.
---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 1ffde4e..5bc1603 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -153,7 +153,7 @@ pub fn emit(
             let field_name = field.ident.as_ref().unwrap();
 
             quote! {
-                #field_name: self.#field_name.#as_trait_method(),
+                #field_name: #as_trait_path::#as_trait_method(&self.#field_name),
             }
         })
         .collect();
-- 
2.43.0


From 70a1554d3863d96cc0bbe8d02c976f01459ea305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 8/9] fix: keep derived code's bindings apart from the user's
 constants

A let binding or parameter may not have the name of a constant, static or
unit struct in scope, such as `offset` or `input`.
---
 crevice-derive/src/layout.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 5bc1603..d91ab18 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -63,6 +63,12 @@ pub fn emit(
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
+    // A binding may not have the name of a constant, static or unit struct that
+    // is in scope where the derive is used, so ours get names of their own.
+    let offset = format_ident!("_crevice_offset");
+    let alignment = format_ident!("_crevice_alignment");
+    let input_value = format_ident!("_crevice_input");
+
     // Computes the offset immediately AFTER the field with the given index.
     //
     // This expression must not call the generated padding calculation functions:
@@ -76,15 +82,15 @@ pub fn emit(
             let layout_alignment = layout_alignment_of_ty(&field.ty);
 
             output.extend(quote! {
-                offset += ::crevice::internal::align_offset(offset, #layout_alignment);
-                offset += ::core::mem::size_of::<#layout_ty>();
+                #offset += ::crevice::internal::align_offset(#offset, #layout_alignment);
+                #offset += ::core::mem::size_of::<#layout_ty>();
             });
         }
 
         quote!({
-            let mut offset = 0usize;
+            let mut #offset = 0usize;
             #output
-            offset
+            #offset
         })
     };
 
@@ -107,15 +113,15 @@ pub fn emit(
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
                     // alignment we are.
-                    let starting_offset = #starting_offset;
+                    let #offset = #starting_offset;
 
                     // We set our target alignment to the larger of the
                     // alignment due to the previous field and the alignment
                     // requirement of the next field.
-                    let alignment = #next_field_or_self_alignment;
+                    let #alignment = #next_field_or_self_alignment;
 
                     // Using everything we've got, compute our padding amount.
-                    ::crevice::internal::align_offset(starting_offset, alignment)
+                    ::crevice::internal::align_offset(#offset, #alignment)
                 }
             }
         })
@@ -164,7 +170,7 @@ pub fn emit(
             let field_name = field.ident.as_ref().unwrap();
 
             quote! {
-                #field_name: #as_trait_path::#from_trait_method(input.#field_name),
+                #field_name: #as_trait_path::#from_trait_method(#input_value.#field_name),
             }
         })
         .collect();
@@ -259,7 +265,7 @@ pub fn emit(
                 }
             }
 
-            fn #from_trait_method(input: Self::Output) -> Self {
+            fn #from_trait_method(#input_value: Self::Output) -> Self {
                 Self {
                     #input_struct_field_init
                 }
-- 
2.43.0


From 5e09bb01f987e634ab9d639d253013f89bbd958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 9/9] fix: stop writing an iterator where it ends

An iterator that is empty at first but resumes had its later items written
without their offset being returned.
---
 src/std140/writer.rs | 2 +-
 src/std430/writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std140/writer.rs b/src/std140/writer.rs
index a94b689..af54448 100644
--- a/src/std140/writer.rs
+++ b/src/std140/writer.rs
@@ -109,7 +109,7 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std140(self)?;
diff --git a/src/std430/writer.rs b/src/std430/writer.rs
index 2c52ea2..9102ffd 100644
--- a/src/std430/writer.rs
+++ b/src/std430/writer.rs
@@ -109,7 +109,7 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std430(self)?;
-- 
2.43.0

