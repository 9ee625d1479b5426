From dbf5cb6a2f268d8835f61607961a5b726a03603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 01/18] fix: clone the values of owned-pattern fields when
 build only borrows the builder

With a mutable or immutable struct-level pattern, build takes &self, so a field
with pattern = "owned" of a non-Copy type failed to compile (E0507).
---
 .../src/macro_options/darling_opts.rs               | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..828ae97 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -848,6 +848,17 @@ impl<'a> FieldWithDefaults<'a> {
         self.field.pattern.unwrap_or(self.parent.pattern)
     }
 
+    /// Get the pattern that governs how the build method takes the field's value out of the builder.
+    ///
+    /// The build method only gets ownership of the builder's fields if the struct-level pattern
+    /// is `owned`; in all other cases it has to clone them, whatever the field's own pattern is.
+    fn initializer_pattern(&self) -> BuilderPattern {
+        match self.parent.pattern {
+            BuilderPattern::Owned => self.pattern(),
+            borrowed => borrowed,
+        }
+    }
+
     pub fn use_parent_default(&self) -> bool {
         self.field.default.is_none() && self.parent.default.is_some()
     }
@@ -883,7 +894,7 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            builder_pattern: self.initializer_pattern(),
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From 2dddd12ad628b5dcd081a38a061a271a4fb9eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 02/18] fix: require Clone of type parameters whenever the
 builder derives Clone

An owned struct-level pattern with a mutable or immutable field makes the
builder derive Clone and its setter or build call Clone::clone, but the impl
blocks then lacked the Clone bound on the type parameters.
---
 derive_builder_core/src/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index 72824f2..504caf9 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -330,7 +330,8 @@ impl<'a> Builder<'a> {
         self
     }
 
-    /// Add `Clone` trait bound to generic types for non-owned builders.
+    /// Add `Clone` trait bound to generic types for builders that derive `Clone`,
+    /// i.e. unless the builder and all of its setters use the owned pattern.
     /// This enables target types to declare generics without requiring a
     /// `Clone` impl. This is the same as how the built-in derives for
     /// `Clone`, `Default`, `PartialEq`, and other traits work.
@@ -338,7 +339,9 @@ impl<'a> Builder<'a> {
         if let Some(type_gen) = self.generics {
             let mut generics = type_gen.clone();
 
-            if !self.pattern.requires_clone() || type_gen.type_params().next().is_none() {
+            let requires_clone = self.must_derive_clone || self.pattern.requires_clone();
+
+            if !requires_clone || type_gen.type_params().next().is_none() {
                 return generics;
             }
 
-- 
2.43.0


From e2c912c04baef9940d7c844d38f66626d76f1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 03/18] fix: do not panic on try_setter for fields with raw
 identifiers

The fallible setter of a field r#type was named `try_r#type`, which is not a
valid identifier.
---
 derive_builder_core/src/setter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..2a463e1 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -3,6 +3,7 @@ use std::borrow::Cow;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, TokenStreamExt};
+use syn::ext::IdentExt;
 
 use crate::{BuilderFieldType, BuilderPattern, Each};
 
@@ -149,7 +150,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = syn::Ident::new(&format!("try_{}", ident.unraw()), Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From bce7b8b4e93ded691198f773bcfbf9af20c010e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 04/18] fix: do not panic on setter(custom = false) for fields
 hidden by skip

custom = false is the same as not giving custom; it does not bring back the
setter of a field that has no place in the builder.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 828ae97..a04ebbd 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -262,8 +262,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
-- 
2.43.0


From 9bb9db49f359c39d9e2bf6358da033b7f8b26769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 05/18] fix: generate working each setters for custom builder
 field types

A field(ty = ..) is stored without an Option around it, so the collection is
either the builder field itself or the Option written in the custom type.
---
 derive_builder_core/src/setter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 2a463e1..9ae7f50 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -177,17 +177,18 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
-                let get_initialized_collection = if stripped_option {
+                let get_initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    quote!(get_or_insert_with(|| Some(
+                    (true, true) => quote!(.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
-                    .get_or_insert_with(#crate_root::export::core::default::Default::default))
-                } else {
-                    // Outer (builder) Option -> collection.
-                    quote!(get_or_insert_with(
+                    .get_or_insert_with(#crate_root::export::core::default::Default::default)),
+                    // Either the builder's or the custom builder field's own Option -> collection.
+                    (true, false) | (false, true) => quote!(.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
-                    ))
+                    )),
+                    // The custom builder field is the collection.
+                    (false, false) => quote!(),
                 };
 
                 let ty_params: TokenStream;
@@ -213,7 +214,7 @@ impl<'a> ToTokens for Setter<'a> {
                     {
                         let mut new = #self_into_return_ty;
                         new.#field_ident
-                            .#get_initialized_collection
+                            #get_initialized_collection
                             .extend(#crate_root::export::core::option::Option::Some(#into_item));
                         new
                     }
-- 
2.43.0


From ac038e22e78d962c745b83b37a79746458dcd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 06/18] fix: clone custom builder fields without build when
 build only borrows

With a mutable or immutable struct-level pattern, build takes &self and cannot
move a field(ty = ..) of a non-Copy type out of the builder (E0507).
---
 derive_builder_core/src/initializer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/initializer.rs b/derive_builder_core/src/initializer.rs
index 3c42cc4..0adaff9 100644
--- a/derive_builder_core/src/initializer.rs
+++ b/derive_builder_core/src/initializer.rs
@@ -81,7 +81,18 @@ impl<'a> ToTokens for Initializer<'a> {
                     FieldConversion::Block(conv) => {
                         conv.to_tokens(tokens);
                     }
-                    FieldConversion::Move => tokens.append_all(quote!( self.#builder_field )),
+                    FieldConversion::Move => match self.builder_pattern {
+                        BuilderPattern::Owned => {
+                            tokens.append_all(quote!( self.#builder_field ))
+                        }
+                        BuilderPattern::Mutable | BuilderPattern::Immutable => {
+                            let crate_root = self.crate_root;
+                            tokens.append_all(quote!({
+                                let value = #crate_root::export::core::clone::Clone::clone(&self.#builder_field);
+                                value
+                            }))
+                        }
+                    },
                     FieldConversion::OptionOrDefault => {
                         let match_some = self.match_some();
                         let match_none = self.match_none();
-- 
2.43.0


From f4938a45d85783d4953f8633cf1a6f3a54ab67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 07/18] fix: accept quoted code that ends in a line comment

default = "42 // the answer" and field(build = ..) alike: the comment used to
swallow the brace that closes the block.
---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..55e0ef8 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // The line break keeps a trailing line comment from swallowing the brace.
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From f7dd186c44324c1167f3510ce423df8ed7d1c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 08/18] fix: reject malformed pass-through attribute contents
 instead of panicking

---
 .../src/macro_options/darling_opts.rs              | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index a04ebbd..88d252f 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -6,7 +6,7 @@ use crate::BuildMethod;
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
 use proc_macro2::Span;
-use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
@@ -483,8 +483,16 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::Path(_) => Err(Error::unsupported_format("word").with_span(&meta)),
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
-            let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            let inner = &list.tokens;
+            let tokens = quote_spanned!(original_span=> #pound [ #inner ]);
+
+            // The contents are written by the user, so they might not be the contents of
+            // exactly one attribute.
+            match Attribute::parse_outer.parse2(tokens) {
+                Ok(mut attrs) if attrs.len() == 1 => Ok(attrs.remove(0)),
+                Ok(_) => Err(Error::custom("expected a single attribute").with_span(&list)),
+                Err(e) => Err(Error::custom(e).with_span(&list)),
+            }
         }
     }
 }
-- 
2.43.0


From 49a8e612543a937d6b2608f5d9baa950571ad992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 09/18] fix: reject unions with a diagnostic instead of
 panicking

---
 derive_builder_core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..3ac88f4 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,15 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // `darling` panics on unions instead of reporting them as unsupported.
+    if let syn::Data::Union(data) = &ast.data {
+        return syn::Error::new_spanned(
+            data.union_token,
+            "Unsupported shape `union`. Expected named fields.",
+        )
+        .to_compile_error();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From 678d750208b9f2d0fb32b718357ed375b18cea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 10/18] fix: point at the bare default option in conflicts with
 the builder field type

---
 derive_builder_core/src/default_expression.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/derive_builder_core/src/default_expression.rs b/derive_builder_core/src/default_expression.rs
index 44dd304..27e02ef 100644
--- a/derive_builder_core/src/default_expression.rs
+++ b/derive_builder_core/src/default_expression.rs
@@ -1,12 +1,14 @@
 use crate::BlockContents;
 use proc_macro2::Span;
 use quote::ToTokens;
+use syn::spanned::Spanned;
 
 /// A `DefaultExpression` can be either explicit or refer to the canonical trait.
 #[derive(Debug, Clone)]
 pub enum DefaultExpression {
     Explicit(BlockContents),
-    Trait,
+    /// The word form, with its span.
+    Trait(Span),
 }
 
 impl DefaultExpression {
@@ -26,7 +28,7 @@ impl DefaultExpression {
     pub fn span(&self) -> Span {
         match self {
             DefaultExpression::Explicit(block) => block.span(),
-            DefaultExpression::Trait => Span::call_site(),
+            DefaultExpression::Trait(span) => *span,
         }
     }
 
@@ -37,8 +39,14 @@ impl DefaultExpression {
 }
 
 impl darling::FromMeta for DefaultExpression {
-    fn from_word() -> darling::Result<Self> {
-        Ok(DefaultExpression::Trait)
+    fn from_meta(item: &syn::Meta) -> darling::Result<Self> {
+        match item {
+            syn::Meta::Path(path) => Ok(DefaultExpression::Trait(path.span())),
+            syn::Meta::List(_) => Err(darling::Error::unsupported_format("list").with_span(item)),
+            syn::Meta::NameValue(value) => {
+                Self::from_expr(&value.value).map_err(|e| e.with_span(item))
+            }
+        }
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
@@ -67,7 +75,7 @@ impl<'a> ToTokens for DefaultExpressionWithCrateRoot<'a> {
         let crate_root = self.crate_root;
         match self.expr {
             DefaultExpression::Explicit(ref block) => block.to_tokens(tokens),
-            DefaultExpression::Trait => quote!(
+            DefaultExpression::Trait(_) => quote!(
                 #crate_root::export::core::default::Default::default()
             )
             .to_tokens(tokens),
-- 
2.43.0


From 57172939c52aa03601cf81654fa0786caf422e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 11/18] fix: give the conflict of vis and private a location

---
 derive_builder_core/src/macro_options/darling_opts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 88d252f..ec45a5d 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -77,7 +77,10 @@ impl FromMeta for VisibilityAttr {
             conflicts.finish_with(Self::Public(public.span()))
         } else if let Some(vis) = explicit {
             if private.is_present() {
-                conflicts.push(Error::custom("`vis` and `private` cannot be used together"));
+                conflicts.push(
+                    Error::custom("`vis` and `private` cannot be used together")
+                        .with_span(&private.span()),
+                );
             }
 
             conflicts.finish_with(Self::Explicit(vis))
-- 
2.43.0


From ead242d90c9c546a4f428eb5aeeb02e62bfa6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 12/18] fix: locate lexer errors of quoted default code at the
 literal

---
 derive_builder_core/src/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 55e0ef8..ce32538 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -36,6 +36,10 @@ impl TryFrom<&'_ LitStr> for BlockContents {
         block_str.insert(0, '{');
         // The line break keeps a trailing line comment from swallowing the brace.
         block_str.push_str("\n}");
+        // An error of the lexer has no location of its own.
+        let _: TokenStream = block_str
+            .parse()
+            .map_err(|e| syn::Error::new(s.span(), e))?;
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From b54f0d4f4d0aee31c79547f1a2b1e79ea39aa3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 13/18] fix: strip_option ignored Option types passed through a
 macro fragment

A type that a macro_rules macro receives as $t:ty arrives in an invisible
group, which hid the Option from strip_option.
---
 derive_builder_core/src/setter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 9ae7f50..982aba6 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -242,6 +242,8 @@ fn extract_type_from_option(ty: &syn::Type) -> Option<&syn::Type> {
     fn extract_type_path(ty: &syn::Type) -> Option<&Path> {
         match *ty {
             syn::Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
+            // A type that a `macro_rules!` macro received as `$t:ty` is wrapped in an invisible group.
+            syn::Type::Group(ref group) => extract_type_path(&group.elem),
             _ => None,
         }
     }
-- 
2.43.0


From 7e0cb93c69a4dcdbad8198bbcd6b46b491c15495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 14/18] fix: validate paths passed through a macro did not
 compile

The generated `self` argument was resolved where the path was written;
it belongs to the generated method.
---
 derive_builder_core/src/build_method.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/build_method.rs b/derive_builder_core/src/build_method.rs
index 55150b4..915e08d 100644
--- a/derive_builder_core/src/build_method.rs
+++ b/derive_builder_core/src/build_method.rs
@@ -85,10 +85,12 @@ impl<'a> ToTokens for BuildMethod<'a> {
             let ident = syn::Ident::new(DEFAULT_STRUCT_NAME, Span::call_site());
             quote!(let #ident: #target_ty #target_ty_generics = #default_expr;)
         });
-        let validate_fn = self
-            .validate_fn
-            .as_ref()
-            .map(|vfn| quote_spanned!(vfn.span() => #vfn(&self)?;));
+        let validate_fn = self.validate_fn.as_ref().map(|vfn| {
+            // Errors should point to the path, but `self` belongs to the generated method,
+            // also if the path was handed to a `macro_rules!` macro.
+            let self_token = syn::Token![self](vfn.span().resolved_at(Span::call_site()));
+            quote_spanned!(vfn.span() => #vfn(&#self_token)?;)
+        });
         let error_ty = &self.error_ty;
 
         if self.enabled {
-- 
2.43.0


From c5cd70243bcf617b38ca384f1d546eea1a1c2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 15/18] fix: $crate in the crate root was resolved in the wrong
 crate

When the error type came from another crate than the macro that the struct
is written in, the copy of the crate root that points to the error type was
resolved in the crate of the error type.
---
 derive_builder_core/src/change_span.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive_builder_core/src/change_span.rs b/derive_builder_core/src/change_span.rs
index 4800464..35e5ac7 100644
--- a/derive_builder_core/src/change_span.rs
+++ b/derive_builder_core/src/change_span.rs
@@ -4,6 +4,8 @@ use proc_macro2::{Group, Span, TokenStream, TokenTree};
 
 /// Deeply change the span of some tokens, ensuring that the output only references `span`.
 ///
+/// `$crate` still refers to the crate of the macro that it was written in.
+///
 /// Macros such as `quote_spanned` preserve the spans of interpolated tokens, which is useful.
 /// However, in some very specific scenarios it is desirable to suppress the original span
 /// information in favor of a different one.
@@ -19,6 +21,10 @@ pub(crate) fn change_span(tokens: TokenStream, span: Span) -> TokenStream {
                 new_group.set_span(span);
                 result.push(TokenTree::Group(new_group));
             }
+            TokenTree::Ident(mut ident) if ident == "$crate" => {
+                ident.set_span(span.resolved_at(ident.span()));
+                result.push(TokenTree::Ident(ident));
+            }
             _ => {
                 token.set_span(span);
                 result.push(token);
-- 
2.43.0


From a3af4380fdeb7daa1679c526576c3df00c2d6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 16/18] fix: Self in field types and bounds meant the builder
 instead of the struct

---
 derive_builder_core/src/lib.rs          |  6 +-
 derive_builder_core/src/resolve_self.rs | 89 +++++++++++++++++++++++++
 2 files changed, 94 insertions(+), 1 deletion(-)
 create mode 100644 derive_builder_core/src/resolve_self.rs

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 3ac88f4..f6f09f5 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -37,6 +37,7 @@ mod doc_comment;
 mod initializer;
 mod macro_options;
 mod options;
+mod resolve_self;
 mod setter;
 
 pub(crate) use block::BlockContents;
@@ -49,12 +50,13 @@ pub(crate) use default_expression::DefaultExpression;
 pub(crate) use doc_comment::doc_comment_from;
 pub(crate) use initializer::{FieldConversion, Initializer};
 pub(crate) use options::{BuilderPattern, Each};
+pub(crate) use resolve_self::resolve_self;
 pub(crate) use setter::Setter;
 
 const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
-pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+pub fn builder_for_struct(mut ast: syn::DeriveInput) -> proc_macro2::TokenStream {
     // `darling` panics on unions instead of reporting them as unsupported.
     if let syn::Data::Union(data) = &ast.data {
         return syn::Error::new_spanned(
@@ -64,6 +66,8 @@ pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
         .to_compile_error();
     }
 
+    resolve_self(&mut ast);
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
diff --git a/derive_builder_core/src/resolve_self.rs b/derive_builder_core/src/resolve_self.rs
new file mode 100644
index 0000000..b17b7e7
--- /dev/null
+++ b/derive_builder_core/src/resolve_self.rs
@@ -0,0 +1,89 @@
+use proc_macro2::{Group, Ident, Spacing, TokenStream, TokenTree};
+use quote::{ToTokens, TokenStreamExt};
+use syn::parse::Parse;
+use syn::{Data, DeriveInput};
+
+/// Replace `Self` in the field types, bounds and where clause of a struct by the struct's type.
+///
+/// These are repeated in the builder's items, where `Self` would be the builder.
+pub(crate) fn resolve_self(ast: &mut DeriveInput) {
+    let ident = ast.ident.clone();
+    let generics = ast.generics.clone();
+    let (_, ty_generics, _) = generics.split_for_impl();
+
+    // Keep the place of `Self` in compiler errors.
+    let target = |this: &Ident| {
+        let mut ident = ident.clone();
+        ident.set_span(ident.span().located_at(this.span()));
+        quote!(#ident #ty_generics)
+    };
+
+    if let Data::Struct(data) = &mut ast.data {
+        for field in data.fields.iter_mut() {
+            replace_in(&mut field.ty, &target);
+        }
+    }
+    for param in ast.generics.type_params_mut() {
+        for bound in param.bounds.iter_mut() {
+            replace_in(bound, &target);
+        }
+    }
+    if let Some(clause) = &mut ast.generics.where_clause {
+        for predicate in clause.predicates.iter_mut() {
+            replace_in(predicate, &target);
+        }
+    }
+}
+
+fn replace_in<T: Parse + ToTokens>(node: &mut T, target: &dyn Fn(&Ident) -> TokenStream) {
+    if let Some(tokens) = replace(node.to_token_stream(), target) {
+        if let Ok(new) = syn::parse2(tokens) {
+            *node = new;
+        }
+    }
+}
+
+/// Replace `Self` in `tokens`; `None` if there is no `Self`.
+fn replace(tokens: TokenStream, target: &dyn Fn(&Ident) -> TokenStream) -> Option<TokenStream> {
+    let mut found = false;
+    let mut result = TokenStream::new();
+    let mut tokens = tokens.into_iter();
+
+    while let Some(token) = tokens.next() {
+        match token {
+            TokenTree::Ident(ref this) if this == "Self" => {
+                found = true;
+                let ty = target(this);
+                let is_prefix = is_path_sep(tokens.clone());
+                result.append_all(if is_prefix { quote!(<#ty>) } else { ty });
+            }
+            TokenTree::Group(group) => {
+                let new = match replace(group.stream(), target) {
+                    Some(stream) => {
+                        found = true;
+                        let mut new = Group::new(group.delimiter(), stream);
+                        new.set_span(group.span());
+                        new
+                    }
+                    None => group,
+                };
+                result.append(new);
+            }
+            _ => result.append(token),
+        }
+    }
+
+    if found {
+        Some(result)
+    } else {
+        None
+    }
+}
+
+/// Whether the next tokens are `::`, as opposed to the `:` between a type and its bounds.
+fn is_path_sep(mut tokens: impl Iterator<Item = TokenTree>) -> bool {
+    matches!(
+        tokens.next(),
+        Some(TokenTree::Punct(ref punct)) if punct.as_char() == ':' && punct.spacing() == Spacing::Joint
+    )
+}
-- 
2.43.0


From aeb11a630abb35920f0648eb74d749d023352cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 17/18] fix: each setters called a method of the collection's
 own named extend

---
 derive_builder_core/src/setter.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 982aba6..efc0743 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -179,16 +179,16 @@ impl<'a> ToTokens for Setter<'a> {
                 // Access the collection to extend, initialising with default value if necessary.
                 let get_initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    (true, true) => quote!(.get_or_insert_with(|| Some(
+                    (true, true) => quote!(new.#field_ident.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
                     .get_or_insert_with(#crate_root::export::core::default::Default::default)),
                     // Either the builder's or the custom builder field's own Option -> collection.
-                    (true, false) | (false, true) => quote!(.get_or_insert_with(
+                    (true, false) | (false, true) => quote!(new.#field_ident.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
                     )),
                     // The custom builder field is the collection.
-                    (false, false) => quote!(),
+                    (false, false) => quote!(&mut new.#field_ident),
                 };
 
                 let ty_params: TokenStream;
@@ -213,9 +213,11 @@ impl<'a> ToTokens for Setter<'a> {
                         #ty: #crate_root::export::core::default::Default + #crate_root::export::core::iter::Extend<VALUE>,
                     {
                         let mut new = #self_into_return_ty;
-                        new.#field_ident
-                            #get_initialized_collection
-                            .extend(#crate_root::export::core::option::Option::Some(#into_item));
+                        // The collection might have a method of its own that is called `extend`.
+                        #crate_root::export::core::iter::Extend::extend(
+                            #get_initialized_collection,
+                            #crate_root::export::core::option::Option::Some(#into_item),
+                        );
                         new
                     }
                 ));
-- 
2.43.0


From 8cfb55d7f1f2277a6b26f8bd476782ac7a0072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 18/18] fix: the builder of a deprecated struct or field caused
 deprecation warnings

---
 derive_builder_core/src/initializer.rs        |  6 ++++
 .../src/macro_options/darling_opts.rs         | 32 ++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/derive_builder_core/src/initializer.rs b/derive_builder_core/src/initializer.rs
index 0adaff9..4493023 100644
--- a/derive_builder_core/src/initializer.rs
+++ b/derive_builder_core/src/initializer.rs
@@ -62,6 +62,8 @@ pub struct Initializer<'a> {
     ///
     /// For sub-builder fields, this will be `build` (or similar)
     pub conversion: FieldConversion<'a>,
+    /// Whether the field of the target struct is deprecated
+    pub deprecated: bool,
 }
 
 impl<'a> ToTokens for Initializer<'a> {
@@ -107,6 +109,9 @@ impl<'a> ToTokens for Initializer<'a> {
             }
         };
 
+        if self.deprecated {
+            tokens.append_all(quote!(#[allow(deprecated)]));
+        }
         tokens.append_all(quote!(#struct_field:));
         append_rhs(tokens);
         tokens.append_all(quote!(,));
@@ -260,6 +265,7 @@ macro_rules! default_initializer {
             default_value: None,
             use_default_struct: false,
             conversion: FieldConversion::OptionOrDefault,
+            deprecated: false,
             custom_error_type_span: None,
         }
     };
diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index ec45a5d..86b4ca0 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -313,13 +313,18 @@ fn field_setter(meta: &Meta) -> darling::Result<FieldLevelSetter> {
 struct FieldForwardedAttrs {
     pub field: Vec<Attribute>,
     pub setter: Vec<Attribute>,
+    /// The field of the target struct is deprecated.
+    pub deprecated: bool,
 }
 
 impl TryFrom<Vec<Attribute>> for FieldForwardedAttrs {
     type Error = Error;
 
-    fn try_from(value: Vec<Attribute>) -> Result<Self, Self::Error> {
-        let mut result = Self::default();
+    fn try_from(mut value: Vec<Attribute>) -> Result<Self, Self::Error> {
+        let mut result = Self {
+            deprecated: allow_deprecated(&mut value),
+            ..Self::default()
+        };
         distribute_and_unnest_attrs(
             value,
             &mut [
@@ -335,7 +340,7 @@ impl TryFrom<Vec<Attribute>> for FieldForwardedAttrs {
 #[derive(Debug, Clone, FromField)]
 #[darling(
     attributes(builder),
-    forward_attrs(doc, cfg, allow, builder_field_attr, builder_setter_attr),
+    forward_attrs(doc, cfg, allow, deprecated, builder_field_attr, builder_setter_attr),
     and_then = "Self::resolve"
 )]
 pub struct Field {
@@ -413,6 +418,21 @@ impl Field {
     }
 }
 
+/// Replace `deprecated` with `allow(deprecated)`, and tell if there was any.
+///
+/// What is generated for a deprecated struct or field has to use it and may have to use other
+/// deprecated items, but the author of the struct has no use to be warned of.
+fn allow_deprecated(attrs: &mut [Attribute]) -> bool {
+    let mut found = false;
+    for attr in attrs {
+        if attr.path().is_ident("deprecated") {
+            *attr = parse_quote!(#[allow(deprecated)]);
+            found = true;
+        }
+    }
+    found
+}
+
 /// Divide a list of attributes into multiple partially-overlapping output lists.
 ///
 /// Some attributes from the macro input will be added to the output in multiple places;
@@ -517,8 +537,9 @@ struct StructForwardedAttrs {
 impl TryFrom<Vec<Attribute>> for StructForwardedAttrs {
     type Error = Error;
 
-    fn try_from(value: Vec<Attribute>) -> Result<Self, Self::Error> {
+    fn try_from(mut value: Vec<Attribute>) -> Result<Self, Self::Error> {
         let mut result = Self::default();
+        allow_deprecated(&mut value);
         distribute_and_unnest_attrs(
             value,
             &mut [
@@ -534,7 +555,7 @@ impl TryFrom<Vec<Attribute>> for StructForwardedAttrs {
 #[derive(Debug, Clone, FromDeriveInput)]
 #[darling(
     attributes(builder),
-    forward_attrs(cfg, allow, builder_struct_attr, builder_impl_attr),
+    forward_attrs(cfg, allow, deprecated, builder_struct_attr, builder_impl_attr),
     supports(struct_named)
 )]
 pub struct Options {
@@ -909,6 +930,7 @@ impl<'a> FieldWithDefaults<'a> {
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
+            deprecated: self.field.attrs.deprecated,
             custom_error_type_span: self.parent.build_fn.error.as_ref().and_then(|err_ty| {
                 match err_ty {
                     BuildFnError::Existing(p) => Some(p.span()),
-- 
2.43.0

