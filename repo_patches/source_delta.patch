From 375157e6e83caa3f68dae6ba525ce28b137cab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 01/18] fix: match the `*` path only against the asterisk
 request target

The regex was not anchored, so `#[options("*")]` also matched every path
containing an asterisk.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From 0e4d221aef583b1478d9514419922dfe2ef9e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 02/18] fix: allow declaring the `*` path after other paths

The overlap check only expected `*` on its left-hand side and panicked when
a `*` route was declared after any other route.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..07ec635 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -507,6 +507,11 @@ impl RoutePath {
             }
         }
 
+        if other.segments.is_empty() {
+            // only other is "*"
+            return None;
+        }
+
         let mut overlap = String::new();
         let mut saw_rest = false;
         for (a, b) in self.segments_fused().zip(other.segments_fused()) {
-- 
2.43.0


From 6634156d649b42fde270c009ab54c1f293467441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 03/18] fix: do not report an overlap between an empty segment
 and a placeholder

A placeholder never matches an empty segment, so routes like `/` and `/{id}`
match disjoint sets of paths but were rejected.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 07ec635..8b80de8 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -536,6 +536,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // Placeholders never match an empty segment
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From 84de19caac9b5be5d64fe0684be6d07b31c45835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 04/18] fix: let #[query_params] work without depending on
 serde_urlencoded

The generated code referred to `serde_urlencoded` in the user's crate, so using
`#[query_params]` failed to compile unless that crate happened to be a direct
dependency.
---
 derive/src/from_request/mod.rs | 2 +-
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..55efde1 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -412,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
+            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From d4cd63217be5315ba2b512caf91df723adf4ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 05/18] fix: support `Option` as the type of a #[query_params]
 field

The documentation of `FromRequest` promises that an `Option` is `None` without
a query string, but `serde_urlencoded` can not deserialize a top-level `Option`,
so every request to such a route failed with 400 Bad Request.
---
 derive/src/from_request/mod.rs | 54 ++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 55efde1..74b9527 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -535,14 +535,17 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                         ),
                     ],
                 },
-                FieldKind::QueryParams => Bounds {
-                    addl_ty_params: Vec::new(),
-                    impl_bounds: vec![quote!( #ty:
-                        ::hyperdrive::serde::de::DeserializeOwned +
-                        ::std::marker::Send +
-                        'static
-                    )],
-                },
+                FieldKind::QueryParams => {
+                    let ty = option_inner_type(&ty).unwrap_or(&ty);
+                    Bounds {
+                        addl_ty_params: Vec::new(),
+                        impl_bounds: vec![quote!( #ty:
+                            ::hyperdrive::serde::de::DeserializeOwned +
+                            ::std::marker::Send +
+                            'static
+                        )],
+                    }
+                }
                 FieldKind::Body => {
                     let frombody_context = mkty("FromBody_Context");
                     let frombody_result = mkty("FromBody_Result");
@@ -642,6 +645,27 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
     bounds
 }
 
+/// If `ty` is written as `Option<T>`, returns `T`.
+fn option_inner_type(ty: &syn::Type) -> Option<&syn::Type> {
+    let path = match ty {
+        syn::Type::Path(ty) if ty.qself.is_none() => &ty.path,
+        _ => return None,
+    };
+
+    let last = path.segments.last()?.into_value();
+    if last.ident != "Option" {
+        return None;
+    }
+
+    match &last.arguments {
+        syn::PathArguments::AngleBracketed(args) => match args.args.first()?.into_value() {
+            syn::GenericArgument::Type(inner) => Some(inner),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 /// Generates all the code needed to build an enum variant from a matching
 /// request.
 ///
@@ -722,10 +746,22 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
         let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let parse = if let Some(inner) = option_inner_type(ty) {
+            // `serde_urlencoded` can not deserialize a top-level `Option`
+            quote! {
+                if raw_query.is_empty() {
+                    Ok(None)
+                } else {
+                    serde_urlencoded::from_str::<#inner>(raw_query).map(Some)
+                }
+            }
+        } else {
+            quote!(serde_urlencoded::from_str::<#ty>(raw_query))
+        };
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match #parse {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
-- 
2.43.0


From 49aedd1cf177c7724b11cf182334ab2fb91351da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 06/18] fix: accept any type in #[context(...)]

Paths and generic types like `#[context(module::Context<T>)]` made the derive
panic because they are not valid in the `Meta` attribute grammar.
---
 derive/src/from_request/parse.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 8b80de8..b12805d 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -42,11 +42,15 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
-            if name == "context" {
+            if attr.path.is_ident("context") {
+                // The type does not have to be valid "meta" syntax (eg. `path::Type<T>`)
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
-            } else if known_attr(&name) && !is_struct {
+                continue;
+            }
+
+            let name = attr.parse_meta().unwrap().name();
+            if known_attr(&name) && !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
                     name
@@ -105,6 +109,11 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
+            if is_struct && attr.path.is_ident("context") {
+                // Handled by `ItemData`
+                continue;
+            }
+
             let meta = attr.parse_meta().unwrap();
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
-- 
2.43.0


From 38186ddd5b42f53c73f7277d3108ca6d3e5cca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 07/18] fix: ignore the fields of variants that are never
 constructed

Variants without a route and without a `#[forward]` field are not created by
the derived impl, but tuple variants were still rejected, and in generic types
their fields were required to implement `Guard`.
---
 derive/src/from_request/parse.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index b12805d..c9db18f 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -246,15 +246,15 @@ impl VariantData {
             let field_kind = field_kind.unwrap_or(FieldKind::Guard);
 
             if field_kind == FieldKind::Guard {
-                guard_fields.push(
-                    field
-                        .ident
-                        .clone()
-                        .expect("#[derive(FromRequest)] requires named fields"),
-                );
+                guard_fields.push(field.ident.clone());
             }
         }
 
+        if routes.is_empty() && forward_field.is_none() {
+            // We never construct this variant, so its fields don't have to be guards
+            guard_fields.clear();
+        }
+
         if body_field.is_some() && forward_field.is_some() {
             panic!("#[body] and #[forward] cannot be combined in the same variant/struct");
         }
@@ -285,7 +285,10 @@ impl VariantData {
             body_field: body_field.map(fld),
             forward_field: forward_field.map(fld),
             query_params_field: query_params_field.map(fld),
-            guard_fields: guard_fields.into_iter().map(fld).collect(),
+            guard_fields: guard_fields
+                .into_iter()
+                .map(|ident| fld(ident.expect("#[derive(FromRequest)] requires named fields")))
+                .collect(),
             path_segment_fields: path_segment_fields.into_iter().map(fld).collect(),
         }
     }
-- 
2.43.0


From 49b8f55d5bfae466df5b94254902e2c693db6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 08/18] fix: forward readiness of services wrapped by
 `catch_unwind`

`CatchUnwind` did not implement `Service::poll_ready`, so hyper called wrapped
services before they were ready.
---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0


From ac94130c7b67404cf241842cd7ab7b4467f4747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 09/18] fix: reject misplaced and malformed attributes on
 structs

On structs, attributes like `#[get]`, `#[get = "/path"]` or `#[body]` were
silently ignored, which could turn a struct with a mistyped route into one that
matches every request. They are already rejected on enum variants.
---
 derive/src/from_request/parse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index c9db18f..5e5f280 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -122,9 +122,11 @@ impl VariantData {
                         &list.nested.iter().collect::<Vec<_>>(),
                     ));
                 }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
-                }
+                _ if known_attr(&meta.name()) => panic!(
+                    "`#[{}]` is not valid on {}",
+                    meta.name(),
+                    if is_struct { "structs" } else { "enum variants" }
+                ),
                 _ => {}
             }
         }
-- 
2.43.0


From f9fde2a38557eb524352f50114d390d3e7472b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 10/18] fix: accept foreign attributes that do not follow the
 meta syntax

---
 derive/src/from_request/parse.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 5e5f280..a534ce6 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -25,6 +25,23 @@ fn known_attr(name: &Ident) -> bool {
     our_attrs().find(|s| name == s).is_some()
 }
 
+/// Parses an attribute, unless it belongs to someone else and doesn't follow the "meta" syntax (eg.
+/// `#[rustfmt::skip]` or `#[allow(clippy::all)]`).
+fn parse_meta(attr: &Attribute) -> Option<Meta> {
+    match attr.parse_meta() {
+        Ok(meta) => Some(meta),
+        Err(e) => {
+            for name in our_attrs() {
+                if attr.path.is_ident(name) {
+                    panic!("invalid syntax for `#[{}]`: {}", name, e);
+                }
+            }
+
+            None
+        }
+    }
+}
+
 /// Returns whether `name` names an HTTP method attribute (lowercase only).
 fn is_method(name: &Ident) -> bool {
     let name = name.to_string().to_lowercase();
@@ -49,7 +66,10 @@ impl ItemData {
                 continue;
             }
 
-            let name = attr.parse_meta().unwrap().name();
+            let name = match parse_meta(attr) {
+                Some(meta) => meta.name(),
+                None => continue,
+            };
             if known_attr(&name) && !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
@@ -114,7 +134,10 @@ impl VariantData {
                 continue;
             }
 
-            let meta = attr.parse_meta().unwrap();
+            let meta = match parse_meta(attr) {
+                Some(meta) => meta,
+                None => continue,
+            };
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
                     routes.push(Route::parse(
@@ -195,7 +218,10 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
-                let meta = attr.parse_meta().unwrap();
+                let meta = match parse_meta(attr) {
+                    Some(meta) => meta,
+                    None => continue,
+                };
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
                         if let Some(ident) = &field.ident {
-- 
2.43.0


From b3db731a8682d5ada11901115c8401f3eb2a9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 11/18] fix: do not ignore #[as_ref] attributes with invalid
 syntax

---
 derive/src/request_context.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..bd006f2 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -13,21 +13,18 @@ pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
                     .attrs
                     .iter()
                     .filter(|attr| match attr.parse_meta() {
-                        Ok(ref meta) if meta.name() == "as_ref" => {
-                            if let Meta::Word(_) = meta {
-                                true
+                        Ok(Meta::Word(ref name)) if name == "as_ref" => true,
+                        _ if attr.path.is_ident("as_ref") => {
+                            if let Some(field) = &field.ident {
+                                panic!(
+                                    "invalid syntax for #[as_ref] attribute on field `{}`",
+                                    field
+                                );
                             } else {
-                                if let Some(field) = &field.ident {
-                                    panic!(
-                                        "invalid syntax for #[as_ref] attribute on field `{}`",
-                                        field
-                                    );
-                                } else {
-                                    panic!(
-                                        "invalid syntax for #[as_ref] attribute on field of type `{}`",
-                                        field.ty.clone().into_token_stream()
-                                    );
-                                }
+                                panic!(
+                                    "invalid syntax for #[as_ref] attribute on field of type `{}`",
+                                    field.ty.clone().into_token_stream()
+                                );
                             }
                         }
                         _ => false,
@@ -119,10 +116,8 @@ where
     I: IntoIterator<Item = &'a Attribute>,
 {
     for attr in attrs {
-        if let Ok(meta) = attr.parse_meta() {
-            if meta.name() == name {
-                panic!("#[{}] attribute is only allowed on struct fields", name);
-            }
+        if attr.path.is_ident(name) {
+            panic!("#[{}] attribute is only allowed on struct fields", name);
         }
     }
 }
-- 
2.43.0


From fd3d61605ed803c1ebfc80b3c87aa912fc0fd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 12/18] fix: let generic types use a guard or body type more
 than once

---
 derive/src/from_request/mod.rs   | 12 ++++++++++++
 derive/src/from_request/parse.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 74b9527..a89efff 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -518,9 +518,21 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         ident
     };
 
+    // A type can be used by any number of fields, but must only be bounded once per use: Multiple
+    // `Guard` or `FromBody` bounds that only differ in the additional parameters are ambiguous.
+    let mut seen = Vec::new();
+
     let mut bounds: Bounds = variants
         .iter()
         .flat_map(|v| v.field_uses())
+        .filter(|(field, field_kind)| {
+            let usage = (*field_kind, field.ty.clone().into_token_stream().to_string());
+            if seen.contains(&usage) {
+                return false;
+            }
+            seen.push(usage);
+            true
+        })
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index a534ce6..0f98fa1 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -110,7 +110,7 @@ pub struct VariantData {
 }
 
 /// Describes where a field is decoded from.
-#[derive(PartialEq)]
+#[derive(Copy, Clone, PartialEq)]
 pub enum FieldKind {
     /// Field is decoded from `{placeholders}` in the URL.
     PathSegment,
-- 
2.43.0


From 11901218d68505f9d3074c17d49892aa9cd12663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 13/18] fix: support #[query_params] types that are an Option
 by any name

`Option` was only recognized when the field's type was spelled that way, so type
aliases, generic parameters and types passed through macros still failed with
400 Bad Request.
---
 derive/src/from_request/mod.rs | 56 ++++++------------------------
 src/lib.rs                     |  3 +-
 src/query.rs                   | 63 ++++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+), 47 deletions(-)
 create mode 100644 src/query.rs

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index a89efff..9711140 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -412,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
-            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, serde_urlencoded,
+            http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex}, query_from_str,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
@@ -547,17 +547,14 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                         ),
                     ],
                 },
-                FieldKind::QueryParams => {
-                    let ty = option_inner_type(&ty).unwrap_or(&ty);
-                    Bounds {
-                        addl_ty_params: Vec::new(),
-                        impl_bounds: vec![quote!( #ty:
-                            ::hyperdrive::serde::de::DeserializeOwned +
-                            ::std::marker::Send +
-                            'static
-                        )],
-                    }
-                }
+                FieldKind::QueryParams => Bounds {
+                    addl_ty_params: Vec::new(),
+                    impl_bounds: vec![quote!( #ty:
+                        ::hyperdrive::serde::de::DeserializeOwned +
+                        ::std::marker::Send +
+                        'static
+                    )],
+                },
                 FieldKind::Body => {
                     let frombody_context = mkty("FromBody_Context");
                     let frombody_result = mkty("FromBody_Result");
@@ -657,27 +654,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
     bounds
 }
 
-/// If `ty` is written as `Option<T>`, returns `T`.
-fn option_inner_type(ty: &syn::Type) -> Option<&syn::Type> {
-    let path = match ty {
-        syn::Type::Path(ty) if ty.qself.is_none() => &ty.path,
-        _ => return None,
-    };
-
-    let last = path.segments.last()?.into_value();
-    if last.ident != "Option" {
-        return None;
-    }
-
-    match &last.arguments {
-        syn::PathArguments::AngleBracketed(args) => match args.args.first()?.into_value() {
-            syn::GenericArgument::Type(inner) => Some(inner),
-            _ => None,
-        },
-        _ => None,
-    }
-}
-
 /// Generates all the code needed to build an enum variant from a matching
 /// request.
 ///
@@ -758,22 +734,10 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
         let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
-        let parse = if let Some(inner) = option_inner_type(ty) {
-            // `serde_urlencoded` can not deserialize a top-level `Option`
-            quote! {
-                if raw_query.is_empty() {
-                    Ok(None)
-                } else {
-                    serde_urlencoded::from_str::<#inner>(raw_query).map(Some)
-                }
-            }
-        } else {
-            quote!(serde_urlencoded::from_str::<#ty>(raw_query))
-        };
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match #parse {
+            let #variable = match query_from_str::<#ty>(raw_query) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index fda9220..b74efc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,6 +153,7 @@ TODO:
 
 pub mod body;
 mod error;
+mod query;
 mod readme;
 pub mod service;
 
@@ -165,7 +166,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex, serde_urlencoded};
+pub use {lazy_static::lazy_static, query::query_from_str, regex};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
diff --git a/src/query.rs b/src/query.rs
new file mode 100644
index 0000000..22534a5
--- /dev/null
+++ b/src/query.rs
@@ -0,0 +1,63 @@
+use serde::de::{Deserialize, Deserializer, Visitor};
+use serde::forward_to_deserialize_any;
+
+/// A query string deserialized by `serde_urlencoded`, with support for `Option`.
+///
+/// `serde_urlencoded` can not deserialize a top-level `Option`. This makes it `None` if `EMPTY` (the
+/// query string is absent or empty), and `Some` otherwise.
+struct Query<T, const EMPTY: bool>(T);
+
+impl<'de, T: Deserialize<'de>, const EMPTY: bool> Deserialize<'de> for Query<T, EMPTY> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        T::deserialize(QueryDeserializer::<D, EMPTY>(deserializer)).map(Query)
+    }
+}
+
+struct QueryDeserializer<D, const EMPTY: bool>(D);
+
+impl<'de, D: Deserializer<'de>, const EMPTY: bool> Deserializer<'de>
+    for QueryDeserializer<D, EMPTY>
+{
+    type Error = D::Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_any(visitor)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        if EMPTY {
+            visitor.visit_none()
+        } else {
+            visitor.visit_some(self)
+        }
+    }
+
+    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_unit(visitor)
+    }
+
+    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        self.0.deserialize_seq(visitor)
+    }
+
+    // Everything else is handled the same by `serde_urlencoded`
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit_struct
+        newtype_struct tuple tuple_struct map struct enum identifier ignored_any
+    }
+}
+
+/// Deserializes the query string of a request.
+///
+/// This is used by the code generated by `#[derive(FromRequest)]`.
+#[doc(hidden)] // not part of public API
+pub fn query_from_str<'de, T>(query: &'de str) -> Result<T, serde_urlencoded::de::Error>
+where
+    T: Deserialize<'de>,
+{
+    if query.is_empty() {
+        serde_urlencoded::from_str::<Query<T, true>>(query).map(|q| q.0)
+    } else {
+        serde_urlencoded::from_str::<Query<T, false>>(query).map(|q| q.0)
+    }
+}
-- 
2.43.0


From df8ef12e8b3fe8d423e08fb2de69b25985bb36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 14/18] fix: let routers use type parameters in variants that
 are never constructed

---
 derive/src/from_request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 9711140..dfdd7f1 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -397,7 +397,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
     } else {
         let impl_bounds = bounds.impl_bounds;
         quote! {
-            where #(#impl_bounds),*
+            where Self: ::std::marker::Send + 'static, #(#impl_bounds),*
         }
     };
 
-- 
2.43.0


From dd4c0a50c456e9c9d734e6bd96323eeeda0b0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 15/18] fix: let types called `Variant` derive FromRequest

---
 derive/src/from_request/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index dfdd7f1..237d836 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -211,7 +211,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 .map(move |(method, variant)| {
                     let variant = &variant.variant_name();
                     quote! {
-                        (Some(#i), &http::Method::#method) => Variant::#variant,
+                        (Some(#i), &http::Method::#method) => __Variant::#variant,
                     }
                 })
                 .chain(iter::once({
@@ -247,7 +247,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                                 let mut methods = Vec::new();
 
                                 #(
-                                    if variant_matches_path(Variant::#variants, regex, path) {
+                                    if variant_matches_path(__Variant::#variants, regex, path) {
                                         methods.push(&http::Method::#methods);
                                     }
                                 )*
@@ -325,7 +325,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         let variant = fallback.variant_name();
         regex_match_arms.push(quote! {
             _ => {
-                Variant::#variant
+                __Variant::#variant
             }
         });
     } else {
@@ -430,9 +430,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 body: hyper::Body,
                 context: Self::Context,
             ) -> Self::Future {
-                // Step 0: `Variant` has all variants of the input enum that have a route attribute
+                // Step 0: `__Variant` has all variants of the input enum that have a route attribute
                 // but without any data.
-                enum Variant {
+                enum __Variant {
                     #(#variants,)*
                 }
 
@@ -443,9 +443,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 //
                 // This is a closure instead of a function to allow use of the `impl`-level generics
                 // (if any).
-                let variant_matches_path = |var: Variant, regex: &Regex, path: &str| -> bool {
+                let variant_matches_path = |var: __Variant, regex: &Regex, path: &str| -> bool {
                     match var {
-                        #( Variant::#variants => { #variant_matches_path } )*
+                        #( __Variant::#variants => { #variant_matches_path } )*
                     }
                 };
 
@@ -462,7 +462,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
                 };
 
                 match variant {
-                    #( Variant::#variants => #variant_arms, )*
+                    #( __Variant::#variants => #variant_arms, )*
                 }
             }
         }
-- 
2.43.0


From 80488f3515553affc11c90af2a4451c4bc819c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 16/18] fix: support fields named by raw identifiers

---
 derive/src/from_request/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 237d836..fc34e2c 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -693,7 +693,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -733,7 +733,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -756,7 +756,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         } else {
             index.to_string()
         };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+        field_variable(name)
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -765,7 +765,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -776,7 +776,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -793,7 +793,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
@@ -815,6 +815,16 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }}
 }
 
+/// Returns the name of the local variable that holds the value of the field called `name`.
+fn field_variable(name: impl ToString) -> Ident {
+    let name = name.to_string();
+    // Raw identifiers (`r#type`) can't be part of another identifier
+    Ident::new(
+        &format!("fld_{}", name.trim_start_matches("r#")),
+        Span::call_site(),
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use super::derive_from_request;
-- 
2.43.0


From 6cd5ccd64f74d10be09ac128f83526b76a8e8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 17/18] fix: support generic types in #[derive(RequestContext)]

---
 derive/src/request_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index bd006f2..26d9e68 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,13 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // None of the implementations needs anything of the context's type
+    // parameters (bounds like `T: AsRef<Context<T>>` could never be fulfilled).
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From fecbe0f47c02b32b2d9e21eeec82691a44146b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 18/18] fix: let #[derive(RequestContext)] work next to own
 types with the names it uses

---
 derive/src/request_context.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 26d9e68..3019c51 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -86,10 +86,9 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
 
     let asref_nocontext = s.gen_impl(quote!(
         extern crate hyperdrive;
-        use hyperdrive::NoContext;
 
-        gen impl AsRef<NoContext> for @Self {
-            fn as_ref(&self) -> &NoContext { &NoContext }
+        gen impl AsRef<hyperdrive::NoContext> for @Self {
+            fn as_ref(&self) -> &hyperdrive::NoContext { &hyperdrive::NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
@@ -99,9 +98,8 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
     ));
     let request_context = s.gen_impl(quote!(
         extern crate hyperdrive;
-        use hyperdrive::RequestContext;
 
-        gen impl RequestContext for @Self {}
+        gen impl hyperdrive::RequestContext for @Self {}
     ));
 
     quote!(
-- 
2.43.0

