From 1376a6f30745a172402e82d3b8b17d5e18ffd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 1/9] fix: derive(ToTokens): don't let variant fields shadow
 `tokens` or clash with items in scope

A struct-like enum variant with a field named `tokens` shadowed the token
stream parameter of the generated method, so the derived impl did not compile.
---
 parsel_derive/src/to_tokens.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..2499224 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -87,35 +87,31 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
         .iter()
         .map(|variant| {
             let variant_name = &variant.ident;
-            let field_names = match &variant.fields {
-                Fields::Unit => Vec::new(),
+            // Named fields are bound to generated names, too, so that they can't
+            // shadow `tokens`, nor clash with constants and unit structs in scope.
+            let bound_names: Vec<_> = (0..variant.fields.len())
+                .map(|i| format_ident!("parsel_field_{}_{}", variant_name, i))
+                .collect();
+            let bindings = match &variant.fields {
+                Fields::Unit => TokenStream::new(),
                 Fields::Named(fields) => {
-                    fields.named
+                    let field_names = fields.named
                         .iter()
                         .map(|field| {
-                            field.ident.clone().ok_or_else(|| {
+                            field.ident.as_ref().ok_or_else(|| {
                                 Error::new(field.span(), "unnamed field in named struct")
                             })
                         })
-                        .collect::<Result<_>>()?
-                }
-                Fields::Unnamed(fields) => {
-                    fields.unnamed
-                        .iter()
-                        .enumerate()
-                        .map(|(i, _)| format_ident!("parsel_field_{}_{}", variant_name, i))
-                        .collect()
+                        .collect::<Result<Vec<_>>>()?;
+
+                    quote!({ #(#field_names: #bound_names,)* })
                 }
-            };
-            let bindings = match &variant.fields {
-                Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
+                Fields::Unnamed(_) => quote!{ (#(#bound_names),*) },
             };
 
             Ok(quote!{
                 #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#field_names, &mut *tokens);)*
+                    #(::parsel::ToTokens::to_tokens(#bound_names, &mut *tokens);)*
                 }
             })
         })
-- 
2.43.0


From 66db0b8c51827842782f99efc17129edaee2b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 2/9] fix: derive(ToTokens): support enums without variants

derive(Parse) accepts them (and always fails), but the `match` generated
by derive(ToTokens) was not exhaustive, so it did not compile.
---
 parsel_derive/src/to_tokens.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 2499224..312f3d0 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -73,6 +73,12 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let body = expand_variants(ty_name, data)?;
 
+    // a reference is always considered inhabited, so an
+    // empty `match` needs the uninhabited type itself
+    if data.variants.is_empty() {
+        return Ok(quote!{ match *self {} });
+    }
+
     Ok(quote!{
         match self {
             #body
-- 
2.43.0


From 61bf931ea5bbb4b3bbd107e7d1be7847d9f56cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 3/9] fix: derive(Parse): refer to Err by its full path

The derived impl did not compile when the user had an item named `Err` in scope.
---
 parsel_derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index fea02b3..e2691db 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -105,7 +105,7 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
         #parsers
 
-        Err(
+        ::parsel::Result::Err(
             error.unwrap_or_else(|| {
                 input.error("parsing an empty choice (enum) always fails")
             })
-- 
2.43.0


From 3d3da699482c8194ec8f87f4afb7e67ffff124d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 4/9] fix: LitFloat: don't panic when printing an infinite
 value

Literals such as `1e999` parse successfully as infinity, and infinity is also
accepted by the conversions, but Literal::f64_unsuffixed() panics on it.
---
 parsel/src/ast.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..da4326b 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2550,7 +2550,15 @@ impl LitUint {
 
 impl LitFloat {
     pub fn token(&self) -> Literal {
-        let mut lit = Literal::f64_unsuffixed(self.value.into_inner());
+        let value = self.value.into_inner();
+        let mut lit = if value.is_infinite() {
+            // An overflowing literal parses successfully as infinity, so we must
+            // be able to print it as well. `f64_unsuffixed()` panics on infinity.
+            let repr = if value > 0.0 { "1e999" } else { "-1e999" };
+            Literal::from_str(repr).expect("unparseable float literal")
+        } else {
+            Literal::f64_unsuffixed(value)
+        };
         lit.set_span(self.span);
         lit
     }
-- 
2.43.0


From 3d7000b4fe3c9696513423a54e58be7820eb4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 5/9] fix: define_keywords: printing a raw identifier declared
 as a keyword panicked

---
 parsel/src/ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index da4326b..5df66a3 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,11 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                // `Ident::new()` panics when it's given a raw identifier
+                match ::core::primitive::str::strip_prefix($string, "r#") {
+                    ::core::option::Option::Some(raw) => ::parsel::ast::Ident::new_raw(raw, self.span),
+                    ::core::option::Option::None => ::parsel::ast::Ident::new($string, self.span),
+                }
             }
         }
 
-- 
2.43.0


From 040588d54bb13e46ea73dd47ae838d9f080c5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 6/9] fix: extending a Punctuated with no pairs leaves it
 unchanged

---
 parsel/src/ast.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 5df66a3..ab8827a 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -1511,7 +1511,13 @@ where
     where
         I: IntoIterator<Item = Pair<T, P>>
     {
-        self.inner.extend(iter);
+        // `syn` adds a default separator after the last item even
+        // if the iterator turns out not to yield anything at all.
+        let mut iter = iter.into_iter().peekable();
+
+        if iter.peek().is_some() {
+            self.inner.extend(iter);
+        }
     }
 }
 
-- 
2.43.0


From 9c374f592860b686368d70906347c267734dd236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 7/9] fix: derived impls compile when an item or const
 parameter in scope is named like one of their variables

---
 parsel_derive/src/display.rs   |  4 ++--
 parsel_derive/src/from_str.rs  |  4 ++--
 parsel_derive/src/parse.rs     | 38 ++++++++++++++++++----------------
 parsel_derive/src/to_tokens.rs | 10 ++++-----
 4 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/parsel_derive/src/display.rs b/parsel_derive/src/display.rs
index 153153a..1fe0419 100644
--- a/parsel_derive/src/display.rs
+++ b/parsel_derive/src/display.rs
@@ -25,8 +25,8 @@ pub fn expand(stream: TokenStream) -> Result<TokenStream> {
     Ok(quote!{
         #[automatically_derived]
         impl #impl_gen ::core::fmt::Display for #ty_name #ty_gen #where_clause {
-            fn fmt(&self, formatter: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
-                ::parsel::util::format_ast_node(self, formatter)
+            fn fmt(&self, parsel_formatter: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
+                ::parsel::util::format_ast_node(self, parsel_formatter)
             }
         }
     })
diff --git a/parsel_derive/src/from_str.rs b/parsel_derive/src/from_str.rs
index d50c0a2..a2ad46a 100644
--- a/parsel_derive/src/from_str.rs
+++ b/parsel_derive/src/from_str.rs
@@ -27,8 +27,8 @@ pub fn expand(stream: TokenStream) -> Result<TokenStream> {
         impl #impl_gen ::core::str::FromStr for #ty_name #ty_gen #where_clause {
             type Err = ::parsel::Error;
 
-            fn from_str(string: &::core::primitive::str) -> ::parsel::Result<Self> {
-                ::parsel::parse_str(string)
+            fn from_str(parsel_string: &::core::primitive::str) -> ::parsel::Result<Self> {
+                ::parsel::parse_str(parsel_string)
             }
         }
     })
diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index e2691db..c8c3a60 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -29,7 +29,7 @@ pub fn expand(stream: TokenStream) -> Result<TokenStream> {
         #[automatically_derived]
         #[allow(non_snake_case)]
         impl #impl_gen ::parsel::Parse for #ty_name #ty_gen #where_clause {
-            fn parse(input: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<Self> {
+            fn parse(parsel_input: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<Self> {
                 #body
             }
         }
@@ -61,32 +61,32 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
                     let field_str = field_name.to_string();
 
                     Ok(quote!{
-                        #field_name: input.parse().map_err(|cause| {
-                            ::parsel::util::chain_error(cause, #enum_str, #ctor_str, #field_str)
+                        #field_name: parsel_input.parse().map_err(|parsel_cause| {
+                            ::parsel::util::chain_error(parsel_cause, #enum_str, #ctor_str, #field_str)
                         })?
                     })
                 })
                 .collect::<Result<_>>()?;
 
             Ok(quote!{
-                let ast_node = #(#enum_name::)* #ctor_name {
+                let parsel_node = #(#enum_name::)* #ctor_name {
                     #(#inits,)*
                 };
-                ::parsel::Result::Ok(ast_node)
+                ::parsel::Result::Ok(parsel_node)
             })
         }
         Fields::Unnamed(fields) => {
             let inits = fields.unnamed.iter().enumerate().map(|(index, _)| {
                 quote!{
-                    input.parse().map_err(|cause| {
-                        ::parsel::util::chain_error(cause, #enum_str, #ctor_str, #index)
+                    parsel_input.parse().map_err(|parsel_cause| {
+                        ::parsel::util::chain_error(parsel_cause, #enum_str, #ctor_str, #index)
                     })?
                 }
             });
 
             Ok(quote!{
-                let ast_node = #(#enum_name::)* #ctor_name(#(#inits),*);
-                ::parsel::Result::Ok(ast_node)
+                let parsel_node = #(#enum_name::)* #ctor_name(#(#inits),*);
+                ::parsel::Result::Ok(parsel_node)
             })
         }
         Fields::Unit => {
@@ -101,13 +101,13 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let parsers = expand_variants(ty_name, &data.variants)?;
 
     Ok(quote!{
-        let mut error = ::core::option::Option::None;
+        let mut parsel_error = ::core::option::Option::None;
 
         #parsers
 
         ::parsel::Result::Err(
-            error.unwrap_or_else(|| {
-                input.error("parsing an empty choice (enum) always fails")
+            parsel_error.unwrap_or_else(|| {
+                parsel_input.error("parsing an empty choice (enum) always fails")
             })
         )
     })
@@ -122,12 +122,14 @@ fn expand_variants(ty_name: &Ident, variants: &Punctuated<Variant, Token![,]>) -
             let body = expand_fields(Some(ty_name), &variant.ident, &variant.fields)?;
 
             Ok(quote!{
-                let result = ::parsel::util::try_parse_variant(input, error, |input| { #body });
-
-                match result {
-                    ::parsel::Result::Ok(_) => return result,
-                    ::parsel::Result::Err(err) => {
-                        error = ::core::option::Option::Some(err);
+                let parsel_result = ::parsel::util::try_parse_variant(
+                    parsel_input, parsel_error, |parsel_input| { #body }
+                );
+
+                match parsel_result {
+                    ::parsel::Result::Ok(_) => return parsel_result,
+                    ::parsel::Result::Err(parsel_err) => {
+                        parsel_error = ::core::option::Option::Some(parsel_err);
                     }
                 }
             })
diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 312f3d0..b4006ba 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -28,7 +28,7 @@ pub fn expand(stream: TokenStream) -> Result<TokenStream> {
         #[automatically_derived]
         #[allow(non_snake_case)]
         impl #impl_gen ::parsel::ToTokens for #ty_name #ty_gen #where_clause {
-            fn to_tokens(&self, tokens: &mut ::parsel::TokenStream) {
+            fn to_tokens(&self, parsel_tokens: &mut ::parsel::TokenStream) {
                 #body
             }
         }
@@ -47,7 +47,7 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
                     })?;
 
                     Ok(quote!{
-                        ::parsel::ToTokens::to_tokens(&self.#field_name, &mut *tokens);
+                        ::parsel::ToTokens::to_tokens(&self.#field_name, &mut *parsel_tokens);
                     })
                 })
                 .collect()
@@ -61,7 +61,7 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
                     let field_index = Index { index, span };
 
                     Ok(quote!{
-                        ::parsel::ToTokens::to_tokens(&self.#field_index, &mut *tokens);
+                        ::parsel::ToTokens::to_tokens(&self.#field_index, &mut *parsel_tokens);
                     })
                 })
                 .collect()
@@ -94,7 +94,7 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
         .map(|variant| {
             let variant_name = &variant.ident;
             // Named fields are bound to generated names, too, so that they can't
-            // shadow `tokens`, nor clash with constants and unit structs in scope.
+            // shadow `parsel_tokens`, nor clash with constants and unit structs in scope.
             let bound_names: Vec<_> = (0..variant.fields.len())
                 .map(|i| format_ident!("parsel_field_{}_{}", variant_name, i))
                 .collect();
@@ -117,7 +117,7 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
             Ok(quote!{
                 #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#bound_names, &mut *tokens);)*
+                    #(::parsel::ToTokens::to_tokens(#bound_names, &mut *parsel_tokens);)*
                 }
             })
         })
-- 
2.43.0


From 13b764ac17b63afc77867cb7520ce893b584cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 8/9] fix: define_keywords! accepts keyword types named T or
 bool

---
 parsel/src/ast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index ab8827a..8c91165 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -338,22 +338,22 @@ macro_rules! define_keywords {
         }
 
         // These traits are implemented manually because `Span: !PartialEq + !Hash`
-        impl<T> ::core::cmp::PartialEq<T> for $name
+        impl<ParselT> ::core::cmp::PartialEq<ParselT> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            ParselT: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn eq(&self, other: &T) -> bool {
+            fn eq(&self, other: &ParselT) -> ::core::primitive::bool {
                 self.as_str() == ::core::convert::AsRef::as_ref(other)
             }
         }
 
         impl ::core::cmp::Eq for $name {}
 
-        impl<T> ::core::cmp::PartialOrd<T> for $name
+        impl<ParselT> ::core::cmp::PartialOrd<ParselT> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            ParselT: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn partial_cmp(&self, other: &T) -> ::core::option::Option<::core::cmp::Ordering> {
+            fn partial_cmp(&self, other: &ParselT) -> ::core::option::Option<::core::cmp::Ordering> {
                 ::core::option::Option::Some(
                     ::core::cmp::Ord::cmp(self.as_str(), ::core::convert::AsRef::as_ref(other))
                 )
-- 
2.43.0


From 0293936227e8ae2090e90782fb1eca7bdadd427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:25 +0000
Subject: [PATCH 9/9] fix: derive(Parse) names the type it builds, so that
 generic arguments are not inferred from unrelated bounds

---
 parsel_derive/src/parse.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index c8c3a60..d2dd185 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -45,7 +45,13 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
     // these are passed to `chain_error()` for describing the production currently being parsed
     let enum_str = enum_name.map(Ident::to_string).unwrap_or_default();
     let ctor_str = ctor_name.to_string();
-    let enum_name = enum_name.into_iter();
+
+    // Naming the type being built as `Self` (as opposed to leaving its generic arguments
+    // to inference) ensures that the field types are known when the fields are parsed.
+    let ctor = match enum_name {
+        Some(_) => quote!(Self::#ctor_name),
+        None => quote!(Self),
+    };
 
     // It is correct to rely on the evaluation order being left-to-right
     // in source order, in the case of both named and tuple fields:
@@ -69,7 +75,7 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
                 .collect::<Result<_>>()?;
 
             Ok(quote!{
-                let parsel_node = #(#enum_name::)* #ctor_name {
+                let parsel_node = #ctor {
                     #(#inits,)*
                 };
                 ::parsel::Result::Ok(parsel_node)
@@ -85,13 +91,13 @@ fn expand_fields(enum_name: Option<&Ident>, ctor_name: &Ident, fields: &Fields)
             });
 
             Ok(quote!{
-                let parsel_node = #(#enum_name::)* #ctor_name(#(#inits),*);
+                let parsel_node = #ctor(#(#inits),*);
                 ::parsel::Result::Ok(parsel_node)
             })
         }
         Fields::Unit => {
             Ok(quote!{
-                ::parsel::Result::Ok(#(#enum_name::)* #ctor_name)
+                ::parsel::Result::Ok(#ctor)
             })
         }
     }
-- 
2.43.0

