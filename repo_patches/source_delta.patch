From 22894d0e922fc172afa30132c1e2964f56f5bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 1/9] fix: derive(ToTokens) on enum variants with a field named
 `tokens`

---
 parsel_derive/src/to_tokens.rs | 35 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..be25d0d 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -87,35 +87,32 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
         .iter()
         .map(|variant| {
             let variant_name = &variant.ident;
-            let field_names = match &variant.fields {
-                Fields::Unit => Vec::new(),
+            // Bind every field to a name that can't clash with `tokens` below
+            let bindings: Vec<_> = variant.fields
+                .iter()
+                .enumerate()
+                .map(|(i, _)| format_ident!("parsel_field_{}_{}", variant_name, i))
+                .collect();
+            let pattern = match &variant.fields {
+                Fields::Unit => TokenStream::new(),
                 Fields::Named(fields) => {
-                    fields.named
+                    let field_names = fields.named
                         .iter()
                         .map(|field| {
-                            field.ident.clone().ok_or_else(|| {
+                            field.ident.as_ref().ok_or_else(|| {
                                 Error::new(field.span(), "unnamed field in named struct")
                             })
                         })
-                        .collect::<Result<_>>()?
-                }
-                Fields::Unnamed(fields) => {
-                    fields.unnamed
-                        .iter()
-                        .enumerate()
-                        .map(|(i, _)| format_ident!("parsel_field_{}_{}", variant_name, i))
-                        .collect()
+                        .collect::<Result<Vec<_>>>()?;
+
+                    quote!({ #(#field_names: #bindings,)* })
                 }
-            };
-            let bindings = match &variant.fields {
-                Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
+                Fields::Unnamed(_) => quote!{ (#(#bindings),*) },
             };
 
             Ok(quote!{
-                #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#field_names, &mut *tokens);)*
+                #ty_name::#variant_name #pattern => {
+                    #(::parsel::ToTokens::to_tokens(#bindings, &mut *tokens);)*
                 }
             })
         })
-- 
2.43.0


From fbdc687fbe44cc6d191c6a517aaf753f1647b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 2/9] fix: derive(ToTokens) on enums without variants

---
 parsel_derive/src/to_tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index be25d0d..b95938f 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -71,6 +71,11 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 }
 
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
+    // a reference is always considered inhabited, so the place itself must be matched
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
+
     let body = expand_variants(ty_name, data)?;
 
     Ok(quote!{
-- 
2.43.0


From 4005b4dd00bf29097bea452ec3cbe397c30f8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 3/9] fix: derive(Parse) on enums does not depend on what `Err`
 means in scope

---
 parsel_derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index fea02b3..e2691db 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -105,7 +105,7 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
         #parsers
 
-        Err(
+        ::parsel::Result::Err(
             error.unwrap_or_else(|| {
                 input.error("parsing an empty choice (enum) always fails")
             })
-- 
2.43.0


From 1def762c03d0f28c57e11986d835713e6b2dcb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 4/9] fix: derived where clauses list their predicates in a
 deterministic order

---
 parsel_derive/src/util.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parsel_derive/src/util.rs b/parsel_derive/src/util.rs
index 3ebef2b..ed201d2 100644
--- a/parsel_derive/src/util.rs
+++ b/parsel_derive/src/util.rs
@@ -16,10 +16,10 @@ pub fn add_bounds(
     where_clause: Option<&WhereClause>,
     bounds: Punctuated<TypeParamBound, Token![+]>,
 ) -> Result<WhereClause> {
-    let unique_types: HashSet<_> = match input.data {
+    let types: Vec<_> = match input.data {
         Data::Union(_) => return Err(Error::new_spanned(input, "unions are not supported")),
         Data::Struct(data) => match data.fields {
-            Fields::Unit => HashSet::new(),
+            Fields::Unit => Vec::new(),
             Fields::Named(fields) => {
                 fields.named
                     .into_iter()
@@ -64,8 +64,12 @@ pub fn add_bounds(
         }
     });
 
+    // filter in source order instead of iterating over a set, so that
+    // the expansion of the same item is always the same
+    let mut seen = HashSet::new();
+
     where_clause.predicates.extend(
-        unique_types.iter().map(|ty| -> WherePredicate {
+        types.iter().filter(|&ty| seen.insert(ty)).map(|ty| -> WherePredicate {
             parse_quote!{
                 #ty: #bounds
             }
-- 
2.43.0


From 5d9e02cab3ff7050eef0fa8a30f0fdc32faa335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 5/9] fix: out-of-range floating-point literals are an error
 instead of infinity

---
 parsel/src/ast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..fe0aea1 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2649,6 +2649,12 @@ impl TryFrom<syn::LitFloat> for LitFloat {
     fn try_from(lit: syn::LitFloat) -> Result<Self> {
         let value: NotNan<f64> = lit.base10_parse()?;
         let span = lit.span();
+
+        // too large literals parse as infinity, for which there's no token
+        if value.is_infinite() {
+            return Err(Error::new(span, "floating-point literal out of range"));
+        }
+
         Ok(LitFloat::new(value, span))
     }
 }
-- 
2.43.0


From b0a2165cf45b50ab8af5204027f29a5632bcdce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 6/9] fix: Any terminates when its item succeeds without
 consuming anything

---
 parsel/src/ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index fe0aea1..a60b816 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2315,6 +2315,11 @@ where
             let fork = input.fork();
 
             if let Ok(item) = fork.parse() {
+                // an empty item would be found at the same place forever
+                if fork.cursor() == input.cursor() {
+                    break;
+                }
+
                 inner.push(item);
                 input.advance_to(&fork);
             } else {
-- 
2.43.0


From 0109a02d9ecfff760721467f41c9ffd4056016be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 7/9] fix: Separated terminates when a pair succeeds without
 consuming anything

---
 parsel/src/ast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index a60b816..e615344 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2013,9 +2013,16 @@ where
             let fork = input.fork();
 
             if let Ok(punct) = fork.parse::<P>() {
+                let start = input.cursor();
                 input.advance_to(&fork);
 
                 let value: T = input.parse()?;
+
+                // an empty pair would be found at the same place forever
+                if input.cursor() == start {
+                    break;
+                }
+
                 inner.push_punct(punct);
                 inner.push_value(value);
             } else {
-- 
2.43.0


From 04da9fbbdf7bc09456021cbf50e38b7b6eeff1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 8/9] fix: Punctuated terminates when a pair succeeds without
 consuming anything

---
 parsel/src/ast.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index e615344..4848f1d 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -1590,7 +1590,25 @@ where
     P: Parse,
 {
     fn parse(input: ParseStream<'_>) -> Result<Self> {
-        let inner = syn::punctuated::Punctuated::parse_terminated(input)?;
+        let mut inner = syn::punctuated::Punctuated::new();
+
+        while !input.is_empty() {
+            let start = input.cursor();
+
+            inner.push_value(input.parse()?);
+
+            if input.is_empty() {
+                break;
+            }
+
+            inner.push_punct(input.parse()?);
+
+            // an empty pair would be found at the same place forever
+            if input.cursor() == start {
+                return Err(input.error("expected an item or a separator"));
+            }
+        }
+
         Ok(Punctuated { inner })
     }
 }
-- 
2.43.0


From 461208725924ce0bed831096c61bb8831f7ff6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 9/9] fix: printing a keyword generated for a raw identifier
 panicked

define_keywords!{ mod kw { r#fn => Fn; } } parses `r#fn`, but token() and
to_tokens() handed the whole string to Ident::new(), which panics.
---
 parsel/src/ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 4848f1d..e0a20be 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,11 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                // `Ident::new()` panics when it is given a raw identifier
+                match $string.strip_prefix("r#") {
+                    ::core::option::Option::Some(raw) => ::parsel::ast::Ident::new_raw(raw, self.span),
+                    ::core::option::Option::None => ::parsel::ast::Ident::new($string, self.span),
+                }
             }
         }
 
-- 
2.43.0

