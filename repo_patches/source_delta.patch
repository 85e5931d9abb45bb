From 78d97f45211b8e35bcf45118afc016ec41e640fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 01/12] fix: merge the fallback impl's bound into the type's
 own where clause

---
 impl/src/fallback.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..38bd87c 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -1,7 +1,7 @@
 use crate::expand::call_site_ident;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::DeriveInput;
+use syn::{parse_quote, DeriveInput};
 
 pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
@@ -9,17 +9,21 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
     let error = error.to_compile_error();
 
+    let mut error_generics = input.generics.clone();
+    error_generics
+        .make_where_clause()
+        .predicates
+        // Work around trivial bounds being unstable.
+        // https://github.com/rust-lang/rust/issues/48214
+        .push(parse_quote!(for<'workaround> #ty #ty_generics: ::core::fmt::Debug));
+    let error_where_clause = &error_generics.where_clause;
+
     quote! {
         #error
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
-        where
-            // Work around trivial bounds being unstable.
-            // https://github.com/rust-lang/rust/issues/48214
-            for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-        {}
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {}
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-- 
2.43.0


From b71bb9b457c9b4fe2bc0e85a342073151b2f8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 02/12] fix: recognize field shorthand after a colon, range
 operator, and raw const

---
 impl/src/attr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..c7448ee 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -247,7 +247,18 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if input.peek(Token![..]) && !input.peek(Token![...]) {
+            // Range operator. Both dots need to be consumed together so that
+            // the second one is not mistaken for the dot of a field access.
+            for _ in 0..2 {
+                tokens.push(input.parse()?);
+            }
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
+            || input.peek(Token![const])
             || input.peek(Token![continue])
             || input.peek(Token![if])
             || input.peek(Token![in])
@@ -260,6 +271,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             || input.peek(Token![!])
             || input.peek(Token![^])
             || input.peek(Token![,])
+            || input.peek(Token![:])
             || input.peek(Token![/])
             || input.peek(Token![=])
             || input.peek(Token![>])
-- 
2.43.0


From 499729c9fe6d628675fcada5f6c47e903c6e1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 03/12] fix: ignore whitespace around a format spec when
 detecting its trait

---
 impl/src/fmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..8a9ade4 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,9 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            // Whitespace is allowed on either side of the spec's contents.
+            let spec = read[..end_spec].trim();
+            let bound = match spec.strip_prefix(':').unwrap_or(spec).chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From 0a4aa09db8c030031267a99c438a53cdfbbd2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 04/12] fix: do not mistake a closing brace used as fill for
 the end of a placeholder

---
 impl/src/fmt.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 8a9ade4..649f057 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -85,7 +85,7 @@ impl Display<'_> {
                 }
                 _ => continue,
             };
-            let end_spec = match read.find('}') {
+            let end_spec = match find_end_spec(read) {
                 Some(end_spec) => end_spec,
                 None => return Ok(()),
             };
@@ -297,6 +297,18 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     ident
 }
 
+// Position of the brace which closes a placeholder. A closing brace followed by
+// an alignment, as in `{var:}>5}`, is the fill character and does not close it.
+fn find_end_spec(read: &str) -> Option<usize> {
+    let spec = read.trim_start();
+    let begin = if [":}<", ":}^", ":}>"].iter().any(|fill| spec.starts_with(fill)) {
+        read.len() - spec.len() + 2
+    } else {
+        0
+    };
+    read[begin..].find('}').map(|end| begin + end)
+}
+
 fn between<'a>(begin: ParseStream<'a>, end: ParseStream<'a>) -> TokenStream {
     let end = end.cursor();
     let mut cursor = begin.cursor();
-- 
2.43.0


From 73d87e0bde64991e89e676b636ff6dca369d94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 05/12] fix: support field names outside of ASCII in
 placeholders

---
 impl/src/fmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 649f057..cf7fe48 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,12 +65,12 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'..=char::MAX => {
                     if read.starts_with("r#") {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" {
+                    if repr == "_" || Ident::parse_any.parse_str(repr).is_err() {
                         // Invalid. Let rustc produce the diagnostic.
                         out += repr;
                         continue;
@@ -289,6 +289,10 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            // Not necessarily part of an identifier, but nothing else that is
+            // allowed to directly follow one is outside of ASCII, other than
+            // whitespace.
+            _ if !ch.is_ascii() && !ch.is_whitespace() => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From f6771140ab3477941782513887e2ed1240b6fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 06/12] fix: recognize field shorthand after a labeled break

---
 impl/src/attr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index c7448ee..46d0795 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -4,8 +4,8 @@ use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, Lifetime,
+    LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -257,6 +257,15 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             continue;
         }
 
+        if begin_expr && input.peek(Lifetime) {
+            // Label, as in `break 'label .field`. Still at the beginning of an
+            // expression.
+            for _ in 0..2 {
+                tokens.push(input.parse()?);
+            }
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
             || input.peek(Token![const])
             || input.peek(Token![continue])
-- 
2.43.0


From d19e494989fb7e87d6c64f9d5948fb68da619978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 07/12] fix: wrap the arm of a self-referential message in
 braces

---
 impl/src/expand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..17ee91a 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -389,7 +389,11 @@ fn impl_enum(input: Enum) -> TokenStream {
             let mut display_implied_bounds = Set::new();
             let display = if let Some(display) = &variant.attrs.display {
                 display_implied_bounds.clone_from(&display.implied_bounds);
-                display.to_token_stream()
+                if display.infinite_recursive {
+                    quote!({ #display })
+                } else {
+                    display.to_token_stream()
+                }
             } else if let Some(fmt) = &variant.attrs.fmt {
                 let fmt_path = &fmt.path;
                 let vars = variant.fields.iter().map(|field| match &field.member {
-- 
2.43.0


From a0a5814165d73dfb7bf21bd58e758d609804cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 08/12] fix: do not panic on arguments with an invisible group
 parsed in part

---
 impl/src/fmt.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index cf7fe48..f33b196 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -17,7 +17,7 @@ impl Display<'_> {
         let FmtArguments {
             named: user_named_args,
             first_unnamed,
-        } = explicit_named_args.parse2(raw_args).unwrap();
+        } = explicit_named_args(raw_args);
 
         let mut member_index = HashMap::new();
         let mut extra_positional_arguments_allowed = true;
@@ -169,25 +169,14 @@ struct FmtArguments {
     first_unnamed: Option<TokenStream>,
 }
 
-#[allow(clippy::unnecessary_wraps)]
-fn explicit_named_args(input: ParseStream) -> Result<FmtArguments> {
-    let ahead = input.fork();
-    if let Ok(set) = try_explicit_named_args(&ahead) {
-        input.advance_to(&ahead);
-        return Ok(set);
-    }
-
-    let ahead = input.fork();
-    if let Ok(set) = fallback_explicit_named_args(&ahead) {
-        input.advance_to(&ahead);
-        return Ok(set);
-    }
-
-    input.parse::<TokenStream>().unwrap();
-    Ok(FmtArguments {
-        named: BTreeSet::new(),
-        first_unnamed: None,
-    })
+fn explicit_named_args(args: TokenStream) -> FmtArguments {
+    try_explicit_named_args
+        .parse2(args.clone())
+        .or_else(|_| fallback_explicit_named_args.parse2(args))
+        .unwrap_or_else(|_| FmtArguments {
+            named: BTreeSet::new(),
+            first_unnamed: None,
+        })
 }
 
 fn try_explicit_named_args(input: ParseStream) -> Result<FmtArguments> {
-- 
2.43.0


From a91083870c8e50d0b23047ecde2bf29f6222dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 09/12] fix: avoid reserved syntax when inferring a bound on a
 qualified path

---
 impl/src/generics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..e002761 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::ToTokens;
 use std::collections::btree_map::Entry;
 use std::collections::{BTreeMap as Map, BTreeSet as Set};
@@ -76,7 +76,13 @@ impl InferredBounds {
         let where_clause = generics.make_where_clause();
         for ty in &self.order {
             let (_set, bounds) = &self.bounds[&ty.to_string()];
-            where_clause.predicates.push(parse_quote!(#ty: #bounds));
+            where_clause.predicates.push(match ty.clone().into_iter().next() {
+                // Angle bracket directly following `where` is reserved syntax.
+                Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
+                    parse_quote!((#ty): #bounds)
+                }
+                _ => parse_quote!(#ty: #bounds),
+            });
         }
         generics.where_clause.unwrap()
     }
-- 
2.43.0


From 10387968abaef3f36b8407d51f38f7bff468a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 10/12] fix: see through invisible groups around field types

---
 impl/src/expand.rs   | 11 ++++++++++-
 impl/src/generics.rs |  3 ++-
 impl/src/prop.rs     |  3 ++-
 impl/src/valid.rs    |  3 ++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 17ee91a..94857be 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -560,8 +560,17 @@ fn unoptional_type(ty: &Type) -> TokenStream {
     quote!(#unoptional)
 }
 
+// See through the None-delimited group surrounding a type which originates from
+// a macro_rules `$t:ty` fragment.
+pub(crate) fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 fn type_parameter_of_option(ty: &Type) -> Option<&Type> {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return None,
     };
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index e002761..e0444af 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -1,3 +1,4 @@
+use crate::expand::ungroup;
 use proc_macro2::{TokenStream, TokenTree};
 use quote::ToTokens;
 use std::collections::btree_map::Entry;
@@ -24,7 +25,7 @@ impl<'a> ParamsInScope<'a> {
 }
 
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup(ty) {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
diff --git a/impl/src/prop.rs b/impl/src/prop.rs
index 0a101fc..6526d75 100644
--- a/impl/src/prop.rs
+++ b/impl/src/prop.rs
@@ -1,4 +1,5 @@
 use crate::ast::{Enum, Field, Struct, Variant};
+use crate::expand::ungroup;
 use crate::unraw::MemberUnraw;
 use proc_macro2::Span;
 use syn::Type;
@@ -138,7 +139,7 @@ fn distinct_backtrace_field<'a, 'b>(
 }
 
 fn type_is_backtrace(ty: &Type) -> bool {
-    let path = match ty {
+    let path = match ungroup(ty) {
         Type::Path(ty) => &ty.path,
         _ => return false,
     };
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..f9d4665 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -1,5 +1,6 @@
 use crate::ast::{Enum, Field, Input, Struct, Variant};
 use crate::attr::Attrs;
+use crate::expand::ungroup;
 use syn::{Error, GenericArgument, PathArguments, Result, Type};
 
 impl Input<'_> {
@@ -222,7 +223,7 @@ fn check_field_attrs(fields: &[Field]) -> Result<()> {
 }
 
 fn contains_non_static_lifetime(ty: &Type) -> bool {
-    match ty {
+    match ungroup(ty) {
         Type::Path(ty) => {
             let bracketed = match &ty.path.segments.last().unwrap().arguments {
                 PathArguments::AngleBracketed(bracketed) => bracketed,
-- 
2.43.0


From 02fb594660c9d1793add93e9a50c856e0b18a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 11/12] fix: a format placeholder with an invisible character
 next to the name panicked

Rust's lexer skips U+200E, U+200F and a leading U+FEFF, so the text parsed
as an identifier, but Ident::new rejects it.
---
 impl/src/fmt.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index f33b196..c09868e 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -70,12 +70,15 @@ impl Display<'_> {
                         continue;
                     }
                     let repr = take_ident(&mut read);
-                    if repr == "_" || Ident::parse_any.parse_str(repr).is_err() {
-                        // Invalid. Let rustc produce the diagnostic.
-                        out += repr;
-                        continue;
-                    }
-                    let ident = IdentUnraw::new(Ident::new(repr, span));
+                    let mut ident = match Ident::parse_any.parse_str(repr) {
+                        Ok(ident) if repr != "_" => IdentUnraw::new(ident),
+                        _ => {
+                            // Invalid. Let rustc produce the diagnostic.
+                            out += repr;
+                            continue;
+                        }
+                    };
+                    ident.set_span(span);
                     if user_named_args.contains(&ident) {
                         // Refers to a named argument written by the user, not to field.
                         out += repr;
@@ -278,6 +281,8 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            // Not part of an identifier, but skipped by Rust's lexer.
+            '\u{200e}' | '\u{200f}' | '\u{feff}' => break,
             // Not necessarily part of an identifier, but nothing else that is
             // allowed to directly follow one is outside of ASCII, other than
             // whitespace.
-- 
2.43.0


From 3562c64b10d97f52e907a53c4efb29fa5009f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 12/12] fix: do not mistake the end of a turbofish for a
 comparison

---
 impl/src/attr.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 46d0795..7da96d5 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -4,8 +4,8 @@ use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, Lifetime,
-    LitFloat, LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, AngleBracketedGenericArguments, Attribute, Error,
+    ExprPath, Ident, Index, Lifetime, LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -257,6 +257,18 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             continue;
         }
 
+        if input.peek(Token![::]) && input.peek3(Token![<]) {
+            // Turbofish. The closing angle bracket is not a comparison after
+            // which an operand begins, as in `None::<T>.is_some()`.
+            let ahead = input.fork();
+            if let Ok(arguments) = ahead.parse::<AngleBracketedGenericArguments>() {
+                input.advance_to(&ahead);
+                tokens.extend(arguments.into_token_stream());
+                begin_expr = false;
+                continue;
+            }
+        }
+
         if begin_expr && input.peek(Lifetime) {
             // Label, as in `break 'label .field`. Still at the beginning of an
             // expression.
-- 
2.43.0

