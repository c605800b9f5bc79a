From 03b4b341debfa4845552d04430c65dd7b46f5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 01/27] verification hook: derive entry point under
 cfg(thiserror_verif)

---
 impl/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 7f3767e..cc2cfbc 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unknown_lints, unexpected_cfgs)] // cfg(thiserror_verif)
 #![allow(
     clippy::blocks_in_conditions,
     clippy::cast_lossless,
@@ -32,8 +33,19 @@ mod valid;
 use proc_macro::TokenStream;
 use syn::{parse_macro_input, DeriveInput};
 
-#[proc_macro_derive(Error, attributes(backtrace, error, from, source))]
+#[cfg_attr(
+    not(thiserror_verif),
+    proc_macro_derive(Error, attributes(backtrace, error, from, source))
+)]
 pub fn derive_error(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     expand::derive(&input).into()
 }
+
+// Verification hook, compiled only with `--cfg thiserror_verif`: runs the derive
+// on a token stream outside of rustc, in a build of this file as an ordinary lib.
+#[cfg(thiserror_verif)]
+pub fn verif_derive(input: proc_macro2::TokenStream) -> syn::Result<proc_macro2::TokenStream> {
+    let input: DeriveInput = syn::parse2(input)?;
+    Ok(expand::derive(&input))
+}
-- 
2.43.0


From da60b40919349c1f2b23dc47e659531936300835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/27] fix: ignore whitespace before the closing brace of a
 placeholder

std's format strings allow whitespace between the format spec and '}'.
The trait of `{x:p }` or `{x:? }` was taken to be Display, so the pointer
of the reference was printed, the wrong bound was inferred, and `{path }`
did not go through AsDisplay.
---
 impl/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 1da28c1..438a002 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -90,7 +90,7 @@ impl Display<'_> {
                 None => return Ok(()),
             };
             let mut bonus_display = false;
-            let bound = match read[..end_spec].chars().next_back() {
+            let bound = match read[..end_spec].trim_end().chars().next_back() {
                 Some('?') => Trait::Debug,
                 Some('o') => Trait::Octal,
                 Some('x') => Trait::LowerHex,
-- 
2.43.0


From 4d2b4f98b0823d9c06a019b55367cb857d4da435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 03/27] fix: field named r#gen in edition 2024

---
 impl/src/unraw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 73b9970..1d143ba 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -19,7 +19,8 @@ impl IdentUnraw {
     pub fn to_local(&self) -> Ident {
         let unraw = self.0.unraw();
         let repr = unraw.to_string();
-        if syn::parse_str::<Ident>(&repr).is_err() {
+        // `gen` is a keyword as of the 2024 edition, which syn accepts as an ident.
+        if repr == "gen" || syn::parse_str::<Ident>(&repr).is_err() {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-- 
2.43.0


From 13b2310eb6be225f6c52665c247dd9344e3f23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 04/27] fix: non-ASCII field names in a message
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`{größe}` was cut off after `gr`, so it named the wrong field if there was
a field `gr`, and no trait bound or AsDisplay was applied otherwise.
---
 impl/src/fmt.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 438a002..58507d2 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,7 +65,7 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'..=char::MAX => {
                     if read.starts_with("r#") {
                         continue;
                     }
@@ -75,7 +75,17 @@ impl Display<'_> {
                         out += repr;
                         continue;
                     }
-                    let ident = IdentUnraw::new(Ident::new(repr, span));
+                    let ident = if repr.is_ascii() {
+                        Ident::new(repr, span)
+                    } else if let Ok(mut ident) = syn::parse_str::<Ident>(repr) {
+                        ident.set_span(span);
+                        ident
+                    } else {
+                        // Invalid. Let rustc produce the diagnostic.
+                        out += repr;
+                        continue;
+                    };
+                    let ident = IdentUnraw::new(ident);
                     if user_named_args.contains(&ident) {
                         // Refers to a named argument written by the user, not to field.
                         out += repr;
@@ -287,6 +297,7 @@ fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     for ch in read.chars() {
         match ch {
             'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
+            _ if !ch.is_ascii() && !ch.is_whitespace() => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From cffdb23c1722e65b1efb7dc06f550480621c1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 05/27] fix: .field shorthand as value in a struct literal
 argument

---
 impl/src/attr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 7ad83e0..93bc8a6 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -267,6 +267,7 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             || input.peek(Token![|])
             || input.peek(Token![%])
             || input.peek(Token![;])
+            || input.peek(Token![:])
             || input.peek(Token![*])
             || input.peek(Token![-]);
 
-- 
2.43.0


From 53aff001f66c62857fb22bc476b13adce357ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 06/27] fix: .field shorthand as end of a range

---
 impl/src/attr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 93bc8a6..3bc41ed 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -247,6 +247,14 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if input.peek(Token![..]) && !input.peek(Token![...]) {
+            // Range operator, which an expression may follow.
+            tokens.push(input.parse()?);
+            tokens.push(input.parse()?);
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
             || input.peek(Token![continue])
             || input.peek(Token![if])
-- 
2.43.0


From 91b50bfe57aa0dc940049c398bad9f9de33fb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 07/27] fix: invalid expansion of {self} in an enum variant's
 message

The unconditional_recursion lint trigger is an item, which needs a block
around it in a match arm.
---
 impl/src/expand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index c693921..17ee91a 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -389,7 +389,11 @@ fn impl_enum(input: Enum) -> TokenStream {
             let mut display_implied_bounds = Set::new();
             let display = if let Some(display) = &variant.attrs.display {
                 display_implied_bounds.clone_from(&display.implied_bounds);
-                display.to_token_stream()
+                if display.infinite_recursive {
+                    quote!({ #display })
+                } else {
+                    display.to_token_stream()
+                }
             } else if let Some(fmt) = &variant.attrs.fmt {
                 let fmt_path = &fmt.path;
                 let vars = variant.fields.iter().map(|field| match &field.member {
-- 
2.43.0


From 00a41d42810ec0893e48e767b5e29008b5c4dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 08/27] fix: field types that come from a macro_rules type
 fragment

A $t:ty arrives wrapped in an invisible group, which hid Option, Backtrace,
type parameters and lifetimes from the derive.
---
 impl/src/ast.rs      | 8 ++++++--
 impl/src/generics.rs | 4 +++-
 impl/src/valid.rs    | 1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/impl/src/ast.rs b/impl/src/ast.rs
index 77f9583..0f6785f 100644
--- a/impl/src/ast.rs
+++ b/impl/src/ast.rs
@@ -137,6 +137,10 @@ impl<'a> Field<'a> {
     }
 
     fn from_syn(i: usize, node: &'a syn::Field, scope: &ParamsInScope<'a>) -> Result<Self> {
+        let mut ty = &node.ty;
+        while let Type::Group(group) = ty {
+            ty = &group.elem;
+        }
         Ok(Field {
             original: node,
             attrs: attr::get(&node.attrs)?,
@@ -147,8 +151,8 @@ impl<'a> Field<'a> {
                     span: Span::call_site(),
                 }),
             },
-            ty: &node.ty,
-            contains_generic: scope.intersects(&node.ty),
+            ty,
+            contains_generic: scope.intersects(ty),
         })
     }
 }
diff --git a/impl/src/generics.rs b/impl/src/generics.rs
index 26fe0a9..54d7a54 100644
--- a/impl/src/generics.rs
+++ b/impl/src/generics.rs
@@ -24,7 +24,9 @@ impl<'a> ParamsInScope<'a> {
 }
 
 fn crawl(in_scope: &ParamsInScope, ty: &Type, found: &mut bool) {
-    if let Type::Path(ty) = ty {
+    if let Type::Group(ty) = ty {
+        crawl(in_scope, &ty.elem, found);
+    } else if let Type::Path(ty) = ty {
         if let Some(qself) = &ty.qself {
             crawl(in_scope, &qself.ty, found);
         } else {
diff --git a/impl/src/valid.rs b/impl/src/valid.rs
index 21bd885..4f026cf 100644
--- a/impl/src/valid.rs
+++ b/impl/src/valid.rs
@@ -243,6 +243,7 @@ fn contains_non_static_lifetime(ty: &Type) -> bool {
             .lifetime
             .as_ref()
             .map_or(false, |lifetime| lifetime.ident != "static"),
+        Type::Group(ty) => contains_non_static_lifetime(&ty.elem),
         _ => false, // maybe implement later if there are common other cases
     }
 }
-- 
2.43.0


From 2b127947b23fe1edf10f6431f58ddc5584afe8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 09/27] fix: .field shorthand after a break label and after
 &raw const

---
 impl/src/attr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 3bc41ed..16ac574 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -5,7 +5,7 @@ use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
     braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    LitInt, LitStr, Meta, Result, Token,
+    Lifetime, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -255,7 +255,16 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             continue;
         }
 
+        if input.peek(Lifetime) {
+            // Label of a break, or of a block or loop.
+            tokens.push(input.parse()?);
+            tokens.push(input.parse()?);
+            begin_expr = true;
+            continue;
+        }
+
         begin_expr = input.peek(Token![break])
+            || input.peek(Token![const])
             || input.peek(Token![continue])
             || input.peek(Token![if])
             || input.peek(Token![in])
-- 
2.43.0


From 2ad0c19d20392c36ad1b8ffe43e57263f3ceea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 10/27] fix: method call on a path that ends in generic
 arguments

In `f::<T>.method()` the dot was taken for the .field shorthand.
---
 impl/src/attr.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 16ac574..df7fa64 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -4,8 +4,8 @@ use std::collections::BTreeSet as Set;
 use syn::parse::discouraged::Speculative;
 use syn::parse::{End, ParseStream};
 use syn::{
-    braced, bracketed, parenthesized, token, Attribute, Error, ExprPath, Ident, Index, LitFloat,
-    Lifetime, LitInt, LitStr, Meta, Result, Token,
+    braced, bracketed, parenthesized, token, AngleBracketedGenericArguments, Attribute, Error,
+    ExprPath, Ident, Index, Lifetime, LitFloat, LitInt, LitStr, Meta, Result, Token,
 };
 
 pub struct Attrs<'a> {
@@ -255,6 +255,18 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             continue;
         }
 
+        if input.peek(Token![::]) && input.peek3(Token![<]) {
+            // Turbofish. No expression begins after its closing `>`.
+            let ahead = input.fork();
+            if ahead.parse::<AngleBracketedGenericArguments>().is_ok() {
+                while input.cursor() < ahead.cursor() {
+                    tokens.push(input.parse()?);
+                }
+                begin_expr = false;
+                continue;
+            }
+        }
+
         if input.peek(Lifetime) {
             // Label of a break, or of a block or loop.
             tokens.push(input.parse()?);
-- 
2.43.0


From 4b86f209383a5c3e6f5ffe74753f7d5bcf2321bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 11/27] fix: enum variant whose source type is named Backtrace

---
 impl/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 17ee91a..7dc3cf1 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -273,7 +273,8 @@ fn impl_enum(input: Enum) -> TokenStream {
             let ident = &variant.ident;
             match (variant.backtrace_field(), variant.source_field()) {
                 (Some(backtrace_field), Some(source_field))
-                    if backtrace_field.attrs.backtrace.is_none() =>
+                    if backtrace_field.attrs.backtrace.is_none()
+                        && backtrace_field.member != source_field.member =>
                 {
                     let backtrace = &backtrace_field.member;
                     let source = &source_field.member;
-- 
2.43.0


From 93447927396315424ae61c4ca8d9e5216e51cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 12/27] fix: rejected generic type with a where clause expanded
 to two where clauses

---
 impl/src/fallback.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/impl/src/fallback.rs b/impl/src/fallback.rs
index e9c429b..c9d45cf 100644
--- a/impl/src/fallback.rs
+++ b/impl/src/fallback.rs
@@ -1,12 +1,20 @@
 use crate::expand::call_site_ident;
 use proc_macro2::TokenStream;
 use quote::quote;
-use syn::DeriveInput;
+use syn::{parse_quote, DeriveInput};
 
 pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
     let ty = call_site_ident(&input.ident);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+    let mut error_generics = input.generics.clone();
+    let error_where_clause = error_generics.make_where_clause();
+    // Work around trivial bounds being unstable.
+    // https://github.com/rust-lang/rust/issues/48214
+    error_where_clause
+        .predicates
+        .push(parse_quote!(for<'workaround> #ty #ty_generics: ::core::fmt::Debug));
+
     let error = error.to_compile_error();
 
     quote! {
@@ -14,12 +22,7 @@ pub(crate) fn expand(input: &DeriveInput, error: syn::Error) -> TokenStream {
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #where_clause
-        where
-            // Work around trivial bounds being unstable.
-            // https://github.com/rust-lang/rust/issues/48214
-            for<'workaround> #ty #ty_generics: ::core::fmt::Debug,
-        {}
+        impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {}
 
         #[allow(unused_qualifications)]
         #[automatically_derived]
-- 
2.43.0


From e0ede05aaf27ba9693afec4a2212675e9ffb1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 13/27] fix: U+2028 at the start of a placeholder panicked
 since the previous change

The non-ASCII whitespace began an identifier but was not taken as part of it.
---
 impl/src/fmt.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 58507d2..0b88635 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -65,7 +65,7 @@ impl Display<'_> {
                         Err(_) => return Ok(()),
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'..=char::MAX => {
+                _ if is_ident_char(next) => {
                     if read.starts_with("r#") {
                         continue;
                     }
@@ -292,12 +292,19 @@ fn take_int<'a>(read: &mut &'a str) -> &'a str {
     int
 }
 
+fn is_ident_char(ch: char) -> bool {
+    match ch {
+        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => true,
+        // Whether these form an identifier is up to Syn.
+        _ => !ch.is_ascii() && !ch.is_whitespace(),
+    }
+}
+
 fn take_ident<'a>(read: &mut &'a str) -> &'a str {
     let mut ident_len = 0;
     for ch in read.chars() {
         match ch {
-            'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => ident_len += 1,
-            _ if !ch.is_ascii() && !ch.is_whitespace() => ident_len += ch.len_utf8(),
+            _ if is_ident_char(ch) => ident_len += ch.len_utf8(),
             _ => break,
         }
     }
-- 
2.43.0


From ff0516dae5493edded1ad16b1d07cd6bb475ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 14/27] fix: syn-less expression scanner on `..` followed by an
 operator and on `for <T as A>::C in`

Without syn's full feature, an operator after a full range (`a - .. + b`) and a
qualified path as the pattern of a for loop were not recognized, so that the
argument list was scanned differently than with it.
---
 impl/src/scan_expr.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/impl/src/scan_expr.rs b/impl/src/scan_expr.rs
index 155b5b6..1bad751 100644
--- a/impl/src/scan_expr.rs
+++ b/impl/src/scan_expr.rs
@@ -128,10 +128,21 @@ static DOT: [(Input, Action); 3] = [
 ];
 
 static FOR: [(Input, Action); 2] = [
-    (Punct("<"), SetState(&CLOSURE)),
+    (Punct("<"), SetState(&FOR_BRACKET)),
     (Otherwise, SetState(&PATTERN)),
 ];
 
+static FOR_BRACKET: [(Input, Action); 3] = [
+    (ConsumeLifetime, SetState(&CLOSURE)),
+    (Punct(">"), SetState(&CLOSURE)),
+    (ExpectType, SetState(&FOR_QSELF)),
+];
+
+static FOR_QSELF: [(Input, Action); 2] = [
+    (Keyword("as"), SetState(&[(ExpectType, SetState(&FOR_QSELF))])),
+    (Punct(">"), SetState(&[(Punct("::"), SetState(&PATTERN))])),
+];
+
 static IF_ELSE: [(Input, Action); 2] = [(Keyword("if"), SetState(&INIT)), (ConsumeBrace, DecDepth)];
 static IF_THEN: [(Input, Action); 2] =
     [(Keyword("else"), SetState(&IF_ELSE)), (Otherwise, DecDepth)];
@@ -163,13 +174,14 @@ static PATTERN: [(Input, Action); 15] = [
     (ExpectPath, SetState(&PATTERN)),
 ];
 
-static RANGE: [(Input, Action); 6] = [
+static RANGE: [(Input, Action); 7] = [
     (Punct("..="), SetState(&INIT)),
     (Punct(".."), SetState(&RANGE)),
     (Punct("."), SetState(&DOT)),
     (ConsumeNestedBrace, SetState(&IF_THEN)),
     (Empty, Finish),
-    (Otherwise, SetState(&INIT)),
+    (CanBeginExpr, SetState(&INIT)),
+    (Otherwise, SetState(&POSTFIX)),
 ];
 
 static RAW: [(Input, Action); 3] = [
-- 
2.43.0


From f5057d4186abf7c6c24aa3a3b512780be6cbfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 15/27] fix: no .field shorthand after `continue`

`continue.method()` became `continue method()`.
---
 impl/src/attr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index df7fa64..951f0a6 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -267,6 +267,17 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
             }
         }
 
+        if input.peek(Token![continue]) {
+            // Unlike break, it takes no value.
+            tokens.push(input.parse()?);
+            if input.peek(Lifetime) {
+                tokens.push(input.parse()?);
+                tokens.push(input.parse()?);
+            }
+            begin_expr = false;
+            continue;
+        }
+
         if input.peek(Lifetime) {
             // Label of a break, or of a block or loop.
             tokens.push(input.parse()?);
@@ -277,7 +288,6 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
 
         begin_expr = input.peek(Token![break])
             || input.peek(Token![const])
-            || input.peek(Token![continue])
             || input.peek(Token![if])
             || input.peek(Token![in])
             || input.peek(Token![match])
-- 
2.43.0


From a7e3917ff5e95d8f18015c662802d2ee5e2217f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 16/27] fix: identifier named raw after & in the syn-less
 expression scanner

`&raw::PATH` and `&raw!()` were not recognized as expressions.
---
 impl/src/scan_expr.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/impl/src/scan_expr.rs b/impl/src/scan_expr.rs
index 1bad751..f3a57d2 100644
--- a/impl/src/scan_expr.rs
+++ b/impl/src/scan_expr.rs
@@ -14,6 +14,7 @@ enum Input {
     ConsumeLifetime,
     ConsumeLiteral,
     ConsumeNestedBrace,
+    ConsumeRaw,
     ExpectPath,
     ExpectTurbofish,
     ExpectType,
@@ -184,15 +185,14 @@ static RANGE: [(Input, Action); 7] = [
     (Otherwise, SetState(&POSTFIX)),
 ];
 
-static RAW: [(Input, Action); 3] = [
+static RAW: [(Input, Action); 2] = [
     (Keyword("const"), SetState(&INIT)),
     (Keyword("mut"), SetState(&INIT)),
-    (Otherwise, SetState(&POSTFIX)),
 ];
 
 static REFERENCE: [(Input, Action); 3] = [
     (Keyword("mut"), SetState(&INIT)),
-    (Keyword("raw"), SetState(&RAW)),
+    (ConsumeRaw, SetState(&RAW)),
     (Otherwise, SetState(&INIT)),
 ];
 
@@ -244,6 +244,14 @@ pub(crate) fn scan_expr(input: ParseStream) -> Result<()> {
                 Input::ConsumeIdent => input.parse::<Option<Ident>>()?.is_some(),
                 Input::ConsumeLifetime => input.parse::<Option<Lifetime>>()?.is_some(),
                 Input::ConsumeLiteral => input.parse::<Option<Lit>>()?.is_some(),
+                Input::ConsumeRaw => {
+                    // Otherwise it is an identifier.
+                    (input.peek2(Token![const]) || input.peek2(Token![mut]))
+                        && input.step(|cursor| match cursor.ident() {
+                            Some((ident, rest)) if ident == "raw" => Ok((true, rest)),
+                            _ => Ok((false, *cursor)),
+                        })?
+                }
                 Input::ExpectPath => {
                     input.parse::<ExprPath>()?;
                     true
-- 
2.43.0


From 7afa06a5b162352b82737b090666238abff0f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 17/27] fix: do not warn about the letter case of generated
 variable names

A field named `_x` or `X` that is interpolated in a message is bound to a
variable `__display__x` or `__display_X`, which non_snake_case warns about.
---
 impl/src/expand.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 7dc3cf1..66a36af 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -155,7 +155,7 @@ fn impl_struct(input: Struct) -> TokenStream {
             #[allow(unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
-                #[allow(clippy::used_underscore_binding)]
+                #[allow(non_snake_case, clippy::used_underscore_binding)]
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #body
                 }
@@ -430,7 +430,12 @@ fn impl_enum(input: Enum) -> TokenStream {
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                     #use_as_display
-                    #[allow(unused_variables, deprecated, clippy::used_underscore_binding)]
+                    #[allow(
+                        deprecated,
+                        non_snake_case,
+                        unused_variables,
+                        clippy::used_underscore_binding,
+                    )]
                     match #void_deref self {
                         #(#arms,)*
                     }
-- 
2.43.0


From 29c450973b508dd0d365e02aee797b8a11ea82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 18/27] fix: do not warn about deprecated fields and field
 types in generated impls

source() and provide() of a struct, the Display impl of a transparent struct
and the inferred bounds mention fields and their types outside of the
allow(deprecated) that the corresponding code for enums has.
---
 impl/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 66a36af..7b88983 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -152,7 +152,7 @@ fn impl_struct(input: Struct) -> TokenStream {
         }
         let display_where_clause = display_inferred_bounds.augment_where_clause(input.generics);
         quote! {
-            #[allow(unused_qualifications)]
+            #[allow(deprecated, unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 #[allow(non_snake_case, clippy::used_underscore_binding)]
@@ -199,7 +199,7 @@ fn impl_struct(input: Struct) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
@@ -425,7 +425,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         let arms = arms.collect::<Vec<_>>();
         let display_where_clause = display_inferred_bounds.augment_where_clause(input.generics);
         Some(quote! {
-            #[allow(unused_qualifications)]
+            #[allow(deprecated, unused_qualifications)]
             #[automatically_derived]
             impl #impl_generics ::core::fmt::Display for #ty #ty_generics #display_where_clause {
                 fn fmt(&self, __formatter: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
@@ -484,7 +484,7 @@ fn impl_enum(input: Enum) -> TokenStream {
     let error_where_clause = error_inferred_bounds.augment_where_clause(input.generics);
 
     quote! {
-        #[allow(unused_qualifications)]
+        #[allow(deprecated, unused_qualifications)]
         #[automatically_derived]
         impl #impl_generics ::thiserror::__private::Error for #ty #ty_generics #error_where_clause {
             #source_method
-- 
2.43.0


From b0f89e902b95aceddfc3d16b001cf87bf576985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 19/27] fix: do not trigger clippy::redundant_field_names in
 generated From impls

For a field called `source`, the initializer is `source: source`.
---
 impl/src/expand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 7b88983..27c6a8a 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -186,6 +186,7 @@ fn impl_struct(input: Struct) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
@@ -471,6 +472,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                 unused_qualifications,
                 clippy::elidable_lifetime_names,
                 clippy::needless_lifetimes,
+                clippy::redundant_field_names,
             )]
             #from_impl
         })
-- 
2.43.0


From bb1686d89d3195d6d5ab5891b9000d01e9601b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 20/27] fix: let fmt= name a function that is called like a
 field of the variant

The arm bound every field to a variable of its name, so the call of the
formatting function found the field instead.
---
 impl/src/expand.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 27c6a8a..2bcfcbe 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -397,12 +397,17 @@ fn impl_enum(input: Enum) -> TokenStream {
                     display.to_token_stream()
                 }
             } else if let Some(fmt) = &variant.attrs.fmt {
+                // Not named after the fields, which would shadow a formatting
+                // function that has the same name as one of them.
                 let fmt_path = &fmt.path;
-                let vars = variant.fields.iter().map(|field| match &field.member {
-                    MemberUnraw::Named(ident) => ident.to_local(),
-                    MemberUnraw::Unnamed(index) => format_ident!("_{}", index),
-                });
-                quote!(#fmt_path(#(#vars,)* __formatter))
+                let ident = &variant.ident;
+                let members = variant.fields.iter().map(|field| &field.member);
+                let vars = (0..variant.fields.len())
+                    .map(|i| format_ident!("__field{}", i))
+                    .collect::<Vec<_>>();
+                return quote! {
+                    #ty::#ident { #(#members: #vars),* } => #fmt_path(#(#vars,)* __formatter)
+                };
             } else {
                 let only_field = match &variant.fields[0].member {
                     MemberUnraw::Named(ident) => ident.to_local(),
-- 
2.43.0


From be601a395f32c20e121cc685b0a8dfff26cbc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 21/27] fix: do not enable unstable features under
 RUSTC_BOOTSTRAP=-1

A nightly compiler then refuses them, so that the build of thiserror failed
although the build script had detected support for them.
---
 build.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build.rs b/build.rs
index 5d795e4..6bbf363 100644
--- a/build.rs
+++ b/build.rs
@@ -16,7 +16,12 @@ fn main() {
 
     let error_generic_member_access;
     let consider_rustc_bootstrap;
-    if compile_probe(false) {
+    if env::var_os("RUSTC_BOOTSTRAP").map_or(false, |value| value == "-1") {
+        // RUSTC_BOOTSTRAP=-1 makes even a nightly compiler refuse unstable
+        // features, which includes those that this crate would turn on.
+        error_generic_member_access = false;
+        consider_rustc_bootstrap = true;
+    } else if compile_probe(false) {
         // This is a nightly or dev compiler, so it supports unstable features
         // regardless of RUSTC_BOOTSTRAP. No need to rerun build script if
         // RUSTC_BOOTSTRAP is changed.
-- 
2.43.0


From ccd26be8c651e1061b8188c2472346b304207048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 22/27] fix: find raw field names that come from a macro's
 argument

---
 impl/src/unraw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impl/src/unraw.rs b/impl/src/unraw.rs
index 1d143ba..b36838c 100644
--- a/impl/src/unraw.rs
+++ b/impl/src/unraw.rs
@@ -24,7 +24,7 @@ impl IdentUnraw {
             if let "_" | "super" | "self" | "Self" | "crate" = repr.as_str() {
                 // Some identifiers are never allowed to appear as raw, like r#self and r#_.
             } else {
-                return Ident::new_raw(&repr, Span::call_site());
+                return Ident::new_raw(&repr, unraw.span());
             }
         }
         unraw
-- 
2.43.0


From e5a922f7fa7b53da767880ae3525132230b69a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 23/27] fix: find self when the source field or the word
 transparent comes from a macro's argument

---
 impl/src/expand.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 2bcfcbe..583320c 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -38,8 +38,9 @@ fn impl_struct(input: Struct) -> TokenStream {
             error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
         }
         let member = &only_field.member;
+        let transparent = quote!(self.#member);
         Some(quote_spanned! {transparent_attr.span=>
-            ::thiserror::__private::Error::source(self.#member.as_dyn_error())
+            ::thiserror::__private::Error::source(#transparent.as_dyn_error())
         })
     } else if let Some(source_field) = input.source_field() {
         let source = &source_field.member;
@@ -52,8 +53,9 @@ fn impl_struct(input: Struct) -> TokenStream {
         } else {
             None
         };
+        let varsource = quote!(self.#source);
         let dyn_error = quote_spanned! {source_field.source_span()=>
-            self.#source #asref.as_dyn_error()
+            #varsource #asref.as_dyn_error()
         };
         Some(quote! {
             ::core::option::Option::Some(#dyn_error)
@@ -75,15 +77,16 @@ fn impl_struct(input: Struct) -> TokenStream {
         let backtrace = &backtrace_field.member;
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
+            let varsource = quote!(self.#source);
             let source_provide = if type_is_option(source_field.ty) {
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &self.#source {
+                    if let ::core::option::Option::Some(source) = &#varsource {
                         source.thiserror_provide(#request);
                     }
                 }
             } else {
                 quote_spanned! {source.span()=>
-                    self.#source.thiserror_provide(#request);
+                    #varsource.thiserror_provide(#request);
                 }
             };
             let self_provide = if source == backtrace {
@@ -225,11 +228,12 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
+                let transparent = quote!(transparent);
                 let source = quote_spanned! {transparent_attr.span=>
-                    ::thiserror::__private::Error::source(transparent.as_dyn_error())
+                    ::thiserror::__private::Error::source(#transparent.as_dyn_error())
                 };
                 quote! {
-                    #ty::#ident {#member: transparent} => #source,
+                    #ty::#ident {#member: #transparent} => #source,
                 }
             } else if let Some(source_field) = variant.source_field() {
                 let source = &source_field.member;
-- 
2.43.0


From 2c2521af2d9360e41386985d96271c632cda89a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 24/27] fix: find the field of a .field argument when either
 comes from a macro's argument

---
 impl/src/attr.rs | 39 ++++++++++++++++++++++++++++++++-------
 impl/src/fmt.rs  |  5 ++++-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 951f0a6..25f7f52 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -1,3 +1,5 @@
+use crate::ast::Field;
+use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::BTreeSet as Set;
@@ -167,7 +169,9 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
             input.parse::<Option<Token![,]>>()?;
             TokenStream::new()
         } else {
-            parse_token_expr(input, false)?
+            // Expanded once the fields are known.
+            parse_token_expr(&input.fork(), &[], false)?;
+            input.parse()?
         };
 
         let requires_fmt_machinery = !args.is_empty();
@@ -193,7 +197,21 @@ fn parse_error_attribute<'a>(attrs: &mut Attrs<'a>, attr: &'a Attribute) -> Resu
     })
 }
 
-fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStream> {
+pub fn parse_token_expr(
+    input: ParseStream,
+    fields: &[Field],
+    mut begin_expr: bool,
+) -> Result<TokenStream> {
+    // The local variable of a field has the hygiene of the field's name, which is
+    // not necessarily that of the argument that refers to it.
+    let local_span = |member: MemberUnraw, span: Span| match fields
+        .iter()
+        .find(|field| field.member == member)
+    {
+        Some(field) => span.resolved_at(field.member.span()),
+        None => span,
+    };
+
     let mut tokens = Vec::new();
     while !input.is_empty() {
         if input.peek(token::Group) {
@@ -206,13 +224,19 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         if begin_expr && input.peek(Token![.]) {
             if input.peek2(Ident) {
                 input.parse::<Token![.]>()?;
+                let mut ident: Ident = input.parse()?;
+                let member = MemberUnraw::Named(IdentUnraw::new(ident.clone()));
+                ident.set_span(local_span(member, ident.span()));
+                tokens.push(TokenTree::Ident(ident));
                 begin_expr = false;
                 continue;
             } else if input.peek2(LitInt) {
                 input.parse::<Token![.]>()?;
                 let int: Index = input.parse()?;
                 tokens.push({
-                    let ident = format_ident!("_{}", int.index, span = int.span);
+                    let index = int.index;
+                    let span = local_span(MemberUnraw::Unnamed(int.clone()), int.span);
+                    let ident = format_ident!("_{}", index, span = span);
                     TokenTree::Ident(ident)
                 });
                 begin_expr = false;
@@ -228,7 +252,8 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
                 {
                     input.advance_to(&ahead);
                     tokens.push({
-                        let ident = format_ident!("_{}", first, span = float.span());
+                        let span = local_span(MemberUnraw::Unnamed(first.clone()), float.span());
+                        let ident = format_ident!("_{}", first, span = span);
                         TokenTree::Ident(ident)
                     });
                     tokens.push({
@@ -313,21 +338,21 @@ fn parse_token_expr(input: ParseStream, mut begin_expr: bool) -> Result<TokenStr
         let token: TokenTree = if input.peek(token::Paren) {
             let content;
             let delimiter = parenthesized!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Parenthesis, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Brace) {
             let content;
             let delimiter = braced!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Brace, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
         } else if input.peek(token::Bracket) {
             let content;
             let delimiter = bracketed!(content in input);
-            let nested = parse_token_expr(&content, true)?;
+            let nested = parse_token_expr(&content, fields, true)?;
             let mut group = Group::new(Delimiter::Bracket, nested);
             group.set_span(delimiter.span.join());
             TokenTree::Group(group)
diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index 0b88635..e577d41 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -1,5 +1,5 @@
 use crate::ast::{ContainerKind, Field};
-use crate::attr::{Display, Trait};
+use crate::attr::{parse_token_expr, Display, Trait};
 use crate::scan_expr::scan_expr;
 use crate::unraw::{IdentUnraw, MemberUnraw};
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -13,6 +13,9 @@ use syn::{Expr, Ident, Index, LitStr, Token};
 
 impl Display<'_> {
     pub fn expand_shorthand(&mut self, fields: &[Field], container: ContainerKind) -> Result<()> {
+        let expand_args = |input: ParseStream| parse_token_expr(input, fields, false);
+        self.args = expand_args.parse2(self.args.clone())?;
+
         let raw_args = self.args.clone();
         let FmtArguments {
             named: user_named_args,
-- 
2.43.0


From d09c2424a2c4c05c44b10af3ed3347d58adc4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 25/27] fix: accept a tuple field shorthand followed by a dot
 and a space

`.0. name()` is tokenized with a float literal `0.`, the same way as in
`self.0. name()`, and was not recognized as the field shorthand. It appears
unformatted code and in macros, where `.0.$name` has this tokenization.
---
 impl/src/attr.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/impl/src/attr.rs b/impl/src/attr.rs
index 25f7f52..e5eee6a 100644
--- a/impl/src/attr.rs
+++ b/impl/src/attr.rs
@@ -246,10 +246,15 @@ pub fn parse_token_expr(
                 ahead.parse::<Token![.]>()?;
                 let float: LitFloat = ahead.parse()?;
                 let repr = float.to_string();
-                let mut indices = repr.split('.').map(syn::parse_str::<Index>);
-                if let (Some(Ok(first)), Some(Ok(second)), None) =
-                    (indices.next(), indices.next(), indices.next())
-                {
+                let (first, second) = repr.split_once('.').unwrap_or((&repr, "?"));
+                // `0.1` is two indices, and `0.` is an index and the dot before a
+                // name or method that follows after a space.
+                let second = if second.is_empty() {
+                    Ok(None)
+                } else {
+                    syn::parse_str::<Index>(second).map(Some)
+                };
+                if let (Ok(first), Ok(second)) = (syn::parse_str::<Index>(first), second) {
                     input.advance_to(&ahead);
                     tokens.push({
                         let span = local_span(MemberUnraw::Unnamed(first.clone()), float.span());
@@ -261,11 +266,11 @@ pub fn parse_token_expr(
                         punct.set_span(float.span());
                         TokenTree::Punct(punct)
                     });
-                    tokens.push({
+                    if let Some(second) = second {
                         let mut literal = Literal::u32_unsuffixed(second.index);
                         literal.set_span(float.span());
-                        TokenTree::Literal(literal)
-                    });
+                        tokens.push(TokenTree::Literal(literal));
+                    }
                     begin_expr = false;
                     continue;
                 }
-- 
2.43.0


From 12ca4c1365e7def0d539d888362f618617f3811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 26/27] fix: Give variables of generated code reserved names

A constant, static or unit struct named `source`, `backtrace`, `request`
or `transparent` cannot be shadowed by a binding, so having one in scope
made the generated methods fail to compile.
---
 impl/src/expand.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/impl/src/expand.rs b/impl/src/expand.rs
index 583320c..d4fb6d6 100644
--- a/impl/src/expand.rs
+++ b/impl/src/expand.rs
@@ -73,15 +73,15 @@ fn impl_struct(input: Struct) -> TokenStream {
     });
 
     let provide_method = input.backtrace_field().map(|backtrace_field| {
-        let request = quote!(request);
+        let request = quote!(__request);
         let backtrace = &backtrace_field.member;
         let body = if let Some(source_field) = input.source_field() {
             let source = &source_field.member;
             let varsource = quote!(self.#source);
             let source_provide = if type_is_option(source_field.ty) {
                 quote_spanned! {source.span()=>
-                    if let ::core::option::Option::Some(source) = &#varsource {
-                        source.thiserror_provide(#request);
+                    if let ::core::option::Option::Some(__source) = &#varsource {
+                        __source.thiserror_provide(#request);
                     }
                 }
             } else {
@@ -93,8 +93,8 @@ fn impl_struct(input: Struct) -> TokenStream {
                 None
             } else if type_is_option(backtrace_field.ty) {
                 Some(quote! {
-                    if let ::core::option::Option::Some(backtrace) = &self.#backtrace {
-                        #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                    if let ::core::option::Option::Some(__backtrace) = &self.#backtrace {
+                        #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                     }
                 })
             } else {
@@ -109,8 +109,8 @@ fn impl_struct(input: Struct) -> TokenStream {
             }
         } else if type_is_option(backtrace_field.ty) {
             quote! {
-                if let ::core::option::Option::Some(backtrace) = &self.#backtrace {
-                    #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                if let ::core::option::Option::Some(__backtrace) = &self.#backtrace {
+                    #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                 }
             }
         } else {
@@ -170,7 +170,7 @@ fn impl_struct(input: Struct) -> TokenStream {
         let span = from_field.attrs.from.unwrap().span;
         let backtrace_field = input.distinct_backtrace_field();
         let from = unoptional_type(from_field.ty);
-        let source_var = Ident::new("source", span);
+        let source_var = Ident::new("__source", span);
         let body = from_initializer(from_field, backtrace_field, &source_var);
         let from_function = quote! {
             fn from(#source_var: #from) -> Self {
@@ -228,7 +228,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                     error_inferred_bounds.insert(only_field.ty, quote!(::thiserror::__private::Error));
                 }
                 let member = &only_field.member;
-                let transparent = quote!(transparent);
+                let transparent = quote!(__transparent);
                 let source = quote_spanned! {transparent_attr.span=>
                     ::thiserror::__private::Error::source(#transparent.as_dyn_error())
                 };
@@ -246,7 +246,7 @@ fn impl_enum(input: Enum) -> TokenStream {
                 } else {
                     None
                 };
-                let varsource = quote!(source);
+                let varsource = quote!(__source);
                 let dyn_error = quote_spanned! {source_field.source_span()=>
                     #varsource #asref.as_dyn_error()
                 };
@@ -273,7 +273,7 @@ fn impl_enum(input: Enum) -> TokenStream {
     };
 
     let provide_method = if input.has_backtrace() {
-        let request = quote!(request);
+        let request = quote!(__request);
         let arms = input.variants.iter().map(|variant| {
             let ident = &variant.ident;
             match (variant.backtrace_field(), variant.source_field()) {
@@ -283,11 +283,11 @@ fn impl_enum(input: Enum) -> TokenStream {
                 {
                     let backtrace = &backtrace_field.member;
                     let source = &source_field.member;
-                    let varsource = quote!(source);
+                    let varsource = quote!(__source);
                     let source_provide = if type_is_option(source_field.ty) {
                         quote_spanned! {source.span()=>
-                            if let ::core::option::Option::Some(source) = #varsource {
-                                source.thiserror_provide(#request);
+                            if let ::core::option::Option::Some(__source) = #varsource {
+                                __source.thiserror_provide(#request);
                             }
                         }
                     } else {
@@ -297,18 +297,18 @@ fn impl_enum(input: Enum) -> TokenStream {
                     };
                     let self_provide = if type_is_option(backtrace_field.ty) {
                         quote! {
-                            if let ::core::option::Option::Some(backtrace) = backtrace {
-                                #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                            if let ::core::option::Option::Some(__backtrace) = __backtrace {
+                                #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                             }
                         }
                     } else {
                         quote! {
-                            #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                            #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                         }
                     };
                     quote! {
                         #ty::#ident {
-                            #backtrace: backtrace,
+                            #backtrace: __backtrace,
                             #source: #varsource,
                             ..
                         } => {
@@ -322,11 +322,11 @@ fn impl_enum(input: Enum) -> TokenStream {
                     if backtrace_field.member == source_field.member =>
                 {
                     let backtrace = &backtrace_field.member;
-                    let varsource = quote!(source);
+                    let varsource = quote!(__source);
                     let source_provide = if type_is_option(source_field.ty) {
                         quote_spanned! {backtrace.span()=>
-                            if let ::core::option::Option::Some(source) = #varsource {
-                                source.thiserror_provide(#request);
+                            if let ::core::option::Option::Some(__source) = #varsource {
+                                __source.thiserror_provide(#request);
                             }
                         }
                     } else {
@@ -345,17 +345,17 @@ fn impl_enum(input: Enum) -> TokenStream {
                     let backtrace = &backtrace_field.member;
                     let body = if type_is_option(backtrace_field.ty) {
                         quote! {
-                            if let ::core::option::Option::Some(backtrace) = backtrace {
-                                #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                            if let ::core::option::Option::Some(__backtrace) = __backtrace {
+                                #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                             }
                         }
                     } else {
                         quote! {
-                            #request.provide_ref::<::thiserror::__private::Backtrace>(backtrace);
+                            #request.provide_ref::<::thiserror::__private::Backtrace>(__backtrace);
                         }
                     };
                     quote! {
-                        #ty::#ident {#backtrace: backtrace, ..} => {
+                        #ty::#ident {#backtrace: __backtrace, ..} => {
                             #body
                         }
                     }
@@ -462,7 +462,7 @@ fn impl_enum(input: Enum) -> TokenStream {
         let backtrace_field = variant.distinct_backtrace_field();
         let variant = &variant.ident;
         let from = unoptional_type(from_field.ty);
-        let source_var = Ident::new("source", span);
+        let source_var = Ident::new("__source", span);
         let body = from_initializer(from_field, backtrace_field, &source_var);
         let from_function = quote! {
             fn from(#source_var: #from) -> Self {
-- 
2.43.0


From dcd0e375803bb7897036a6b1d086c9cefa5ec5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 27/27] fix: do not panic on tokens left over inside of an
 expression's brackets

---
 impl/src/fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impl/src/fmt.rs b/impl/src/fmt.rs
index e577d41..d9e9bbe 100644
--- a/impl/src/fmt.rs
+++ b/impl/src/fmt.rs
@@ -184,7 +184,10 @@ struct FmtArguments {
 fn explicit_named_args(input: ParseStream) -> Result<FmtArguments> {
     let ahead = input.fork();
     if let Ok(set) = try_explicit_named_args(&ahead) {
-        input.advance_to(&ahead);
+        // Not advance_to(&ahead), which would make this parser fail if syn left
+        // anything unparsed inside of an expression such as `a[b, c]`. Let rustc
+        // produce the diagnostic.
+        input.parse::<TokenStream>()?;
         return Ok(set);
     }
 
-- 
2.43.0

