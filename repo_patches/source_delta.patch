From e6715ab15755474332e304ed1eee074b2d02da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 01/14] fix: accept `-f=value` for short optional-value
 arguments

The inline value of `Option<Option<T>>` was consumed, but the bundle loop went
on and reported the `=` as an unknown argument.
---
 src/runtime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..c9205e8 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,8 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // An explicit inline value covers the rest of the raw argument, even if the value is optional.
+    let is_break = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -676,7 +678,7 @@ fn visit_named(
 
     match ret {
         Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
+            Ok(if is_break { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
         }
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
-- 
2.43.0


From 9b2146cc25763d3c920951ef8e9cc7caf931e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 02/14] fix: name the positional argument in its value errors

Errors of positional values said `<unknown argument>` instead.
---
 src/runtime.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index c9205e8..3c932df 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -589,10 +589,16 @@ fn visit_positional(
     }
 
     let place = &mut *frame.fields[usize::from(attrs.get_index())];
-    place.parse_from(Some(&arg))?;
+    let info = frame.info;
+    let mut parse_from = |arg: OsString| {
+        place
+            .parse_from(Some(&arg))
+            .map_err(|err| err.with_arg_desc(info.get_description(attrs.get_index())))
+    };
+    parse_from(arg)?;
     if attrs.contains(ArgAttrs::GREEDY) {
         for arg in &mut *p.iter {
-            place.parse_from(Some(&arg))?;
+            parse_from(arg)?;
         }
         // Everything is consumed here. The outer loop should exit as well.
     }
@@ -677,9 +683,7 @@ fn visit_named(
     });
 
     match ret {
-        Ok(()) => {
-            Ok(if is_break { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
-        }
+        Ok(()) => Ok(if is_break { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
             Err(err.with_arg_desc(desc).maybe_render_help(frame))
-- 
2.43.0


From 7dde62eaa0cc451bf0bd631478b37f290c9a4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 03/14] fix: do not panic in derive(Subcommand) on rejected
 variants

Rejected variants are skipped but still had an index in the name map, so the
macro panicked when sorting the names if any other variant exists.
---
 derive/src/derive_subcommand.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..ce7e936 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -63,18 +63,15 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
 
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -120,6 +117,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     // FIXME: Duplication check.
-- 
2.43.0


From a946ecef7884b4e506e55c95310e225943987d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 04/14] fix: reject duplicated subcommand names

It is documented to be a compile error, but it was accepted and only one of the
variants was reachable.
---
 derive/src/derive_subcommand.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index ce7e936..935c6c5 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -120,7 +120,12 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
     let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    if let Some(w) = name_map.windows(2).find(|w| variants[w[0]].arg_str == variants[w[1]].arg_str)
+    {
+        let (lhs, rhs) = (&variants[w[0].min(w[1])], &variants[w[0].max(w[1])]);
+        emit_error!(rhs.ident, "duplicated subcommand name {:?}", rhs.arg_str);
+        emit_error!(lhs.ident, "previously defined here");
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From d0bb8374471e661d5d6005a2db88c089c8735f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 05/14] fix: derive names without the `r#` prefix of raw
 identifiers

`r#type: T` was called `--r-type <R_TYPE>`.
---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 935c6c5..b749595 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -71,7 +72,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0


From e6b78c0bb181c46ed17e7853c0e16b1db4653c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 06/14] fix: let allow_negative_numbers accept fractions and
 exponents

`--num -1.5` was rejected, only negative integers were accepted.
---
 src/runtime.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 3c932df..6af14ae 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -605,6 +605,21 @@ fn visit_positional(
     Ok(())
 }
 
+/// Is this an unsigned decimal number, with optional fraction and exponent?
+/// This aligns with clap on `allow_negative_numbers`.
+fn is_number(raw: &[u8]) -> bool {
+    let (mut seen_dot, mut exp_pos) = (false, None);
+    for (i, b) in raw.iter().enumerate() {
+        match b {
+            b'0'..=b'9' => {}
+            b'.' if !seen_dot && exp_pos.is_none() && i > 0 => seen_dot = true,
+            b'e' | b'E' if exp_pos.is_none() && i > 0 => exp_pos = Some(i),
+            _ => return false,
+        }
+    }
+    exp_pos.is_none_or(|pos| pos + 1 != raw.len())
+}
+
 fn visit_named(
     p: &mut RawParser,
     frame: &mut ArgsFrame,
@@ -650,7 +665,7 @@ fn visit_named(
                     {
                         true
                     } else if attrs.contains(ArgAttrs::ACCEPT_HYPHEN_NUM) {
-                        raw[1..].iter().all(|b| b.is_ascii_digit())
+                        is_number(&raw[1..])
                     } else {
                         false
                     }
-- 
2.43.0


From 0e6723bd233565fe4300b61a51aa6c81a56c2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 07/14] fix: show arg(help, long_help) in the help text

They were accepted but ignored, only doc-comments were shown.
---
 derive/src/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 2235298..b18d843 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -112,7 +112,11 @@ impl ArgOrCommand {
             Self::Command(c)
         } else {
             let mut arg = arg.unwrap_or_default();
-            arg.doc = doc;
+            // Only long help is rendered yet. It falls back to short help, then doc-comments.
+            arg.doc = match arg.long_help.as_ref().or(arg.help.as_ref()) {
+                Some(help) => Doc(help.value()),
+                None => doc,
+            };
             Self::Arg(arg)
         }
     }
-- 
2.43.0


From 4ed2c284d84bdef790685fd1fe27a1668baf3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 08/14] fix: do not use bare field names as local variables in
 generated code

A const, static or unit-like struct with the name of a field made the derive fail to compile, as
did fields named like internal variables; a function with the name of a field was not callable
from default_value_t.
---
 derive/src/common.rs      |  6 ------
 derive/src/derive_args.rs | 41 ++++++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index b18d843..0c5553b 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -510,12 +510,6 @@ impl Parse for FieldIdent {
     }
 }
 
-impl ToTokens for FieldIdent {
-    fn to_tokens(&self, tokens: &mut TokenStream) {
-        self.0.to_tokens(tokens);
-    }
-}
-
 pub struct VerbatimExpr(TokenStream);
 
 impl Parse for VerbatimExpr {
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 6d55303..34d7c26 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
-use quote::{ToTokens, quote, quote_spanned};
+use quote::{ToTokens, format_ident, quote, quote_spanned};
 use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
@@ -149,6 +149,15 @@ struct FieldInfo<'i> {
     hide: bool,
 }
 
+/// The local variable for the state of a field.
+///
+/// It must not be the bare field name, which may collide with our internal variables, or refer to
+/// a `const`, `static` or unit-like `struct` in scope. It would also shadow user items inside
+/// `default_value_t` expressions.
+fn state_ident(ident: &Ident) -> Ident {
+    format_ident!("__arg_{ident}")
+}
+
 impl FieldInfo<'_> {
     fn initializer(&self) -> TokenStream {
         let value_ty = self.value_ty;
@@ -643,7 +652,7 @@ pub fn expand_args_parse<'i>(
 impl ToTokens for ArgsParse<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         // Local variables.
-        let (state_idents, state_initializers, state_extractors) = self
+        let (field_idents, state_initializers, state_extractors) = self
             .direct_fields
             .iter()
             .map(|f| (f.ident, f.initializer(), f.extractor()))
@@ -659,7 +668,8 @@ impl ToTokens for ArgsParse<'_> {
                 (*ident, quote! { __rt::None::<#ty> }, maybe_unwrap)
             }))
             .collect::<(Vec<_>, Vec<_>, Vec<_>)>();
-        let direct_field_idents = self.direct_fields.iter().map(|f| f.ident);
+        let state_idents = field_idents.iter().map(|ident| state_ident(ident)).collect::<Vec<_>>();
+        let direct_field_idents = self.direct_fields.iter().map(|f| state_ident(f.ident));
 
         // Assertions to be forced to evaluate.
         let mut asserts = TokenStream::new();
@@ -692,6 +702,7 @@ impl ToTokens for ArgsParse<'_> {
 
         let subcmd_param = match self.subcommand {
             Some(SubcommandInfo { ident, ty, .. }) => {
+                let ident = state_ident(ident);
                 quote! { __rt::Some(<#ty as __rt::Subcommand>::__erase(&mut #ident)) }
             }
             None => quote! { __rt::None },
@@ -707,6 +718,7 @@ impl ToTokens for ArgsParse<'_> {
         };
         // TODO: Add tests about the order of flattened Args.
         for FlattenFieldInfo { ident, ty } in &self.flatten_fields {
+            let ident = state_ident(ident);
             run_parser = quote! {
                 <#ty as __rt::Args>::__parse(&mut #ident, __frame, &mut |__frame: &mut __rt::ArgsFrame| {
                     #run_parser
@@ -728,7 +740,7 @@ impl ToTokens for ArgsParse<'_> {
             #validate_finish
 
             *__out = __rt::Some(#output_ctor {
-                #(#state_idents : #state_idents #state_extractors,)*
+                #(#field_idents : #state_idents #state_extractors,)*
             });
             __rt::Ok(())
         });
@@ -746,11 +758,11 @@ impl ToTokens for ValidateFinish<'_> {
 
         if def.direct_fields.iter().any(|f| f.exclusive) {
             // Exclusive arguments conflict with all direct arguments and the subcommand (if any).
-            let direct_idents = def.direct_fields.iter().map(|f| f.ident);
-            let subcmd_is_set = def
-                .subcommand
-                .as_ref()
-                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as u8 });
+            let direct_idents = def.direct_fields.iter().map(|f| state_ident(f.ident));
+            let subcmd_is_set = def.subcommand.as_ref().map(|SubcommandInfo { ident, .. }| {
+                let ident = state_ident(ident);
+                quote! { + #ident.is_some() as u8 }
+            });
             tokens.extend(quote! {
                 let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
             });
@@ -758,6 +770,7 @@ impl ToTokens for ValidateFinish<'_> {
 
         // On-set checks.
         for f @ FieldInfo { ident, attrs, .. } in &def.direct_fields {
+            let ident = state_ident(ident);
             let mut checks = TokenStream::new();
             let idx = attrs.get_index();
 
@@ -770,7 +783,7 @@ impl ToTokens for ValidateFinish<'_> {
             }
 
             if let Some(dep_idxs) = &f.dependencies_idx {
-                let dep_idents = &f.dependencies;
+                let dep_idents = f.dependencies.iter().map(|ident| state_ident(&ident.0));
                 checks.extend(quote! {
                     '__dependency: {
                         return __rt::error_dependency(
@@ -784,7 +797,7 @@ impl ToTokens for ValidateFinish<'_> {
             }
 
             if let Some(conf_idxs) = &f.conflicts_idx {
-                let conf_idents = &f.conflicts;
+                let conf_idents = f.conflicts.iter().map(|ident| state_ident(&ident.0));
                 checks.extend(quote! {
                     '__conflict: {
                         return __rt::error_conflict(
@@ -810,6 +823,7 @@ impl ToTokens for ValidateFinish<'_> {
         // This is done after on-set checks. In case of `conflicts_with` together with `default_value`,
         // no error should be reported as long as the user does not set it.
         for f @ FieldInfo { ident, .. } in &def.direct_fields {
+            let ident = state_ident(ident);
             let idx = f.attrs.get_index();
             let checks = if let Some(default_value) = &f.default_value {
                 match default_value {
@@ -837,6 +851,7 @@ impl ToTokens for ValidateFinish<'_> {
         // This also serves as a hint to the optimizer.
         if let Some(SubcommandInfo { ident, .. }) = def.subcommand.as_ref().filter(|s| !s.optional)
         {
+            let ident = state_ident(ident);
             tokens.extend(quote! {
                 if let __rt::None = #ident {
                     return __rt::error_missing_subcmd();
@@ -846,12 +861,12 @@ impl ToTokens for ValidateFinish<'_> {
 
         // 1. Suppress bulk-drop on `__out` which is unnecessary.
         // 2. Assert all flattened arguments are already initialized.
-        let flatten_idents = def.flatten_fields.iter().map(|f| f.ident);
+        let flatten_idents = def.flatten_fields.iter().map(|f| state_ident(f.ident));
         let set_via_default_idents = def
             .direct_fields
             .iter()
             .filter(|f| f.kind == MagicKind::Value && !f.required)
-            .map(|f| f.ident);
+            .map(|f| state_ident(f.ident));
         tokens.extend(quote! {
             if __out.is_some() #(|| #flatten_idents.is_none())* #(|| #set_via_default_idents.0.is_none())* {
                 __rt::unreachable_nounwind();
-- 
2.43.0


From 7d2e741d1078abad0ad6a41d4201dd6debc23752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 09/14] fix: do not shadow user items named Help in generated
 code

---
 derive/src/derive_args.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 34d7c26..ec44a6c 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1016,8 +1016,9 @@ impl ToTokens for HelpDisplay<'_> {
         }
 
         tokens.extend(quote! {{
-            struct Help;
-            impl __rt::fmt::Display for Help {
+            // User types and constants are in scope here. Do not shadow them.
+            struct __Help;
+            impl __rt::fmt::Display for __Help {
                 fn fmt(&self, __f: &mut __rt::fmt::Formatter<'_>) -> __rt::fmt::Result {
                     // There can be a lot of default values. Put this here rather than inlining below.
                     use __rt::InferDisplayDefaultValue as _;
@@ -1032,7 +1033,7 @@ impl ToTokens for HelpDisplay<'_> {
                     }
                 }
             }
-            &Help
+            &__Help
         }});
     }
 }
-- 
2.43.0


From 9147e43422e29dd08682a06082a63e801c873ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 10/14] fix: do not depend on env! and u8 of the user's scope
 in generated code

---
 derive/src/derive_args.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index ec44a6c..8cc36d5 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -761,10 +761,10 @@ impl ToTokens for ValidateFinish<'_> {
             let direct_idents = def.direct_fields.iter().map(|f| state_ident(f.ident));
             let subcmd_is_set = def.subcommand.as_ref().map(|SubcommandInfo { ident, .. }| {
                 let ident = state_ident(ident);
-                quote! { + #ident.is_some() as u8 }
+                quote! { + #ident.is_some() as __rt::u8 }
             });
             tokens.extend(quote! {
-                let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
+                let __total_args = #((#direct_idents.0.is_some() as __rt::u8))+* #subcmd_is_set;
             });
         }
 
@@ -1000,7 +1000,7 @@ impl ToTokens for HelpDisplay<'_> {
         if let Some(meta) = self.cmd_meta {
             let long_about: &dyn ToTokens = match &meta.long_about {
                 Some(Override::Explicit(e)) => e,
-                Some(Override::Inherit) => &quote! { env!("CARGO_PKG_DESCRIPTION") },
+                Some(Override::Inherit) => &quote! { __rt::env!("CARGO_PKG_DESCRIPTION") },
                 None => &meta.doc,
             };
             push_arm(4, &quote! { __rt::format_args!("{}", #long_about) });
-- 
2.43.0


From 8482a00430fe31b043de41cc18d2302ef425232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 11/14] fix: strip r# from local variable names in generated
 code, and keep lints off them

---
 derive/src/derive_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 8cc36d5..f316074 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -155,7 +155,7 @@ struct FieldInfo<'i> {
 /// a `const`, `static` or unit-like `struct` in scope. It would also shadow user items inside
 /// `default_value_t` expressions.
 fn state_ident(ident: &Ident) -> Ident {
-    format_ident!("__arg_{ident}")
+    format_ident!("__arg_{}", ident.unraw(), span = Span::mixed_site())
 }
 
 impl FieldInfo<'_> {
-- 
2.43.0


From abd820d629d11d65e24443d6c008b3bed7a6233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 12/14] fix: keep Self in user expressions the type they are
 written on

---
 derive/src/derive_args.rs       | 36 ++++++++++++++++-----------------
 derive/src/derive_subcommand.rs | 12 ++++++-----
 src/lib.rs                      |  2 +-
 src/refl.rs                     |  9 +++++++++
 src/runtime.rs                  |  1 +
 5 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index f316074..9b9879c 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1015,26 +1015,24 @@ impl ToTokens for HelpDisplay<'_> {
             return;
         }
 
-        tokens.extend(quote! {{
-            // User types and constants are in scope here. Do not shadow them.
-            struct __Help;
-            impl __rt::fmt::Display for __Help {
-                fn fmt(&self, __f: &mut __rt::fmt::Formatter<'_>) -> __rt::fmt::Result {
-                    // There can be a lot of default values. Put this here rather than inlining below.
-                    use __rt::InferDisplayDefaultValue as _;
-
-                    // NB: Do not extract `write_fmt` call outside the match!
-                    // There are several bugs that we may run into even after 1.89.
-                    // Rustc bug: <https://github.com/rust-lang/rust/issues/145422>
-                    // Clippy bug: <https://github.com/rust-lang/rust-clippy/issues/16736>
-                    match __f.precision().unwrap_or(0) {
-                        #arms
-                        _ => __rt::Ok(())
-                    }
+        // User types and constants are in scope here. Do not shadow them.
+        // NB: This must be a closure, since user expressions can mention `Self`, which would be
+        // another type in an `impl Display` block.
+        tokens.extend(quote! {
+            &__rt::HelpFn(|__f: &mut __rt::fmt::Formatter<'_>| -> __rt::fmt::Result {
+                // There can be a lot of default values. Put this here rather than inlining below.
+                use __rt::InferDisplayDefaultValue as _;
+
+                // NB: Do not extract `write_fmt` call outside the match!
+                // There are several bugs that we may run into even after 1.89.
+                // Rustc bug: <https://github.com/rust-lang/rust/issues/145422>
+                // Clippy bug: <https://github.com/rust-lang/rust-clippy/issues/16736>
+                match __f.precision().unwrap_or(0) {
+                    #arms
+                    _ => __rt::Ok(())
                 }
-            }
-            &__Help
-        }});
+            })
+        });
     }
 }
 
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index b749595..6b3258a 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -147,7 +147,7 @@ impl ToTokens for SubcommandImpl<'_> {
             variants.iter().enumerate().map(|(idx, Variant { ident, kind, .. })| match &kind {
                 VariantKind::Unit => {
                     quote! {
-                        <dyn __rt::RunParser>::run_unit(__parser, __frame, __VARIANT_INFOS[#idx])?;
+                        <dyn __rt::RunParser>::run_unit(__parser, __frame, <Self as __rt::Subcommand>::__VARIANT_INFOS[#idx])?;
                         *__out = __rt::Some(Self::#ident);
                         __rt::Ok(())
                     }
@@ -160,21 +160,23 @@ impl ToTokens for SubcommandImpl<'_> {
                 },
                 VariantKind::Struct { body } => {
                     quote! {
-                        let __info = __VARIANT_INFOS[#idx];
+                        let __info = <Self as __rt::Subcommand>::__VARIANT_INFOS[#idx];
                         #body
                     }
                 }
             });
 
         tokens.extend(quote! {
-            const __VARIANT_INFOS: &[&__rt::RawArgsInfo] = &[#(#variant_infos),*];
-
             #[automatically_derived]
             impl __rt::Subcommand for #enum_name {
+                // User expressions in it can mention `Self`.
+                const __VARIANT_INFOS: &'static [&'static __rt::RawArgsInfo] =
+                    &[#(#variant_infos),*];
+
                 const __INFO: __rt::RawSubcommandInfo = __rt::RawSubcommandInfo::new(
                     #subcmds,
                     &[#((#map_from, #map_to)),*],
-                    __VARIANT_INFOS,
+                    <Self as __rt::Subcommand>::__VARIANT_INFOS,
                 );
 
                 // If there is no variant.
diff --git a/src/lib.rs b/src/lib.rs
index 557b8a6..3b1f153 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,7 +56,7 @@ pub mod __private {
         assert_auto_infer_value_parser_ok, assert_impl_display_default_value,
     };
 
-    pub use crate::refl::{RawArgsInfo, RawSubcommandInfo};
+    pub use crate::refl::{HelpFn, RawArgsInfo, RawSubcommandInfo};
     pub use crate::shared::ArgAttrs;
     pub use crate::{Parser, Result};
 }
diff --git a/src/refl.rs b/src/refl.rs
index 1ac5bc3..5c79ec6 100644
--- a/src/refl.rs
+++ b/src/refl.rs
@@ -100,6 +100,15 @@ pub struct RawArgsInfo {
     pub(crate) help: &'static dyn fmt::Display,
 }
 
+/// Formatter of help strings, see `RawArgsInfo::help`. Used by proc-macro.
+pub struct HelpFn(pub fn(&mut fmt::Formatter<'_>) -> fmt::Result);
+
+impl fmt::Display for HelpFn {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        (self.0)(f)
+    }
+}
+
 impl RawArgsInfo {
     // Used by proc-macro.
     pub const EMPTY_REF: &'static Self = &Self::new("", &[], &[], None, false, false, &"", &[]);
diff --git a/src/runtime.rs b/src/runtime.rs
index 6af14ae..e6610a6 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -128,6 +128,7 @@ pub trait Args: Sized + 'static {
 )]
 #[doc(hidden)]
 pub trait Subcommand: Sized + 'static {
+    const __VARIANT_INFOS: &'static [&'static RawArgsInfo] = &[];
     const __INFO: RawSubcommandInfo;
 
     // This function must not unwind.
-- 
2.43.0


From e96900519dae134dfd2b094bc9c10fcfe46a738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 13/14] fix: let integer and float literals of defaults take
 the type of the field

---
 derive/src/derive_args.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 9b9879c..d4ab761 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1085,10 +1085,17 @@ impl FormatArgsBuilder {
                     // `format_args` optimization.
                     // The default type checking will still happen inside
                     // `finish`, so skipping this check does not matter.
-                    if let Ok(
-                        Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Float(_) | Lit::Int(_),
-                    ) = syn::parse2::<Lit>(e.clone())
-                    {
+                    // NB: Without the wrapper, unsuffixed numbers are inferred as `i32` or `f64`
+                    // rather than the value type.
+                    let is_plain = match syn::parse2::<Lit>(e.clone()) {
+                        Ok(Lit::Bool(_) | Lit::Byte(_) | Lit::Char(_)) => true,
+                        Ok(Lit::Int(n)) => {
+                            !n.suffix().is_empty() || n.base10_parse::<i32>().is_ok()
+                        }
+                        Ok(Lit::Float(n)) => !n.suffix().is_empty(),
+                        _ => false,
+                    };
+                    if is_plain {
                         e
                     } else {
                         &quote_spanned! {e.span()=>
-- 
2.43.0


From 2352428e9eaeb3edca7ae5e543ad24c3e158c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 14/14] fix: accept references to raw identifier fields without
 r# in constraints

---
 derive/src/common.rs      | 6 ++++--
 derive/src/derive_args.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 0c5553b..401c0f9 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -2,6 +2,7 @@ use std::ops;
 
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::meta::ParseNestedMeta;
 use syn::parse::{Parse, ParseStream};
 use syn::spanned::Spanned;
@@ -501,12 +502,13 @@ impl<T: Parse> Parse for Override<T> {
     }
 }
 
-/// `"IDENT"`
+/// `"IDENT"`, without `r#` (which is not a part of the name, but also accepted).
 pub struct FieldIdent(pub Ident);
 
 impl Parse for FieldIdent {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        Ok(Self(input.parse::<LitStr>()?.parse::<Ident>()?))
+        // The field can be a raw identifier, whose name is a keyword.
+        Ok(Self(input.parse::<LitStr>()?.parse_with(Ident::parse_any)?.unraw()))
     }
 }
 
diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index d4ab761..7584536 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -605,7 +605,7 @@ pub fn expand_args_parse<'i>(
     // Resolve field references for constraints.
     let ident_idx_map = direct_fields
         .iter()
-        .map(|f| (f.ident.to_string(), f.attrs.get_index()))
+        .map(|f| (f.ident.unraw().to_string(), f.attrs.get_index()))
         .collect::<HashMap<String, u8>>();
     let resolve_field_refs = |idents: &[FieldIdent]| -> Option<Vec<u8>> {
         if idents.is_empty() {
-- 
2.43.0

