From 3e359617aebc45db3904a37cef497f192ef46816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 01/12] fix: expand SVG and MathML elements to the modules
 leptos 0.7 has them in

---
 leptos-mview-core/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..f6b5d78 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -86,8 +86,8 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
     let tag_path = match element.tag() {
         Tag::Component(..) => return None,
         Tag::Html(ident) => quote! { ::leptos::tachys::html::element::#ident() },
-        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::element::#ident() },
-        Tag::Math(ident) => quote! { ::leptos::tachys::math::element::#ident() },
+        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::#ident() },
+        Tag::Math(ident) => quote! { ::leptos::tachys::mathml::#ident() },
         Tag::WebComponent(ident) => {
             let ident = ident.to_lit_str();
             let custom = syn::Ident::new("custom", ident.span());
-- 
2.43.0


From f6d7d5c092242fec129bb7e99b196bc6e21c8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 02/12] fix: `prop:` on components expands to
 `property::prop(key, value)`

---
 leptos-mview-core/src/expand/subroutines.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..1ca3ec3 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,11 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            // avoid making it string coloured
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 05747cab2b04bca7119d8e6022679a907f667611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 03/12] fix: expand slots in source order instead of hash order

---
 leptos-mview-core/src/expand.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f6b5d78..0a7107e 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -337,11 +335,11 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // collect by slot name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion, in order of first appearance.
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             panic!("called `slots_to_tokens` on non-slot element")
@@ -355,10 +353,14 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        if let Some((_, slots)) = slot_children
+            .iter_mut()
+            .find(|(name, _)| *name == slot_name)
+        {
+            slots.push(slot_component);
+        } else {
+            slot_children.push((slot_name, vec![slot_component]));
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From 62a8d63adfb7c01f0adf72872e8c9fd44ae53674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 04/12] fix: reject modifiers on component directives that do
 not support them

---
 leptos-mview-core/src/expand/subroutines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 1ca3ec3..da324a4 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -370,6 +370,10 @@ pub(super) fn component_children_tokens<'a>(
 /// ```
 pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenStream> {
     let dir = &directive.dir;
+    // `on:` supports modifiers, `use:` checks for them itself
+    if matches!(&*dir.to_string(), "class" | "style" | "attr" | "prop") {
+        emit_error_if_modifier(directive.modifier.as_ref());
+    }
     let path = match &*dir.to_string() {
         "class" | "style" => {
             // avoid making it string coloured
-- 
2.43.0


From cd055e5cd65c2a29356e6cd33715287e69a4782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 05/12] fix: report slots inside HTML elements instead of
 dropping them

---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 0a7107e..695e31c 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -111,6 +111,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    for slot in element.children().iter().flat_map(|c| c.slot_children()) {
+        emit_error!(
+            slot.tag().span(),
+            "slots should be inside a parent that supports slots"
+        );
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From e5c9efd4f04e51204159c8bf13a02b84604c2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 06/12] fix: pass slots nested inside a slot to that slot

---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 695e31c..1619970 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -286,6 +286,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From ff6b59229233c85d4851e59a8a522a0c450da98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 07/12] fix: report slots that are not components instead of
 panicking

---
 leptos-mview-core/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 1619970..b1dddf8 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -350,7 +350,8 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(el.tag().span(), "slot name must be in UpperCamelCase");
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From 364ba51aa1bb73adbd2314fc83718ab50e579693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 08/12] fix: do not panic on identifiers that cannot be raw
 (`_`, `self`, `-`, ...)

---
 leptos-mview-core/src/ast/ident.rs | 14 ++++++++++++--
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..86841f8 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -95,14 +95,24 @@ impl KebabIdent {
     /// covers the full ident on nightly. See [`KebabIdent::span`] for more
     /// details.
     ///
-    /// The ident will also be a raw identifier.
+    /// The ident will also be a raw identifier, if it is possible to be raw.
     pub fn to_snake_ident(&self) -> syn::Ident {
         let snake_string = self.repr().replace('-', "_");
         // This will always be valid as the first 'section' must be a `-` or rust ident,
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        new_raw_ident(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier, or a regular one if `ident` is one of the few
+/// identifiers that are not allowed to be raw.
+pub fn new_raw_ident(ident: &str, span: Span) -> syn::Ident {
+    if matches!(ident, "_" | "self" | "Self" | "super" | "crate") {
+        syn::Ident::new(ident, span)
+    } else {
+        syn::Ident::new_raw(ident, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index b1dddf8..6e88b58 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -10,7 +10,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    new_raw_ident, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -376,7 +376,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = new_raw_ident(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 2698a5cb544a5a2eaf39387ecfb1a323a992ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 09/12] fix: report closure arguments on HTML elements instead
 of dropping them

---
 leptos-mview-core/src/expand.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 6e88b58..f312367 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -111,6 +111,12 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are only supported on components"
+        );
+    }
     for slot in element.children().iter().flat_map(|c| c.slot_children()) {
         emit_error!(
             slot.tag().span(),
-- 
2.43.0


From 631d169c75b832fa9401235e8d5ee4023143f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 10/12] fix: accept component paths with a leading `::`

---
 leptos-mview-core/src/ast/children.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..0fffd8b 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,8 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        // can also be a path with a leading `::`
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0


From a94fe26aa7154931b4c78ee6e8d1d8215b1c366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 11/12] fix: keep closure arguments of an empty children block

---
 leptos-mview-core/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f312367..a0d53b2 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -272,8 +272,8 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
         let mut it = children.element_children().peekable();
         // need to check that there are any element children at all,
         // as components that accept slots may not accept children.
-        it.peek()
-            .is_some()
+        // closure arguments mean that children are wanted, even if empty.
+        (it.peek().is_some() || element.children_args().is_some())
             .then(|| component_children_tokens(it, element.children_args(), &clones))
     });
 
-- 
2.43.0


From 115bcc48c21e6db6870a2ea15aecd068aca51426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 12/12] fix: convert the unit value of use: by path, so that
 Into need not be in scope

---
 leptos-mview-core/src/expand/subroutines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index da324a4..0ae2cad 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -40,7 +40,7 @@ pub(super) fn use_directive_fn_value(u: &Directive) -> (syn::Ident, TokenStream)
     emit_error_if_modifier(modifier.as_ref());
 
     let value = value.as_ref().map_or_else(
-        || quote_spanned! {directive_fn.span()=> ().into() },
+        || quote_spanned! {directive_fn.span()=> ::std::convert::Into::into(()) },
         |val| quote! { ::std::convert::Into::into(#val) },
     );
     (directive_fn, value)
-- 
2.43.0

