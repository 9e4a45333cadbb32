From eb13f98152c8f7922ca0f1d214b7f7ad688836f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 1/4] fix: Refer to Ok by path in derived Deserialize

The derive did not compile where Ok means something else (use anyhow::Ok)
or nothing at all (#[no_implicit_prelude]).
---
 derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/de.rs b/derive/src/de.rs
index 8f0768b..6798e8c 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -72,7 +72,7 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
 
             impl #impl_generics miniserde::de::Visitor for __Visitor #ty_generics #bounded_where_clause {
                 fn map(&mut self) -> miniserde::Result<miniserde::__private::Box<dyn miniserde::de::Map + '_>> {
-                    Ok(miniserde::__private::Box::new(__State {
+                    miniserde::__private::Ok(miniserde::__private::Box::new(__State {
                         #(
                             #fieldname: miniserde::Deserialize::default(),
                         )*
-- 
2.43.0


From 9ebeae4caee128a512edd70d2f9e952e2de10e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 2/4] fix: Let Serialize be derived for an enum without
 variants

A reference to an empty type is not considered empty, so an empty match on
it does not compile.
---
 derive/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/ser.rs b/derive/src/ser.rs
index e2de0f8..dbbf0b5 100644
--- a/derive/src/ser.rs
+++ b/derive/src/ser.rs
@@ -118,7 +118,7 @@ fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenStrea
         const _: () = {
             impl miniserde::Serialize for #ident {
                 fn begin(&self) -> miniserde::ser::Fragment {
-                    match self {
+                    match *self {
                         #(
                             #ident::#var_idents => {
                                 miniserde::ser::Fragment::Str(miniserde::__private::Cow::Borrowed(#names))
-- 
2.43.0


From a4a3d94e54cebee5454b2b26b648c706f7c6949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 3/4] fix: Do not bind names of the input in derived
 Deserialize

A static or constant of the name of a field, or called s or value, made the
binding a pattern and the derive did not compile.
---
 derive/src/de.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/derive/src/de.rs b/derive/src/de.rs
index 6798e8c..401d8c2 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -99,12 +99,9 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
                 }
 
                 fn finish(&mut self) -> miniserde::Result<()> {
-                    #(
-                        let #fieldname = self.#fieldname.take().ok_or(miniserde::Error)?;
-                    )*
                     *self.__out = miniserde::__private::Some(#ident {
                         #(
-                            #fieldname,
+                            #fieldname: self.#fieldname.take().ok_or(miniserde::Error)?,
                         )*
                     });
                     miniserde::__private::Ok(())
@@ -162,12 +159,12 @@ pub fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenS
             }
 
             impl miniserde::de::Visitor for __Visitor {
-                fn string(&mut self, s: &miniserde::__private::str) -> miniserde::Result<()> {
-                    let value = match s {
+                fn string(&mut self, __s: &miniserde::__private::str) -> miniserde::Result<()> {
+                    let __value = match __s {
                         #( #names => #ident::#var_idents, )*
                         _ => return miniserde::__private::Err(miniserde::Error),
                     };
-                    self.__out = miniserde::__private::Some(value);
+                    self.__out = miniserde::__private::Some(__value);
                     miniserde::__private::Ok(())
                 }
             }
-- 
2.43.0


From 67edcf7bcfb444255a66903d6038791a6bcd022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 4/4] fix: Support Self in derived structs

A field type or where-clause that mentions Self was repeated as it stands on
the helper types of the derive, where Self is a different type.
---
 derive/src/lib.rs      |  5 +++--
 derive/src/receiver.rs | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)
 create mode 100644 derive/src/receiver.rs

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 70c0f75..2418e06 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -10,6 +10,7 @@ mod attr;
 mod bound;
 mod de;
 mod fallback;
+mod receiver;
 mod ser;
 
 use proc_macro::TokenStream;
@@ -18,11 +19,11 @@ use syn::{parse_macro_input, DeriveInput};
 #[proc_macro_derive(Serialize, attributes(serde))]
 pub fn derive_serialize(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    ser::derive(&input).into()
+    ser::derive(&receiver::replace_self(input)).into()
 }
 
 #[proc_macro_derive(Deserialize, attributes(serde))]
 pub fn derive_deserialize(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    de::derive(&input).into()
+    de::derive(&receiver::replace_self(input)).into()
 }
diff --git a/derive/src/receiver.rs b/derive/src/receiver.rs
new file mode 100644
index 0000000..ebebfb8
--- /dev/null
+++ b/derive/src/receiver.rs
@@ -0,0 +1,39 @@
+use proc_macro2::{Group, Spacing, TokenStream, TokenTree};
+use quote::{quote, ToTokens};
+use syn::DeriveInput;
+
+/// Spell out `Self`. The field types and where-clause of the input are repeated
+/// on helper types, where `Self` would refer to those.
+pub fn replace_self(input: DeriveInput) -> DeriveInput {
+    let ident = &input.ident;
+    let (_, ty_generics, _) = input.generics.split_for_impl();
+    let self_ty = quote!(#ident #ty_generics);
+    let tokens = replace(input.to_token_stream(), &self_ty);
+    syn::parse2(tokens).unwrap_or(input)
+}
+
+fn replace(tokens: TokenStream, self_ty: &TokenStream) -> TokenStream {
+    let mut output = TokenStream::new();
+    let mut tokens = tokens.into_iter().peekable();
+    while let Some(token) = tokens.next() {
+        match token {
+            TokenTree::Ident(ident) if ident == "Self" => match tokens.peek() {
+                // Self::Assoc
+                Some(TokenTree::Punct(punct))
+                    if punct.as_char() == ':' && punct.spacing() == Spacing::Joint =>
+                {
+                    output.extend(quote!(<#self_ty>));
+                }
+                _ => output.extend(self_ty.clone()),
+            },
+            TokenTree::Group(group) => {
+                let content = replace(group.stream(), self_ty);
+                let mut replaced = Group::new(group.delimiter(), content);
+                replaced.set_span(group.span());
+                output.extend([TokenTree::Group(replaced)]);
+            }
+            _ => output.extend([token]),
+        }
+    }
+    output
+}
-- 
2.43.0

