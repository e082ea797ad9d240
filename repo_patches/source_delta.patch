From 9ffacc7e7a2270cf6add88772e846e7b8af9b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 01/23] fix: do not panic when the client of a method call is
 gone

---
 derive/src/rpc/impl_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..410935f 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -168,9 +168,11 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From eb23c5c29ee24297a82e4146aa735862756b9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 02/23] fix: accept an empty argument list for methods without
 arguments

---
 derive/src/rpc/impl_rpc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 410935f..6c1face 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,11 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    if item.arg_types.is_empty() {
+        // clients send an empty array, which serde does not accept for `()`
+        return quote!(#ident { args: [(); 0] });
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From 8e8dfa95c6f1e57ab31180784f285f2364de7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 03/23] fix: stop the stream whose request id is used again

---
 derive/src/rpc/backend_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..61c6fa4 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,9 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    if let Some(replaced) = subscribers.insert(id, jh) {
+                                        replaced.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From e7d665f09741a037b9aa595796759016d5484694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 04/23] fix: export raw identifiers under the name serde gives
 them

---
 derive/src/impl_namespace.rs | 4 ++--
 derive/src/rpc/args.rs       | 4 ++--
 derive/src/rpc/impl_rpc.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..5cc3d7d 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,13 @@
 use crate::{args, format_ident_for_registration, get_zod};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..d74c31a 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -121,7 +121,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 6c1face..f6f483a 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From cb9eab57eaa534162480a1a5ab8a1cbc4dca1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 05/23] fix: dispatch requests on the name of the namespace

---
 derive/src/rpc/backend_impl.rs | 65 ++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 61c6fa4..dae52af 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -1,6 +1,6 @@
 use darling::ast::Fields;
 use proc_macro2::TokenStream;
-use syn::{parse_quote, spanned::Spanned, Ident, Path};
+use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
 use crate::{get_private, get_zod};
@@ -80,19 +80,63 @@ fn expand_backend_impl(
 }
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
+    let zod = get_zod();
     let __private = get_private();
-    let req_variants = fields.iter().map(|f| {
+    let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
-    quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+    let decode_variants = fields.iter().enumerate().map(|(index, f)| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident(index);
+        quote_spanned! {ty.span() =>
+            if namespace == <#ty as #zod::Namespace>::NAME {
+                return #__private::serde_json::from_value(value)
+                    .map(Self::#variant_ident)
+                    .map_err(#__private::serde::de::Error::custom);
+            }
+        }
+    });
+
+    quote! {
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        // The namespaces are only known by their `NAME` constants, so they cannot be the variant
+        // names of a derived implementation.
+        impl<'de> #__private::serde::Deserialize<'de> for #ident {
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            where
+                D: #__private::serde::Deserializer<'de>,
+            {
+                let mut value =
+                    <#__private::serde_json::Value as #__private::serde::Deserialize>::deserialize(deserializer)?;
+
+                let namespace = match value.as_object_mut().and_then(|map| map.remove("namespace")) {
+                    ::std::option::Option::Some(#__private::serde_json::Value::String(namespace)) => namespace,
+                    ::std::option::Option::Some(_) => {
+                        return ::std::result::Result::Err(#__private::serde::de::Error::custom(
+                            "invalid type: expected the name of a namespace",
+                        ))
+                    }
+                    ::std::option::Option::None => {
+                        return ::std::result::Result::Err(
+                            #__private::serde::de::Error::missing_field("namespace"),
+                        )
+                    }
+                };
+
+                #(#decode_variants)*
+
+                ::std::result::Result::Err(#__private::serde::de::Error::custom(
+                    ::std::format_args!("unknown namespace `{}`", namespace),
+                ))
+            }
+        }
     }
 }
 
@@ -105,7 +149,7 @@ pub fn expand_req_enum_impl(
 
     let req_call_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         let field_or_index = f.ident.clone().map(|ident| quote!(#ident)).unwrap_or_else(|| {
             let index = syn::Index::from(index);
             quote!(#index)
@@ -131,7 +175,8 @@ pub fn expand_req_enum_impl(
     }
 }
 
-fn variant_ident_from_ty(ty: &syn::Type) -> Ident {
-    let p: Path = parse_quote!(#ty);
-    p.segments.last().expect("one segment").ident.clone()
+/// The position is the only thing that tells the namespaces of a backend apart at expansion: their
+/// types may have the same last path segment.
+fn variant_ident(index: usize) -> Ident {
+    format_ident!("Namespace{}", index)
 }
-- 
2.43.0


From e611a32f335d3d69a74b8a6a407ccddfd5b79e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 06/23] fix: keep the streams of each proxy connection apart

---
 src/rpc/servers/proxy.rs | 61 ++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..abecd66 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,13 +1,28 @@
+use std::sync::Arc;
+
 use futures::{
     channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
+    lock::Mutex,
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+/// The streams of one connection. Request ids are only unique within a connection.
+type Subscribers = Arc<Mutex<SubscriberMap>>;
+
+type ProxyMessage = (
+    Result<Request, Response>,
+    UnboundedSender<Response>,
+    Subscribers,
+);
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
 }
 
 impl BackendProxy {
@@ -15,13 +30,15 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        let (tx, mut rx) = unbounded::<ProxyMessage>();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((result, mut res, subscribers)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        let mut subscribers = subscribers.lock().await;
+                        backend.handle_request(req, res, &mut subscribers).await
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -39,32 +56,51 @@ impl BackendProxy {
             tx: self.tx.clone(),
             res_tx,
             res_rx,
+            subscribers: Default::default(),
         }
     }
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            tx,
+            res_tx,
+            res_rx,
+            subscribers,
+        } = self;
+
+        (
+            ProxyTx {
+                tx,
+                res_tx,
+                subscribers: subscribers.clone(),
+            },
+            ProxyRx {
+                res_rx,
+                _subscribers: subscribers,
+            },
+        )
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((req, self.res_tx.clone(), self.subscribers.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
@@ -73,6 +109,9 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+
+        // dropping the last half of a connection stops its streams
+        _subscribers: Subscribers,
     }
 }
 
-- 
2.43.0


From ac5bf8fdbe7d66f7b4b975a3efa29410736c6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 07/23] fix: name the boolean schema as zod does

zod has no z.bool()
---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 0fd4c2a23b6617c74841235be72c550233d20823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 08/23] fix: accept every char

The length of a string is counted in UTF-16 units, of which some chars have two.
---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..bcbcae5 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -144,7 +144,7 @@ impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, "z.string().regex(/^.$/su)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 94fb18f96edc1e597a2af62e40f336b492afc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 09/23] fix: refer to named types inside of containers and
 pointers

Expanding them never ends for recursive types.
---
 core/src/build_ins.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index bcbcae5..df3249a 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,14 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
+
         }
     };
 }
@@ -173,7 +182,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -191,7 +200,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -209,7 +218,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -228,7 +237,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -248,8 +257,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From e5a5bb4d259c67fdeb8720884cfd5604184b7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 10/23] fix: make fields optional that the default of the
 struct fills in

---
 derive/src/impl_struct.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..10fa3d8 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -31,6 +31,10 @@ pub fn expand(
     };
 
     let style = fields.style;
+    let newtype = style == Style::Tuple && fields.len() == 1;
+
+    // serde ignores it where there is nothing that could be missing
+    let container_default = !serde_ast.attrs.default().is_none() && !newtype && !transparent;
 
     let fields = fields
         .iter()
@@ -39,7 +43,7 @@ pub fn expand(
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-            optional: !attrs.default().is_none(),
+            optional: container_default || !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From b0b2ce1e493c2a70973dd0c5b2eba830a4fa9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 11/23] fix: describe transparent structs by the field serde
 uses

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 10fa3d8..f9b5daa 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -39,7 +39,10 @@ pub fn expand(
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
-        .filter(|(_, attrs)| !attrs.skip_deserializing())
+        .filter(|(_, attrs)| match transparent {
+            true => attrs.transparent(),
+            false => !attrs.skip_deserializing(),
+        })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-- 
2.43.0


From 2526ba217bfad9504334497c6083aa97698f4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 12/23] fix: follow serde in how tuples with skipped fields
 look

Only a single declared field makes a newtype, and definitions of which all fields
are skipped crashed the macro.
---
 derive/src/impl_enum/field.rs                 | 12 ++++++++++-
 .../src/impl_enum/variant/struct_variant.rs   |  2 --
 derive/src/impl_enum/variant/tuple_variant.rs | 16 +++++++-------
 derive/src/impl_struct.rs                     | 21 ++++++++++---------
 4 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..00b04f9 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    declared: usize,
 }
 
 impl<'a> VariantFields<'a> {
@@ -41,12 +42,21 @@ impl<'a> VariantFields<'a> {
             })
             .collect();
 
-        Self { inner }
+        Self {
+            inner,
+            declared: variant.fields.len(),
+        }
     }
+
     pub fn len(&self) -> usize {
         self.inner.len()
     }
 
+    /// whether serde treats a tuple variant like a value and not like a sequence
+    pub fn is_newtype(&self) -> bool {
+        self.declared == 1
+    }
+
     pub fn expand_type_defs(&self) -> Vec<TokenStream> {
         self.inner.iter().map(|f| f.expand_type_def()).collect()
     }
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..82037c3 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -16,7 +16,6 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -58,7 +57,6 @@ impl<'a> StructVariant<'a> {
         let name = self.attrs.name().deserialize_name();
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..f47fd55 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -16,9 +16,9 @@ pub struct TupleVariant<'a> {
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
-                // may occur if fields are skipped. In this case we handle it like a unit variant
+        let inner = match (self.fields.is_newtype(), self.fields.len()) {
+            (true, 0) => {
+                // may occur if the field is skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -26,7 +26,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            (true, _) => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -65,9 +65,9 @@ impl<'a> TupleVariant<'a> {
         let tag_type = self.tag;
         let name = &self.name;
 
-        let inner = match expanded_fields.len() {
-            // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+        let inner = match (self.fields.is_newtype(), expanded_fields.len()) {
+            // may occur if the field is skipped. In this case we handle it like a unit variant
+            (true, 0) => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -75,7 +75,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            (true, _) => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index f9b5daa..5f68c7f 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -41,7 +41,8 @@ pub fn expand(
         .zip(fields_ast.iter().map(|f| &f.attrs))
         .filter(|(_, attrs)| match transparent {
             true => attrs.transparent(),
-            false => !attrs.skip_deserializing(),
+            // serde reads the only field of a newtype even if it is to be skipped
+            false => newtype || !attrs.skip_deserializing(),
         })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
@@ -66,6 +67,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -80,6 +82,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -130,7 +133,7 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
+            let interface_or_type = match (self.newtype, self.style, self.transparent) {
                 (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
                 _ => quote!(Interface),
             };
@@ -182,15 +185,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_type_defs(),
-                _ => {
+                false => {
                     let fields = fields.into_iter().map(|f| f.expand_type_defs());
 
                     quote! {
@@ -225,15 +227,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_schema(),
-                _ => {
+                false => {
                     // make sure all fields followed an optional field are also optional
                     if let Some(f) = fields
                         .iter()
-- 
2.43.0


From 98469deb52065d31a047df181ccab7c73660df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 13/23] fix: export only object types as interfaces

---
 derive/src/impl_struct.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 5f68c7f..f31bad7 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -133,9 +133,14 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.newtype, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            // only the text of an object type can follow `export interface <name>`
+            let is_object = self.style == Style::Struct
+                && !self.transparent
+                && !self.fields.iter().any(|f| f.flatten);
+
+            let interface_or_type = match is_object {
+                true => quote!(Interface),
+                false => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From ab4a05a9c2dc74045e9eee437fcd16543ba97df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 14/23] fix: quote and escape names that are not identifiers

Names from serde attributes may hold any characters.
---
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  5 +--
 .../src/impl_enum/variant/struct_variant.rs   | 15 +++++---
 derive/src/impl_enum/variant/tuple_variant.rs |  9 +++--
 derive/src/impl_enum/variant/unit_variant.rs  | 21 +++++++-----
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/lib.rs                             |  1 +
 derive/src/ts.rs                              | 34 +++++++++++++++++++
 8 files changed, 75 insertions(+), 20 deletions(-)
 create mode 100644 derive/src/ts.rs

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 00b04f9..1f310c3 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, ts};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -31,7 +31,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: ts::key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..9e1fd8c 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, ts};
 use variant::Variant;
 
 use super::args;
@@ -161,9 +161,10 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = ts::string(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
-                            format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
+                            format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
                     TagType::None => {
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 82037c3..d34644c 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::ts;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -37,13 +38,16 @@ impl<'a> StructVariant<'a> {
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
+                let name = ts::key(&name);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
+                let (tag, name) = (ts::key(tag), ts::string(&name));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
+                let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(&name));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
@@ -75,16 +79,19 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
+                let name = ts::key(&name);
                 quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                let (tag, name) = (ts::key(tag), ts::string(&name));
+                quote_spanned! {span =>  format!("{{ {}: {}, {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(&name));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index f47fd55..35fe851 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::ts;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -48,10 +49,12 @@ impl<'a> TupleVariant<'a> {
 
         match self.tag {
             TagType::External | TagType::Internal { .. } => {
+                let name = ts::key(name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
+                let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(name));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  String::from(#inner) }
@@ -92,10 +95,12 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External | TagType::Internal { .. } => {
+                let name = ts::key(name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
+                let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(name));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  #inner }
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..79708b1 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::ts;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,16 +13,18 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::string(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
+                quote_spanned!(self.span => format!("z.literal({})", #name))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = ts::key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = ts::key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #name))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("z.null()"))
@@ -31,16 +34,18 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::string(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("\"{}\"", #name))
+                quote_spanned!(self.span => String::from(#name))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = ts::key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = ts::key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #name))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("null"))
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index f31bad7..de5c24e 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, ts};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -46,7 +46,9 @@ pub fn expand(
         })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| ts::key(&attrs.name().deserialize_name())),
             optional: container_default || !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..e78555a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod ts;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
new file mode 100644
index 0000000..a971cf3
--- /dev/null
+++ b/derive/src/ts.rs
@@ -0,0 +1,34 @@
+/// `name` as the key of a property
+pub fn key(name: &str) -> String {
+    let mut chars = name.chars();
+
+    let is_identifier = chars
+        .next()
+        .map_or(false, |c| c.is_ascii_alphabetic() || c == '_' || c == '$')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
+
+    if is_identifier {
+        name.to_string()
+    } else {
+        string(name)
+    }
+}
+
+/// `value` as a string literal
+pub fn string(value: &str) -> String {
+    let mut out = String::from("\"");
+    for c in value.chars() {
+        match c {
+            '"' => out += "\\\"",
+            '\\' => out += "\\\\",
+            '\n' => out += "\\n",
+            '\r' => out += "\\r",
+            '\t' => out += "\\t",
+            c if c.is_control() || matches!(c, '\u{2028}' | '\u{2029}') => {
+                out += &format!("\\u{:04x}", c as u32)
+            }
+            c => out.push(c),
+        }
+    }
+    out + "\""
+}
-- 
2.43.0


From 5c7b0728e91e97114032b9dda43757a737b93972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 15/23] fix: keep doc comments from ending the generated
 comment

---
 derive/src/docs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..e904ad5 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -41,7 +41,9 @@ impl ToTokens for RustDocs {
             Some(ref docs) => {
                 let docs = format!(
                     "/**\n{}*/\n",
-                    docs.lines()
+                    // must not end the comment
+                    docs.replace("*/", "*\\/")
+                        .lines()
                         .map(|line| format!("* {}\n", line))
                         .collect::<String>()
                 );
-- 
2.43.0


From 87d9b3756fe751b9a1ac79a00293bc3d3b5657cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 16/23] fix: leave attributes alone that are no docs

---
 derive/src/docs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index e904ad5..c61ffd6 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -10,9 +10,10 @@ pub struct RustDocs {
 impl RustDocs {
     pub fn from_attrs(attrs: &[syn::Attribute]) -> Result<Self, syn::Error> {
         let mut full_docs = String::new();
-        for attr in attrs {
+        // the attributes of others need not be a `Meta`
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("doc")) {
             match attr.parse_meta()? {
-                Meta::NameValue(nv) if nv.path.is_ident("doc") => {
+                Meta::NameValue(nv) => {
                     if let Lit::Str(doc) = nv.lit {
                         let doc = doc.value();
                         let doc_str = doc.trim();
-- 
2.43.0


From 8ed235e9ae6cfe24d173b256057d3d29b0794f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 17/23] fix: report the errors of serde attributes instead of
 panicking

---
 derive/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index e78555a..3781a59 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -70,10 +70,16 @@ pub fn zod(input: TokenStream) -> TokenStream {
     let cx = serde_derive_internals::Ctxt::new();
 
     let container =
-        serde_derive_internals::ast::Container::from_ast(&cx, &parsed, Derive::Deserialize)
-            .unwrap();
+        serde_derive_internals::ast::Container::from_ast(&cx, &parsed, Derive::Deserialize);
 
-    cx.check().unwrap();
+    if let Err(errors) = cx.check() {
+        return errors
+            .into_iter()
+            .map(|err| TokenStream::from(err.into_compile_error()))
+            .collect();
+    }
+
+    let container = container.expect("serde reports an error if there is no container");
 
     let docs = match RustDocs::from_attrs(&parsed.attrs) {
         Ok(docs) => docs,
-- 
2.43.0


From 9dfbda0e6fbae6ef0577f6a709eccae19b5692d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 18/23] fix: describe newtype variants of internally tagged
 enums

The content is merged with the tag, there is no key with the name of the variant.
---
 derive/src/impl_enum/mod.rs                   |  7 +++++++
 derive/src/impl_enum/variant/mod.rs           |  8 ++++++++
 derive/src/impl_enum/variant/tuple_variant.rs | 12 ++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 9e1fd8c..70455d4 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -154,6 +154,13 @@ impl<'a> Enum<'a> {
                 let expanded_variant_schemas = self.variants.iter().map(|v| v.expand_schema());
 
                 match self.tag {
+                    // zod can only discriminate between objects
+                    TagType::Internal { .. } if self.variants.iter().any(Variant::is_newtype) => {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::External => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..89b5fd9 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -48,6 +48,14 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// whether the variant looks like the value of its only field
+    pub fn is_newtype(&self) -> bool {
+        match self {
+            Variant::Tuple(tuple) => tuple.fields.is_newtype() && tuple.fields.len() == 1,
+            Variant::Unit(_) | Variant::Struct(_) => false,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 35fe851..94c7305 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -48,10 +48,14 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 let name = ts::key(name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::string(name));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}) }}).and({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(name));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #name, #content, #inner) }
@@ -94,10 +98,14 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 let name = ts::key(name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::string(name));
+                quote_spanned! {span =>  format!("{{ {}: {} }} & ({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, content, name) = (ts::key(tag), ts::key(content), ts::string(name));
                 quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #name, #content, #inner) }
-- 
2.43.0


From 3cc26a2b8b7b0cd12b01c461daa0155374911c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 19/23] fix: refer to types with a conversion by their name

A conversion from a type that contains the type itself never ended.
---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 70455d4..051a6c8 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index de5c24e..7e4ab38 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -121,7 +121,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
-- 
2.43.0


From 51162ae9686f6a655c0eb9376d9cbfeba33ed78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 20/23] fix: accept types whose docs are given by a macro

---
 derive/src/docs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index c61ffd6..1201a36 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -12,8 +12,8 @@ impl RustDocs {
         let mut full_docs = String::new();
         // the attributes of others need not be a `Meta`
         for attr in attrs.iter().filter(|attr| attr.path.is_ident("doc")) {
-            match attr.parse_meta()? {
-                Meta::NameValue(nv) => {
+            match attr.parse_meta() {
+                Ok(Meta::NameValue(nv)) => {
                     if let Lit::Str(doc) = nv.lit {
                         let doc = doc.value();
                         let doc_str = doc.trim();
@@ -23,6 +23,7 @@ impl RustDocs {
                         full_docs += doc_str;
                     }
                 }
+                // e.g. `#[doc(hidden)]` or `#[doc = include_str!("..")]`
                 _ => {}
             }
         }
-- 
2.43.0


From 98250c943fb12618f398b0158efb53f7f4ca039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 21/23] fix: reject calls of the TypeScript client that are
 answered with an error

---
 src/rpc/clients/static/websocket_client.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..f3c505b 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -11,7 +11,9 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<
+    ([id, data, failed]: [number, unknown, boolean?]) => void
+  >();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -68,6 +70,10 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        subscriptions.forEach((subscription) =>
+          subscription([res.error.id, res.error.data, true])
+        );
       }
     };
 
@@ -109,7 +115,7 @@ function websocketStore(url: string) {
     send(value: string) {
       open_and_send(value);
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(subscription: (value: [number, unknown, boolean?]) => void) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
@@ -154,8 +160,8 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
-        if (res_id == id) {
+      return CONNECTION.subscribe(([res_id, data, failed]) => {
+        if (res_id == id && !failed) {
           cb(data as T);
         }
       });
@@ -174,14 +180,16 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
-      if (res_id == id) {
+    unsubscribe = CONNECTION.subscribe(([res_id, data, failed]: [number, any, boolean?]) => {
+      if (res_id == id && failed) {
+        reject(new Error(data));
+      } else if (res_id == id) {
         console.log("Exec Response", {
           req_id,
           request,
-- 
2.43.0


From de2fd91560369e350abc088f18baa95b616bda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 22/23] fix: keep the closing of an old socket from losing
 requests made on the next

---
 src/rpc/clients/static/websocket_client.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index f3c505b..b5a3369 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -31,6 +31,7 @@ function websocketStore(url: string) {
     if (socket) {
       socket.close();
       socket = undefined;
+      openPromise = undefined;
     }
   }
 
@@ -53,7 +54,8 @@ function websocketStore(url: string) {
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const current = new WebSocket(url);
+    socket = current;
 
     socket.onmessage = (event) => {
       const res = JSON.parse(event.data);
@@ -78,6 +80,11 @@ function websocketStore(url: string) {
     };
 
     socket.onclose = (event: Event) => {
+      // a socket that was given up must not close its successor
+      if (socket !== current) {
+        return;
+      }
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
@@ -92,7 +99,9 @@ function websocketStore(url: string) {
 
       socket.onerror = (error) => {
         reject(error);
-        openPromise = undefined;
+        if (socket === current) {
+          openPromise = undefined;
+        }
       };
       socket.onopen = (_: Event) => {
         reopenCount = 0;
-- 
2.43.0


From cf5163e871ded63121ad88e1d42f8150fac93188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 23/23] fix: let the stores of the TypeScript client cancel
 their streams

---
 src/rpc/clients/static/websocket_client.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index b5a3369..a12198e 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -124,6 +124,11 @@ function websocketStore(url: string) {
     send(value: string) {
       open_and_send(value);
     },
+    sendIfConnected(value: string) {
+      if (socket) {
+        open_and_send(value);
+      }
+    },
     subscribe(subscription: (value: [number, unknown, boolean?]) => void) {
       subscriptions.add(subscription);
       return () => {
@@ -175,7 +180,10 @@ export function subscribe<T>(
         }
       });
     },
-    close() {},
+    close() {
+      // the streams of a connection end with it
+      CONNECTION.sendIfConnected(JSON.stringify({ cancelStream: { id } }));
+    },
   };
 
   CONNECTION.send(execute(req));
-- 
2.43.0

