From d9b9a77ae8d8ebbff944bd44f116db9759e2ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 01/17] fix: percent-encode backslashes in path parameters

URL parsers treat '\' as '/' in http(s) URLs, so an unescaped backslash in
a path parameter added a path segment (or removed one, as in '..\').
---
 progenitor-client/src/progenitor_client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..6f977fb 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -406,6 +406,8 @@ where
 }
 
 // See https://url.spec.whatwg.org/#url-path-segment-string
+//
+// Note that URL parsers treat `\` as `/` in http(s) URLs.
 const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b' ')
     .add(b'"')
@@ -417,6 +419,7 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'/')
+    .add(b'\\')
     .add(b'%');
 
 #[doc(hidden)]
-- 
2.43.0


From ad91f81dd46e6d9b9c3ca5a912faedf09c7f2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 02/17] fix: use nested builders for body parameters only

A query (or path or header) parameter whose type has a builder made the
builder-style generator panic, either on the assertion that only bodies have
builders or, if optional, on an unreachable!().
---
 progenitor-impl/src/method.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..5a4563d 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1487,7 +1487,8 @@ impl Generator {
             .map(|param| match &param.typ {
                 OperationParameterType::Type(type_id) => {
                     let ty = self.type_space.get_type(type_id)?;
-                    if ty.builder().is_some() {
+                    if let (OperationParameterKind::Body(_), Some(_)) = (&param.kind, ty.builder())
+                    {
                         let type_name = ty.ident();
                         Ok(quote! {
                             .and_then(|v| #type_name::try_from(v)
@@ -1511,7 +1512,12 @@ impl Generator {
                 match &param.typ {
                     OperationParameterType::Type(type_id) => {
                         let ty = self.type_space.get_type(type_id)?;
-                        match (ty.builder(), param.kind.is_optional()) {
+                        // As above, only bodies use a nested builder.
+                        let builder = match &param.kind {
+                            OperationParameterKind::Body(_) => ty.builder(),
+                            _ => None,
+                        };
+                        match (builder, param.kind.is_optional()) {
                             // TODO right now optional body parameters are not
                             // addressed
                             (Some(_), true) => {
-- 
2.43.0


From e6cf2457bbd61bd63aaf79cd2220a94f211831fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 03/17] fix: send newtype structs as query parameters

A query parameter that is a newtype struct (not serde-transparent) around a
scalar or a list was rejected, or lost its parameter name, because the wrapped
value was handed to the inner serializer directly.
---
 progenitor-client/src/progenitor_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index 6f977fb..00dcfe5 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -555,13 +555,14 @@ where
 
     fn serialize_newtype_struct<T>(
         self,
-        name: &'static str,
+        _name: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        self.inner.serialize_newtype_struct(name, value)
+        // As with Option, a newtype is represented by the value it wraps.
+        value.serialize(self)
     }
 
     fn serialize_newtype_variant<T>(
-- 
2.43.0


From 513508075e5c74b94c28cc253f9749767eaaa566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 04/17] fix: generate compiling code for OPTIONS and TRACE
 operations

reqwest::Client has no options() and trace() functions, so a client generated
for a document with such an operation did not compile.
---
 progenitor-impl/src/method.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 5a4563d..9b9fe7e 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1081,7 +1081,19 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        let request_func = match method.method {
+            // reqwest::Client has no dedicated functions for these methods.
+            HttpMethod::Options => quote! {
+                request(::reqwest::Method::OPTIONS, #url_ident)
+            },
+            HttpMethod::Trace => quote! {
+                request(::reqwest::Method::TRACE, #url_ident)
+            },
+            _ => {
+                let method_func = format_ident!("{}", method.method.as_str());
+                quote! { #method_func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1090,7 +1102,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                . #request_func
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From 578debdd459fcabd98e338707adb736ae3d8c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:18 +0000
Subject: [PATCH 05/17] fix: refuse stray braces and empty parameters in path
 templates

---
 progenitor-impl/src/template.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..073ead2 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
@@ -132,7 +134,7 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
             }
             State::Parameter => {
                 if c == '}' {
-                    if a.contains('/') || a.contains('{') {
+                    if a.is_empty() || a.contains('/') || a.contains('{') {
                         return Err(Error::InvalidPath(format!(
                             "invalid parameter name {:?}",
                             a,
-- 
2.43.0


From 3ad0dffbc7724dafc1f2508a4bf1707052b792ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 06/17] fix: keep a parameter named header_map apart from the
 generated local

---
 progenitor-impl/src/method.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 9b9fe7e..59e1816 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -780,6 +780,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -806,7 +807,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -814,7 +815,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -829,8 +830,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -839,7 +840,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From f15289f32c7a9d976284c43a730840a829bbcab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 07/17] fix: keep parameters named page, first or state apart
 from the locals of paginated streams

---
 progenitor-impl/src/method.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 59e1816..0e162db 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -630,6 +630,17 @@ impl Generator {
 
             let stream_id = format_ident!("{}_stream", method.operation_id);
 
+            // Generate unique Idents for the variables that are in scope where
+            // the parameters are used to fetch subsequent pages.
+            let param_names = method
+                .params
+                .iter()
+                .map(|param| format_ident!("{}", param.name))
+                .collect::<Vec<_>>();
+            let page_ident = unique_ident_from("page", &param_names);
+            let first_ident = unique_ident_from("first", &param_names);
+            let state_ident = unique_ident_from("state", &param_names);
+
             // The parameters are the same as those to the paged method, but
             // without "page_token"
             let stream_params = method
@@ -662,7 +673,7 @@ impl Generator {
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
                 if param.api_name.as_str() == "page_token" {
-                    quote! { state.as_deref() }
+                    quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
                 {
@@ -703,20 +714,20 @@ impl Generator {
                     // Execute the operation with the basic parameters
                     // (omitting page_token) to get the first page.
                     self.#operation_id( #(#first_params,)* )
-                        .map_ok(move |page| {
-                            let page = page.into_inner();
+                        .map_ok(move |#page_ident| {
+                            let #page_ident = #page_ident.into_inner();
 
                             // Create a stream from the items of the first page.
-                            let first =
-                                futures::stream::iter(page.items).map(Ok);
+                            let #first_ident =
+                                futures::stream::iter(#page_ident.items).map(Ok);
 
                             // We unfold subsequent pages using page.next_page
                             // as the seed value. Each iteration returns its
                             // items and the next page token.
                             let rest = futures::stream::try_unfold(
-                                page.next_page,
-                                move |state| async move {
-                                    if state.is_none() {
+                                #page_ident.next_page,
+                                move |#state_ident| async move {
+                                    if #state_ident.is_none() {
                                         // The page_token was None so we've
                                         // reached the end.
                                         Ok(None)
@@ -744,7 +755,7 @@ impl Generator {
                             )
                             .try_flatten();
 
-                            first.chain(rest)
+                            #first_ident.chain(rest)
                         })
                         .try_flatten_stream()
                         .boxed()
-- 
2.43.0


From e72b7205ed765f9f95fe8b7cb1d397335f617f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 08/17] fix: keep operation names apart from names the
 generated client uses

---
 progenitor-impl/src/cli.rs    | 10 +++++----
 progenitor-impl/src/method.rs | 41 ++++++++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 95dd4fe..87fd308 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -9,7 +9,9 @@ use quote::{format_ident, quote};
 use typify::{Type, TypeEnumVariant, TypeSpaceImpl, TypeStructPropInfo};
 
 use crate::{
-    method::{OperationParameterKind, OperationParameterType, OperationResponseStatus},
+    method::{
+        builder_name, OperationParameterKind, OperationParameterType, OperationResponseStatus,
+    },
     to_schema::ToSchema,
     util::{sanitize, Case},
     validate_openapi, Generator, Result,
@@ -62,11 +64,11 @@ impl Generator {
 
         let cli_fns = raw_methods
             .iter()
-            .map(|method| format_ident!("cli_{}", sanitize(&method.operation_id, Case::Snake)))
+            .map(|method| format_ident!("cli_{}", &method.operation_id))
             .collect::<Vec<_>>();
         let execute_fns = raw_methods
             .iter()
-            .map(|method| format_ident!("execute_{}", sanitize(&method.operation_id, Case::Snake)))
+            .map(|method| format_ident!("execute_{}", &method.operation_id))
             .collect::<Vec<_>>();
 
         let cli_variants = raw_methods
@@ -338,7 +340,7 @@ impl Generator {
         };
 
         // TODO this is copy-pasted--unwisely?
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         let execute_trait = quote! {
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 0e162db..e590109 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -535,7 +535,7 @@ impl Generator {
         }
 
         Ok(OperationMethod {
-            operation_id: sanitize(operation_id, Case::Snake),
+            operation_id: self.operation_name(operation_id),
             tags: operation.tags.clone(),
             method: HttpMethod::from_str(method)?,
             path: tmp,
@@ -548,6 +548,20 @@ impl Generator {
         })
     }
 
+    /// The name of the method for an operation; it must differ from those that
+    /// every client has.
+    fn operation_name(&self, operation_id: &str) -> String {
+        let mut name = sanitize(operation_id, Case::Snake);
+        if matches!(
+            name.as_str(),
+            "new" | "new_with_client" | "baseurl" | "client" | "api_version"
+        ) || (name == "inner" && self.settings.inner_type.is_some())
+        {
+            name.push('_');
+        }
+        name
+    }
+
     pub(crate) fn positional_method(
         &mut self,
         method: &OperationMethod,
@@ -1427,7 +1441,7 @@ impl Generator {
         tag_style: TagStyle,
         has_inner: bool,
     ) -> Result<TokenStream> {
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         // Generate an ident for each parameter.
@@ -1892,7 +1906,7 @@ impl Generator {
 
     fn builder_helper(&self, method: &OperationMethod) -> BuilderImpl {
         let operation_id = format_ident!("{}", method.operation_id);
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         let params = method
@@ -2253,6 +2267,27 @@ fn make_stream_doc_comment(method: &OperationMethod) -> String {
     buf
 }
 
+/// The name of the builder struct for an operation; it must not hide a type
+/// that builders refer to.
+pub(crate) fn builder_name(operation_id: &str) -> String {
+    let mut name = sanitize(operation_id, Case::Pascal);
+    if matches!(
+        name.as_str(),
+        "ByteStream"
+            | "Error"
+            | "From"
+            | "Option"
+            | "RequestBuilderExt"
+            | "ResponseValue"
+            | "Result"
+            | "String"
+            | "Unpin"
+    ) {
+        name.push('_');
+    }
+    name
+}
+
 fn sort_params(raw_params: &mut [OperationParameter], names: &[String]) {
     raw_params.sort_by(
         |OperationParameter {
-- 
2.43.0


From 3eea9604fbdf246e38bba8ea8cf7e13fb5db9f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 09/17] fix: keep parameter names apart from names the
 generated methods use

---
 progenitor-impl/src/cli.rs    |  3 +--
 progenitor-impl/src/method.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 87fd308..801268f 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -404,8 +404,7 @@ impl Generator {
 
             let parser = clap_arg(&arg_name, volitionality, &param.description, &arg_type);
 
-            let arg_fn_name = sanitize(&param.name, Case::Snake);
-            let arg_fn = format_ident!("{}", arg_fn_name);
+            let arg_fn = format_ident!("{}", param.name);
             let OperationParameterType::Type(arg_type_id) = &param.typ else {
                 panic!()
             };
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index e590109..4892480 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -527,6 +527,24 @@ impl Generator {
 
         let dropshot_paginated = self.dropshot_pagination_data(operation, &params, &responses);
 
+        // Parameters are local variables of the generated methods and, in
+        // builders, methods and fields; those names may already be taken.
+        let has_body = params
+            .iter()
+            .any(|param| matches!(param.kind, OperationParameterKind::Body(_)));
+        for param in &mut params {
+            let taken = match (&param.kind, param.name.as_str()) {
+                (OperationParameterKind::Body(_), _) => false,
+                (_, "new" | "send" | "encode_path") => true,
+                (_, "body" | "body_map") => has_body,
+                (_, "clone" | "stream") => dropshot_paginated.is_some(),
+                _ => false,
+            };
+            if taken {
+                param.name.push('_');
+            }
+        }
+
         if dropshot_websocket && dropshot_paginated.is_some() {
             return Err(Error::InvalidExtension(format!(
                 "conflicting extensions in {:?}",
-- 
2.43.0


From 99f757c347f147b3eeb1ca135ea58c66eee5d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 10/17] fix: infer number and string for nullable schemas
 without a type

A nullable schema with no type but with number or string keywords was
given the instance types array and null.
---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..59a7630 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From 9063885f3dbce3f3095f5435fd31f0a615a750fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 11/17] fix: do not truncate length and count limits

Limits of 2^32 and more lost their upper bits on conversion.
---
 progenitor-impl/src/to_schema.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 59a7630..023fe78 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -450,10 +450,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.string().pattern = Some(pattern.clone());
                 }
                 if let Some(min_length) = min_length {
-                    so.string().min_length = Some(*min_length as u32);
+                    so.string().min_length = Some(limit(*min_length));
                 }
                 if let Some(max_length) = max_length {
-                    so.string().max_length = Some(*max_length as u32);
+                    so.string().max_length = Some(limit(*max_length));
                 }
 
                 // Number
@@ -496,10 +496,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.object().additional_properties = additional_properties.convert();
                 }
                 if let Some(min_properties) = min_properties {
-                    so.object().min_properties = Some(*min_properties as u32);
+                    so.object().min_properties = Some(limit(*min_properties));
                 }
                 if let Some(max_properties) = max_properties {
-                    so.object().max_properties = Some(*max_properties as u32);
+                    so.object().max_properties = Some(limit(*max_properties));
                 }
 
                 // Array
@@ -507,10 +507,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.array().items = items.convert().clone().map(SingleOrVec::Single);
                 }
                 if let Some(min_items) = min_items {
-                    so.array().min_items = Some(*min_items as u32);
+                    so.array().min_items = Some(limit(*min_items));
                 }
                 if let Some(max_items) = max_items {
-                    so.array().max_items = Some(*max_items as u32);
+                    so.array().max_items = Some(limit(*max_items));
                 }
                 if let Some(unique_items) = unique_items {
                     so.array().unique_items = Some(*unique_items);
@@ -744,9 +744,14 @@ fn oneof_nullable_wrapper(
     }
 }
 
+// Limits beyond the range of u32 are out of reach anyway.
+fn limit(value: usize) -> u32 {
+    u32::try_from(value).unwrap_or(u32::MAX)
+}
+
 impl Convert<Option<u32>> for Option<usize> {
     fn convert(&self) -> Option<u32> {
-        (*self).map(|m| m as u32)
+        (*self).map(limit)
     }
 }
 
-- 
2.43.0


From 9bf8ab37a505cf89ccb84d3c5431ec4a8648e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 12/17] fix: nullable schemas whose only other keywords are
 enum or format accept values again

With no type and no other keyword the instance type became null alone,
which only null satisfies.
---
 progenitor-impl/src/to_schema.rs | 33 ++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 023fe78..388d1a9 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -566,7 +566,7 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     // additional null type; otherwise we can leave the type
                     // implied.
                     (None, true) => {
-                        let instance_types = [
+                        let mut instance_types = [
                             so.object
                                 .is_some()
                                 .then_some(schemars::schema::InstanceType::Object),
@@ -579,14 +579,26 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                             so.string
                                 .is_some()
                                 .then_some(schemars::schema::InstanceType::String),
-                            nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
                         .flatten()
                         .collect::<Vec<_>>();
 
-                        // TODO we could also look at enumerated values to
-                        // infer a type.
+                        // If nothing else implies a type, look at the
+                        // enumerated values.
+                        if instance_types.is_empty() && so.subschemas.is_none() {
+                            for typ in enumeration.iter().filter_map(value_type) {
+                                if !instance_types.contains(&typ) {
+                                    instance_types.push(typ);
+                                }
+                            }
+                        }
+
+                        // Without any implied type the schema already allows
+                        // null, unless there are subschemas (see below).
+                        if !instance_types.is_empty() || so.subschemas.is_some() {
+                            instance_types.push(schemars::schema::InstanceType::Null);
+                        }
 
                         so.instance_type = match (instance_types.first(), instance_types.len()) {
                             (Some(typ), 1) => Some(SingleOrVec::Single(Box::new(*typ))),
@@ -712,6 +724,19 @@ fn instance_type(
     }
 }
 
+/// The type of a value other than null.
+fn value_type(value: &Value) -> Option<schemars::schema::InstanceType> {
+    match value {
+        Value::Null => None,
+        Value::Bool(_) => Some(schemars::schema::InstanceType::Boolean),
+        Value::Number(n) if n.is_f64() => Some(schemars::schema::InstanceType::Number),
+        Value::Number(_) => Some(schemars::schema::InstanceType::Integer),
+        Value::String(_) => Some(schemars::schema::InstanceType::String),
+        Value::Array(_) => Some(schemars::schema::InstanceType::Array),
+        Value::Object(_) => Some(schemars::schema::InstanceType::Object),
+    }
+}
+
 fn oneof_nullable_wrapper(
     mut schema: schemars::schema::SchemaObject,
     nullable: bool,
-- 
2.43.0


From d9f4556d18af30e66c6b25bcf491b81cd6c428d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:35 +0000
Subject: [PATCH 13/17] fix: share one extension trait between tags that map to
 the same name

---
 progenitor-impl/src/method.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 4892480..ca92c9a 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1986,6 +1986,11 @@ impl Generator {
         let mut base = Vec::new();
         let mut ext = BTreeMap::new();
 
+        // Distinct tags may map to the same trait name; they share the trait
+        // of the first of them.
+        let trait_name = |tag: &str| format!("Client{}Ext", sanitize(tag, Case::Pascal));
+        let mut trait_tags = BTreeMap::new();
+
         methods.iter().for_each(|method| {
             let BuilderImpl { doc, sig, body } = self.builder_helper(method);
 
@@ -2008,7 +2013,13 @@ impl Generator {
                         #body
                     }
                 };
+                let mut seen = BTreeSet::new();
                 method.tags.iter().for_each(|tag| {
+                    let name = trait_name(tag);
+                    if !seen.insert(name.clone()) {
+                        return;
+                    }
+                    let tag: &String = trait_tags.entry(name).or_insert(tag);
                     ext.entry(tag.clone())
                         .or_insert_with(Vec::new)
                         .push((trait_sig.clone(), impl_body.clone()));
@@ -2031,7 +2042,7 @@ impl Generator {
                     .get(&tag)
                     .and_then(|tag| tag.description.as_ref())
                     .map(|d| quote! { #[doc = #d] });
-                let tr = format_ident!("Client{}Ext", sanitize(&tag, Case::Pascal));
+                let tr = format_ident!("{}", trait_name(&tag));
                 let (trait_methods, trait_impls): (Vec<TokenStream>, Vec<TokenStream>) =
                     trait_methods.into_iter().unzip();
                 (
-- 
2.43.0


From 3becf501a24842657007150b7fa44284101e8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 14/17] fix: generate mocks for status codes without a name

---
 progenitor-impl/src/httpmock.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 6ac092e..7027b69 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -303,11 +303,14 @@ impl Generator {
 
                 match status_code {
                     OperationResponseStatus::Code(status_code) => {
-                        let canonical_reason = http::StatusCode::from_u16(*status_code)
-                            .unwrap()
-                            .canonical_reason()
-                            .unwrap();
-                        let fn_name = format_ident!("{}", &sanitize(canonical_reason, Case::Snake));
+                        // Not every status code has a name.
+                        let fn_name = http::StatusCode::from_u16(*status_code)
+                            .ok()
+                            .and_then(|status| status.canonical_reason())
+                            .map_or_else(
+                                || format_ident!("status_{}", status_code),
+                                |reason| format_ident!("{}", &sanitize(reason, Case::Snake)),
+                            );
 
                         quote! {
                             pub fn #fn_name(self, #value_param) -> Self {
-- 
2.43.0


From bd6d5f710c1bf7a32be42b23656381059f81288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 15/17] fix: keep parameters named into_inner apart from the
 method of generated mocks

---
 progenitor-impl/src/httpmock.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 7027b69..a5b3838 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -172,7 +172,11 @@ impl Generator {
                     },
                 };
 
-                let name_ident = format_ident!("{}", name);
+                // Keep clear of the method that every wrapper has.
+                let name_ident = match name.as_str() {
+                    "into_inner" => format_ident!("into_inner_"),
+                    name => format_ident!("{}", name),
+                };
                 let handler = match kind {
                     OperationParameterKind::Path => {
                         let re_fmt = method.path.as_wildcard_param(api_name);
-- 
2.43.0


From 74b462b88cdf75f5d6ed95be6e154b1f57d9ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 16/17] fix: match the literal text of paths literally in
 generated mocks

---
 progenitor-impl/src/template.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 073ead2..a83e284 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -65,7 +65,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(_) => "[^/]*".to_string(),
             })
             .collect::<String>();
@@ -77,7 +77,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape_regex(name),
                 Component::Parameter(p) if p == param => "{}".to_string(),
                 Component::Parameter(_) => ".*".to_string(),
             })
@@ -86,6 +86,19 @@ impl PathTemplate {
     }
 }
 
+/// Escape the characters that have a meaning in regular expressions.
+fn escape_regex(s: &str) -> String {
+    s.chars()
+        .flat_map(|c| {
+            r"\.+*?()|[]{}^$"
+                .contains(c)
+                .then_some('\\')
+                .into_iter()
+                .chain([c])
+        })
+        .collect()
+}
+
 pub fn parse(t: &str) -> Result<PathTemplate> {
     enum State {
         Start,
-- 
2.43.0


From 13e4aff61bcba6170321e8b70b10b2360033b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:56 +0000
Subject: [PATCH 17/17] fix: treat header parameters of a nullable type as
 optional

As for query parameters, a type that is itself optional makes the
parameter optional. Before, the generated code did not compile.
---
 progenitor-impl/src/method.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index ca92c9a..2477c00 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -381,14 +381,26 @@ impl Generator {
                             Case::Pascal,
                         );
 
-                        let typ = self.type_space.add_type_with_name(&schema, Some(name))?;
+                        let type_id = self.type_space.add_type_with_name(&schema, Some(name))?;
+
+                        let ty = self.type_space.get_type(&type_id).unwrap();
+
+                        // As for query parameters, a type that is itself
+                        // optional makes the parameter optional.
+                        let details = ty.details();
+                        let (type_id, required) =
+                            if let typify::TypeDetails::Option(inner_type_id) = details {
+                                (inner_type_id, false)
+                            } else {
+                                (type_id, parameter_data.required)
+                            };
 
                         Ok(OperationParameter {
                             name: sanitize(&parameter_data.name, Case::Snake),
                             api_name: parameter_data.name.clone(),
                             description: parameter_data.description.clone(),
-                            typ: OperationParameterType::Type(typ),
-                            kind: OperationParameterKind::Header(parameter_data.required),
+                            typ: OperationParameterType::Type(type_id),
+                            kind: OperationParameterKind::Header(required),
                         })
                     }
                     openapiv3::Parameter::Path { style, .. } => Err(Error::UnexpectedFormat(
-- 
2.43.0

