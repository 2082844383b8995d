From 76b95e0996af9060805e7abfdf37040b7643c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 01/19] fix: reject the empty range times(..0)

TimesRange::from(..0) produced an unsatisfiable range whose upper bound later
underflowed, instead of being rejected like every other backwards range.
---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..9a778f4 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1556,6 +1556,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From da7a28975598235096424b757dd2761840f6b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 02/19] fix: do not shadow mocked arguments named desc or
 no_match_msg

---
 mockall_derive/src/mock_function.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..897a7f8 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -545,7 +545,7 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
                             .lock().unwrap();
@@ -557,7 +557,7 @@ impl MockFunction {
                         /* std::panic::catch_unwind(|| */
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
                         /*)*/
-                    }.expect(&no_match_msg)
+                    }.expect(&__mockall_no_match_msg)
                 }
             )
         } else {
@@ -568,9 +568,9 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
-                    .expect(&no_match_msg)
+                    .expect(&__mockall_no_match_msg)
                 }
 
             )
@@ -2095,11 +2095,11 @@ impl ToTokens for RefMutExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(&#desc);
-                    let desc = std::format!(
+                    let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock().unwrap());
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
-                                   m);
+                            panic!("{}: Expectation({}) {}", #funcname,
+                                   __mockall_desc, m);
                     })
                 }
 
-- 
2.43.0


From b360233eaed69e4ec0bacf514271ba2209764f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:41 +0000
Subject: [PATCH 03/19] fix: expect methods of generic methods lost one level
 of super in bounds

---
 mockall_derive/src/mock_function.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 897a7f8..0053085 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -261,6 +261,23 @@ impl<'a> Builder<'a> {
                 (output_ty, boxed)
             }
         };
+        // The expect_ method isn't nested as deeply as the private module, so it
+        // needs the original paths.
+        let (expect_generics, _, _) = split_lifetimes(
+            declosured_generics.clone(),
+            &declosured_inputs,
+            &self.sig.output
+        );
+        let expect_output = match self.sig.output {
+            ReturnType::Default => output.clone(),
+            ReturnType::Type(_, ref ty) => {
+                let mut output_ty = (**ty).clone();
+                destrify(&mut output_ty);
+                dedynify(&mut output_ty);
+                output_ty
+            }
+        };
+        let expect_owned_output = ownify(&expect_output);
         supersuperfy_generics(&mut declosured_generics, self.levels);
         let owned_output = ownify(&output);
         let mut return_ref = false;
@@ -321,6 +338,8 @@ impl<'a> Builder<'a> {
             call_vis: expectation_visibility(self.vis, call_levels),
             concretize: self.concretize,
             egenerics,
+            expect_generics,
+            expect_owned_output,
             cgenerics,
             fn_params,
             is_static,
@@ -421,6 +440,11 @@ pub(crate) struct MockFunction {
     concretize: bool,
     /// Generics of the Expectation object
     egenerics: Generics,
+    /// Generics of the expect_ method.  Like `call_generics`, but not
+    /// supersuperfied.
+    expect_generics: Generics,
+    /// Like `owned_output`, but not supersuperfied.
+    expect_owned_output: Type,
     /// Generics of the Common object
     cgenerics: Generics,
     /// The mock function's generic types as a list of types
@@ -667,12 +691,12 @@ impl MockFunction {
         } else {
             &self.call_generics
         }.split_for_impl();
-        let (ig, _, wc) = self.call_generics.split_for_impl();
+        let (ig, _, wc) = self.expect_generics.split_for_impl();
         let mut wc = wc.cloned();
         if self.is_method_generic() && (self.return_ref || self.return_refmut) {
             // Add Senc + Sync, required for downcast, since Expectation
             // stores an Option<#owned_output>
-            send_syncify(&mut wc, self.owned_output.clone());
+            send_syncify(&mut wc, self.expect_owned_output.clone());
         }
         let tbf = tg.as_turbofish();
         let vis = &self.call_vis;
-- 
2.43.0


From 03044142d12da599b75008fc13e016520cfedfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:18 +0000
Subject: [PATCH 04/19] fix: resolve Self within function pointer and Fn trait
 argument types

---
 mockall_derive/src/lib.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 77f7cbc..496bdde 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -573,17 +573,27 @@ fn deselfify_path(path: &mut Path, actual: &Ident, generics: &Generics) {
                     "Type arguments after Self are unexpected");
             }
         }
-        if let PathArguments::AngleBracketed(abga) = &mut seg.arguments
-        {
-            for arg in abga.args.iter_mut() {
-                match arg {
-                    GenericArgument::Type(ty) =>
-                        deselfify(ty, actual, generics),
-                    GenericArgument::AssocType(at) =>
-                        deselfify(&mut at.ty, actual, generics),
-                    _ => /* Nothing to do */(),
+        match &mut seg.arguments {
+            PathArguments::AngleBracketed(abga) => {
+                for arg in abga.args.iter_mut() {
+                    match arg {
+                        GenericArgument::Type(ty) =>
+                            deselfify(ty, actual, generics),
+                        GenericArgument::AssocType(at) =>
+                            deselfify(&mut at.ty, actual, generics),
+                        _ => /* Nothing to do */(),
+                    }
                 }
-            }
+            },
+            PathArguments::Parenthesized(pga) => {
+                for input in pga.inputs.iter_mut() {
+                    deselfify(input, actual, generics);
+                }
+                if let ReturnType::Type(_, ty) = &mut pga.output {
+                    deselfify(ty.as_mut(), actual, generics);
+                }
+            },
+            PathArguments::None => /* Nothing to do */(),
         }
     }
 }
@@ -637,8 +647,13 @@ fn deselfify(literal_type: &mut Type, actual: &Ident, generics: &Generics) {
         Type::ImplTrait(_) => {
             /* Should've already been flagged as a compile_error */
         },
-        Type::BareFn(_) => {
-            /* Bare functions can't have Self arguments.  Nothing to do */
+        Type::BareFn(bfn) => {
+            for input in bfn.inputs.iter_mut() {
+                deselfify(&mut input.ty, actual, generics);
+            }
+            if let ReturnType::Type(_, ty) = &mut bfn.output {
+                deselfify(ty.as_mut(), actual, generics);
+            }
         },
         Type::Infer(_) | Type::Never(_) =>
         {
-- 
2.43.0


From 066956407346a52334f9004765391adc07a8d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 05/19] fix: accept pub(self) and self-relative visibility of
 mocked functions

A visibility like pub(in self::super) became pub(in super::self::super),
which doesn't compile, because a path may have self only at its start.
---
 mockall_derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 496bdde..71da47b 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -1289,6 +1289,12 @@ fn expectation_visibility(vis: &Visibility, levels: usize)
             } else {
                 let mut out = vr.clone();
                 out.in_token = Some(in_token);
+                if out.path.segments.first().unwrap().ident == "self" {
+                    // "self" is only allowed at the start of a path
+                    out.path.segments = out.path.segments.into_iter()
+                        .skip(1)
+                        .collect();
+                }
                 for _ in 0..levels {
                     out.path.segments.insert(0, super_token.into());
                 }
-- 
2.43.0


From 990c2f200e17521aabfa4d70a8e6876c41020c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 06/19] fix: generic mocks are Send and Sync whatever their
 type parameters

Mock objects are documented to be always Send, but one whose type parameter
is not used by any inherent or trait method's expectations inherited the
parameter's lack of Send and Sync through its PhantomData field.
---
 mockall_derive/src/mock_item_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index b0bf615..07305ec 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -47,8 +47,11 @@ fn phantom_fields(generics: &Generics) -> Vec<TokenStream> {
             },
             syn::GenericParam::Type(tp) => {
                 let ty = &tp.ident;
+                // The mock object doesn't own any T.  And unlike
+                // PhantomData<T>, PhantomData<fn() -> T> is Send and Sync even
+                // if T is not.
                 Some(
-                quote!(#phident: ::std::marker::PhantomData<#ty>)
+                quote!(#phident: ::std::marker::PhantomData<fn() -> #ty>)
                 )
             },
             syn::GenericParam::Const(_) => {
-- 
2.43.0


From 6233ca5215362e0d0b598dcea59ec6f99d0a15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 07/19] fix: reject negative impls in mock!

"impl !Trait for S {}" in mock! silently became "impl Trait for MockS {}".
---
 mockall_derive/src/mockable_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index 108923c..b2d0216 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -504,6 +504,10 @@ impl Parse for MockableStruct {
             let item: Item = input.parse()?;
             match item {
                 Item::Impl(mut ii) => {
+                    if let Some((Some(bang), _, _)) = &ii.trait_ {
+                        compile_error(bang.span(),
+                            "Mockall does not support negative impls");
+                    }
                     for item in ii.items.iter_mut() {
                         // Convert any methods that syn couldn't parse as
                         // ImplItemFn.
-- 
2.43.0


From b292b5b96d5632e6cec5112067a8b0f96dd89b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 08/19] fix: mocks of functions in bare extern and extern
 "system" blocks may panic

Like mocks of extern "C" functions, they must use an unwinding ABI.  With a
non-unwinding one, any panic, for example from an unmatched call, aborted the
process.
---
 mockall_derive/src/mock_item.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index f31f7a5..e284dcc 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -97,21 +97,20 @@ impl From<MockableModule> for MockItemModule {
                             // for proper function linkage with external code.
                             //
                             // BUT, use C-unwind instead of C, so we can panic
-                            // from the mock function (rust-lang/rust #74990)
-                            let needs_c_unwind = if let Some(n) = &ifm.abi.name
-                            {
-                                n.value() == "C"
-                            } else {
-                                false
-                            };
-                            f.sig.abi = Some(if needs_c_unwind {
-                                Abi {
+                            // from the mock function (rust-lang/rust #74990).
+                            // A bare "extern" means C, too.  And likewise for
+                            // system, which is C on most platforms.
+                            let name = ifm.abi.name.as_ref()
+                                .map(LitStr::value)
+                                .unwrap_or_else(|| String::from("C"));
+                            f.sig.abi = Some(match name.as_str() {
+                                "C" | "system" => Abi {
                                     extern_token:ifm.abi.extern_token,
-                                    name: Some(LitStr::new("C-unwind",
-                                                           ifm.abi.name.span()))
-                                }
-                            } else {
-                                ifm.abi.clone()
+                                    name: Some(LitStr::new(
+                                        &format!("{name}-unwind"),
+                                        ifm.abi.name.span()))
+                                },
+                                _ => ifm.abi.clone()
                             });
 
                             let mf = mock_function::Builder::new(&f.sig, &f.vis)
-- 
2.43.0


From a8b33186319e70f12c56c0324864d92477509780 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 09/19] fix: don't apply function-only attributes to a mock
 function's modules, fields and checkpoints

Attributes like deprecated, track_caller, and tool attributes were copied to
the private module, the struct field, the checkpoint statement, and the expect
and context methods too.  The mocks of such functions would not compile.
---
 mockall_derive/src/lib.rs              | 15 +++++++++++++++
 mockall_derive/src/mock_function.rs    |  5 +++++
 mockall_derive/src/mock_item_struct.rs |  1 +
 3 files changed, 21 insertions(+)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 71da47b..3582d53 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -790,6 +790,8 @@ struct AttrFormatter<'a>{
     attrs: &'a [Attribute],
     async_trait: bool,
     doc: bool,
+    /// Only emit attributes that are meaningful for any kind of item
+    helper: bool,
     must_use: bool,
 }
 
@@ -799,6 +801,7 @@ impl<'a> AttrFormatter<'a> {
             attrs,
             async_trait: true,
             doc: true,
+            helper: false,
             must_use: false,
         }
     }
@@ -813,6 +816,14 @@ impl<'a> AttrFormatter<'a> {
         self
     }
 
+    /// Format attributes for the things that get generated alongside of a mock
+    /// function: modules, fields, expressions, and the like.  Attributes like
+    /// `deprecated` and `track_caller` only make sense on the function itself.
+    fn helper(&mut self, helper: bool) -> &mut Self {
+        self.helper = helper;
+        self
+    }
+
     fn must_use(&mut self, allowed: bool) -> &mut Self {
         self.must_use = allowed;
         self
@@ -864,6 +875,10 @@ impl<'a> AttrFormatter<'a> {
                     // Ignore auto_enum, because we transform the return value
                     // into a trait object.
                     false
+                } else if self.helper {
+                    ["allow", "cfg", "cfg_attr", "deny", "doc", "forbid", "warn"]
+                        .iter()
+                        .any(|s| attr.path().is_ident(s))
                 } else {
                     true
                 }
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 0053085..f89ca19 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -605,6 +605,7 @@ impl MockFunction {
     pub fn checkpoint(&self) -> impl ToTokens {
         let attrs = AttrFormatter::new(&self.attrs)
             .doc(false)
+            .helper(true)
             .format();
         let inner_mod_ident = self.inner_mod_ident();
         if self.is_static {
@@ -633,6 +634,7 @@ impl MockFunction {
     pub fn context_fn(&self, modname: Option<&Ident>) -> impl ToTokens {
         let attrs = AttrFormatter::new(&self.attrs)
             .doc(false)
+            .helper(true)
             .format();
         let context_docstr = format!("Create a [`Context`]({}{}/struct.Context.html) for mocking the `{}` method",
             modname.map(|m| format!("{m}/")).unwrap_or_default(),
@@ -681,6 +683,7 @@ impl MockFunction {
     {
         let attrs = AttrFormatter::new(&self.attrs)
             .doc(false)
+            .helper(true)
             .format();
         let name = self.name();
         let expect_ident = format_ident!("expect_{}", name);
@@ -771,6 +774,7 @@ impl MockFunction {
         let name = self.name();
         let attrs = AttrFormatter::new(&self.attrs)
             .doc(false)
+            .helper(true)
             .format();
         let expectations_obj = &self.expectations_obj();
         if self.is_method_generic() {
@@ -848,6 +852,7 @@ impl MockFunction {
     pub fn priv_module(&self) -> impl ToTokens {
         let attrs = AttrFormatter::new(&self.attrs)
             .doc(false)
+            .helper(true)
             .format();
         let common = &Common{f: self};
         let context = &Context{f: self};
diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index 07305ec..0a96928 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -110,6 +110,7 @@ impl Methods {
                 let name = meth.name();
                 let attrs = AttrFormatter::new(&meth.attrs)
                     .doc(false)
+                    .helper(true)
                     .format();
                 quote!(#(#attrs)* #name: Default::default())
             }).collect::<Vec<_>>()
-- 
2.43.0


From 828d32b9529818a74c905de6e23df9ad362d61ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 10/19] fix: filter the attributes inside of cfg_attr, too

Attributes like inline, instrument, and derive were stripped from mocked items,
but not when they were applied with cfg_attr.
---
 mockall_derive/src/lib.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 3582d53..3b3be12 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -882,8 +882,41 @@ impl<'a> AttrFormatter<'a> {
                 } else {
                     true
                 }
-            }).cloned()
-            .collect()
+            }).filter_map(|attr| {
+                if attr.path().is_ident("cfg_attr") {
+                    self.format_cfg_attr(attr)
+                } else {
+                    Some(attr.clone())
+                }
+            }).collect()
+    }
+
+    /// Format the attributes that a `cfg_attr` conditionally applies
+    fn format_cfg_attr(&self, attr: &Attribute) -> Option<Attribute> {
+        let parser = |input: parse::ParseStream| {
+            let predicate = input.parse::<Expr>()?;
+            input.parse::<Token![,]>()?;
+            let metas = Punctuated::<Meta, Token![,]>::parse_terminated(input)?;
+            Ok((predicate, metas))
+        };
+        if let Ok((predicate, metas)) = attr.parse_args_with(parser) {
+            let attrs = metas.iter()
+                .map(|meta| parse_quote!(#[#meta]))
+                .collect::<Vec<Attribute>>();
+            let metas = AttrFormatter { attrs: &attrs, ..*self }
+                .format()
+                .into_iter()
+                .map(|attr| attr.meta)
+                .collect::<Vec<_>>();
+            if metas.is_empty() {
+                None
+            } else {
+                Some(parse_quote!(#[cfg_attr(#predicate, #(#metas),*)]))
+            }
+        } else {
+            // Let rustc handle any malformed attribute
+            Some(attr.clone())
+        }
     }
 }
 
-- 
2.43.0


From 60578301e6fb34e6913097759c2a6b97b39aca7e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 11/19] fix: don't put must_use or deprecated on trait impl
 methods

rustc rejects deprecated there, and warns about must_use.  The attributes of
the trait's own methods are the ones that take effect.
---
 mockall_derive/src/lib.rs           | 9 +++++++++
 mockall_derive/src/mock_function.rs | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 3b3be12..f950be2 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -789,6 +789,7 @@ fn find_lifetimes(ty: &Type) -> HashSet<Lifetime> {
 struct AttrFormatter<'a>{
     attrs: &'a [Attribute],
     async_trait: bool,
+    deprecated: bool,
     doc: bool,
     /// Only emit attributes that are meaningful for any kind of item
     helper: bool,
@@ -800,6 +801,7 @@ impl<'a> AttrFormatter<'a> {
         Self {
             attrs,
             async_trait: true,
+            deprecated: true,
             doc: true,
             helper: false,
             must_use: false,
@@ -811,6 +813,11 @@ impl<'a> AttrFormatter<'a> {
         self
     }
 
+    fn deprecated(&mut self, allowed: bool) -> &mut Self {
+        self.deprecated = allowed;
+        self
+    }
+
     fn doc(&mut self, allowed: bool) -> &mut Self {
         self.doc = allowed;
         self
@@ -875,6 +882,8 @@ impl<'a> AttrFormatter<'a> {
                     // Ignore auto_enum, because we transform the return value
                     // into a trait object.
                     false
+                } else if *i.as_ref().unwrap() == "deprecated" && !self.deprecated {
+                    false
                 } else if self.helper {
                     ["allow", "cfg", "cfg_attr", "deny", "doc", "forbid", "warn"]
                         .iter()
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index f89ca19..b78edf0 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -496,8 +496,11 @@ impl MockFunction {
     // Supplying modname is an unfortunately hack.  Ideally MockFunction
     // wouldn't need to know that.
     pub fn call(&self, modname: Option<&Ident>) -> impl ToTokens {
+        // rustc accepts must_use and deprecated on a trait's own methods, but not
+        // on those of its impls.
         let attrs = AttrFormatter::new(&self.attrs)
-            .must_use(true)
+            .deprecated(self.trait_.is_none())
+            .must_use(self.trait_.is_none())
             .format();
         let call_exprs = &self.call_exprs;
         let (_, tg, _) = if self.is_method_generic() || self.is_static() {
-- 
2.43.0


From 4303bc6c6addd3a19cc511e1f1b10db1bfb40d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:29 +0000
Subject: [PATCH 12/19] fix: recognise a qualified path to Debug in mock!'s
 #[derive]

#[derive(std::fmt::Debug)] was silently ignored, leaving the mock struct
without the Debug implementation that was asked for.
---
 mockall_derive/src/mockable_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index b2d0216..d19c8ba 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -350,7 +350,10 @@ impl MockableStruct {
             let mut derive_debug = false;
             if attr.path().is_ident("derive") {
                 attr.parse_nested_meta(|meta| {
-                    if meta.path.is_ident("Debug") {
+                    // Also accept a qualified path like std::fmt::Debug
+                    if meta.path.segments.last()
+                        .is_some_and(|seg| seg.ident == "Debug")
+                    {
                         derive_debug = true;
                     }
                     Ok(())
-- 
2.43.0


From 736ba046b52ec967bc32b5a08300d4e91475cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 13/19] fix: allow concurrent calls to an expectation in a
 Sequence

A call to a sequenced expectation re-read its call count and the state of
the sequence after counting itself.  If another thread completed the
expectation in between, then the call panicked with a sequence violation, or
advanced the sequence twice, even though it was one of the required calls.
---
 mockall/src/lib.rs                  | 11 ++++++++---
 mockall_derive/src/mock_function.rs |  4 ++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 9a778f4..b9e6950 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1585,7 +1585,9 @@ pub struct Times{
 
 #[doc(hidden)]
 impl Times {
-    pub fn call(&self) -> Result<(), String> {
+    /// Record another call.  On success, return whether the minimum number of
+    /// calls had been made as of this one.
+    pub fn call(&self) -> Result<bool, String> {
         let count = self.count.fetch_add(1, Ordering::Relaxed) + 1;
         if count >= self.range.0.end {
             if self.range.0.end == 1 {
@@ -1598,7 +1600,7 @@ impl Times {
                 ))
             }
         } else {
-            Ok(())
+            Ok(count >= self.range.0.start)
         }
     }
 
@@ -1710,8 +1712,11 @@ impl SeqInner {
     }
 
     /// Verify that the call identified by `seq` was called in the correct order
+    ///
+    /// The sequence may already have moved on, if other threads made the rest
+    /// of the same expectation's calls since this one was counted.
     fn verify(&self, seq: usize, desc: &str) {
-        assert_eq!(seq, self.satisfaction_level.load(Ordering::Relaxed),
+        assert!(seq <= self.satisfaction_level.load(Ordering::Relaxed),
             "{desc}: Method sequence violation")
     }
 }
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index b78edf0..904fa56 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -986,7 +986,7 @@ impl ToTokens for Common<'_> {
 
             impl #ig Common #tg #wc {
                 fn call(&self, desc: &str) {
-                    self.times.call()
+                    let satisfied = self.times.call()
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
                                 "{}", self.matcher.lock().unwrap());
@@ -994,7 +994,7 @@ impl ToTokens for Common<'_> {
                                 m);
                         });
                     self.verify_sequence(desc);
-                    if ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
+                    if satisfied {
                         self.satisfy_sequence()
                     }
                 }
-- 
2.43.0


From 1dc29616c2d6b0b14ca7d192bf67ad0e16376f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:04 +0000
Subject: [PATCH 14/19] fix: don't abort when a mock with a single-threaded
 action unwinds on another thread

Fragile panics when it is dropped or accessed on a thread other than the one
that created it.  If that thread was already panicking, which includes the
unwinding of Fragile's own panic, the process aborted.  Leak the value in that
case.
---
 mockall/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index b9e6950..2ffcbc9 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1159,8 +1159,6 @@ use std::{
 
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
-#[doc(hidden)]
-pub use fragile::Fragile;
 
 pub use predicates::{
     boolean::PredicateBooleanExt,
@@ -1567,6 +1565,47 @@ impl From<RangeToInclusive<usize>> for TimesRange {
     }
 }
 
+/// Like [`fragile::Fragile`], but never panics from its destructor if the thread
+/// is already panicking, which would abort the process.  The value is leaked
+/// instead.
+#[doc(hidden)]
+pub struct Fragile<T>(Option<fragile::Fragile<T>>);
+
+impl<T> Fragile<T> {
+    pub fn new(t: T) -> Self {
+        Fragile(Some(fragile::Fragile::new(t)))
+    }
+
+    #[track_caller]
+    pub fn get(&self) -> &T {
+        self.0.as_ref().unwrap().get()
+    }
+
+    #[track_caller]
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap().get_mut()
+    }
+
+    #[track_caller]
+    pub fn into_inner(mut self) -> T {
+        // Check the thread first, so that a panic drops self, not the inner
+        // value.
+        self.get();
+        self.0.take().unwrap().into_inner()
+    }
+}
+
+impl<T> Drop for Fragile<T> {
+    #[track_caller]
+    fn drop(&mut self) {
+        if let Some(f) = self.0.take() {
+            if std::thread::panicking() && !f.is_valid() {
+                std::mem::forget(f);
+            }
+        }
+    }
+}
+
 #[derive(PartialEq)]
 #[doc(hidden)]
 pub enum ExpectedCalls {
-- 
2.43.0


From 3cd8b96e554342b494178e904c290eea9a358276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:33 +0000
Subject: [PATCH 15/19] fix: translate paths inside array lengths and const
 generic arguments

Paths beginning with super or self kept their spelling inside of array lengths,
const generic arguments, and generic arguments of any but the last segment of a
path, so they named the wrong module from within the mock's private modules.
---
 mockall_derive/src/lib.rs | 45 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index f950be2..d0785ef 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -939,8 +939,47 @@ fn pat_is_self(pat: &Pat) -> bool {
 }
 
 /// Add `levels` `super::` to the path.  Return the number of levels added.
+/// Replace any references to `super::X` in a constant expression, such as an
+/// array's length, with `super::super::X`.
+fn supersuperfy_expr(expr: &mut Expr, levels: usize) {
+    match expr {
+        Expr::Path(p) => {
+            let added = supersuperfy_path(&mut p.path, levels);
+            if let Some(ref mut qself) = p.qself {
+                *qself.ty = supersuperfy(&qself.ty, levels);
+                qself.position += added;
+            }
+        },
+        Expr::Binary(b) => {
+            supersuperfy_expr(&mut b.left, levels);
+            supersuperfy_expr(&mut b.right, levels);
+        },
+        Expr::Unary(u) => supersuperfy_expr(&mut u.expr, levels),
+        Expr::Cast(c) => {
+            supersuperfy_expr(&mut c.expr, levels);
+            *c.ty = supersuperfy(&c.ty, levels);
+        },
+        Expr::Call(c) => {
+            supersuperfy_expr(&mut c.func, levels);
+            for arg in c.args.iter_mut() {
+                supersuperfy_expr(arg, levels);
+            }
+        },
+        Expr::Paren(p) => supersuperfy_expr(&mut p.expr, levels),
+        Expr::Group(g) => supersuperfy_expr(&mut g.expr, levels),
+        Expr::Block(b) => {
+            for stmt in b.block.stmts.iter_mut() {
+                if let Stmt::Expr(e, _) = stmt {
+                    supersuperfy_expr(e, levels);
+                }
+            }
+        },
+        _ => ()
+    }
+}
+
 fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
-    if let Some(t) = path.segments.last_mut() {
+    for t in path.segments.iter_mut() {
         match &mut t.arguments {
             PathArguments::None => (),
             PathArguments::AngleBracketed(ref mut abga) => {
@@ -949,6 +988,9 @@ fn supersuperfy_path(path: &mut Path, levels: usize) -> usize {
                         GenericArgument::Type(ref mut ty) => {
                             *ty = supersuperfy(ty, levels);
                         },
+                        GenericArgument::Const(ref mut expr) => {
+                            supersuperfy_expr(expr, levels);
+                        },
                         GenericArgument::AssocType(ref mut at) => {
                             at.ty = supersuperfy(&at.ty, levels);
                         },
@@ -999,6 +1041,7 @@ fn supersuperfy(original: &Type, levels: usize) -> Type {
             },
             Type::Array(a) => {
                 recurse(a.elem.as_mut(), levels);
+                supersuperfy_expr(&mut a.len, levels);
             },
             Type::Ptr(p) => {
                 recurse(p.elem.as_mut(), levels);
-- 
2.43.0


From 0cd8701af6176a8dfa8f7a92900bc932fc7525cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 16/19] fix: mocks keep the lint allowances of what they mock

---
 mockall_derive/src/lib.rs              | 18 ++++++++++++------
 mockall_derive/src/mock_item.rs        |  4 ++++
 mockall_derive/src/mock_item_struct.rs |  4 ++++
 mockall_derive/src/mockable_item.rs    | 13 ++++++++++++-
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index d0785ef..24e5f88 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -856,11 +856,6 @@ impl<'a> AttrFormatter<'a> {
                     self.doc
                 } else if *i.as_ref().unwrap() == "async_trait" {
                     self.async_trait
-                } else if *i.as_ref().unwrap() == "expect" {
-                    // This probably means that there's a lint that needs to be
-                    // surpressed for the real code, but not for the mock code.
-                    // Skip it.
-                    false
                 } else if *i.as_ref().unwrap() == "inline" {
                     // No need to inline mock functions.
                     false
@@ -885,7 +880,8 @@ impl<'a> AttrFormatter<'a> {
                 } else if *i.as_ref().unwrap() == "deprecated" && !self.deprecated {
                     false
                 } else if self.helper {
-                    ["allow", "cfg", "cfg_attr", "deny", "doc", "forbid", "warn"]
+                    ["allow", "cfg", "cfg_attr", "deny", "doc", "expect", "forbid",
+                     "warn"]
                         .iter()
                         .any(|s| attr.path().is_ident(s))
                 } else {
@@ -894,6 +890,16 @@ impl<'a> AttrFormatter<'a> {
             }).filter_map(|attr| {
                 if attr.path().is_ident("cfg_attr") {
                     self.format_cfg_attr(attr)
+                } else if attr.path().is_ident("expect") {
+                    // The lint needs to be suppressed for the real code.  The
+                    // mock code might or might not trigger it.
+                    match &attr.meta {
+                        Meta::List(ml) => {
+                            let lints = &ml.tokens;
+                            Some(parse_quote!(#[allow(#lints)]))
+                        },
+                        _ => None
+                    }
                 } else {
                     Some(attr.clone())
                 }
diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index e284dcc..b88c662 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -92,6 +92,10 @@ impl From<MockableModule> for MockItemModule {
                             // foreign functions should be unsafe too, to
                             // prevent "warning: unused unsafe" messages.
                             f.sig.unsafety = Some(Token![unsafe](f.span()));
+                            // Any warnings about its types concern the foreign
+                            // declaration, not the mock's definition.
+                            f.attrs.push(parse_quote!(
+                                #[allow(improper_ctypes_definitions)]));
 
                             // Set the ABI to match the ForeignMod's ABI
                             // for proper function linkage with external code.
diff --git a/mockall_derive/src/mock_item_struct.rs b/mockall_derive/src/mock_item_struct.rs
index 0a96928..c2d86e9 100644
--- a/mockall_derive/src/mock_item_struct.rs
+++ b/mockall_derive/src/mock_item_struct.rs
@@ -251,6 +251,9 @@ impl ToTokens for MockItemStruct {
             .async_trait(false)
             .must_use(true)
             .format();
+        let allows = attrs.iter()
+            .filter(|attr| attr.path().is_ident("allow"))
+            .collect::<Vec<_>>();
         let consts = &self.consts;
         let debug_impl = self.debug_impl();
         let struct_name = &self.name;
@@ -350,6 +353,7 @@ impl ToTokens for MockItemStruct {
                 }
             }
             #(#substructs)*
+            #(#allows)*
             impl #ig #struct_name #tg #wc {
                 #(#consts)*
                 #(#calls)*
diff --git a/mockall_derive/src/mockable_item.rs b/mockall_derive/src/mockable_item.rs
index 6e15a95..26c7815 100644
--- a/mockall_derive/src/mockable_item.rs
+++ b/mockall_derive/src/mockable_item.rs
@@ -70,8 +70,19 @@ impl From<ItemMod> for MockableModule {
             "automock can only mock inline modules, not modules from another file");
             Vec::new()
         };
+        // The mock module copies some of the original's items and all of its
+        // functions' names, so it needs the same lint allowances.
+        let attrs = mod_.attrs.into_iter()
+            .map(|attr| Attribute { style: AttrStyle::Outer, ..attr })
+            .collect::<Vec<_>>();
+        let attrs = AttrFormatter::new(&attrs)
+            .format()
+            .into_iter()
+            .filter(|attr| attr.path().is_ident("allow"))
+            .map(ToTokens::into_token_stream)
+            .collect();
         MockableModule {
-            attrs: TokenStream::new(),
+            attrs,
             vis,
             mock_ident,
             orig_ident,
-- 
2.43.0


From 36442e4d2551be32ba6ce9b7c5cf5078ae8a29d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:08:35 +0000
Subject: [PATCH 17/19] fix: don't copy attributes to impls that are only
 accepted on the trait

---
 mockall_derive/src/lib.rs             |  7 ++++++
 mockall_derive/src/mockable_struct.rs | 33 +++++++++++++++++++--------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 24e5f88..0f9917f 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -856,6 +856,13 @@ impl<'a> AttrFormatter<'a> {
                     self.doc
                 } else if *i.as_ref().unwrap() == "async_trait" {
                     self.async_trait
+                } else if attr.path().segments[0].ident == "diagnostic" {
+                    // Diagnostic hints concern the original, and rustc accepts
+                    // them on very few kinds of item.
+                    false
+                } else if *i.as_ref().unwrap() == "automatically_derived" {
+                    // It's only accepted on the original impl block
+                    false
                 } else if *i.as_ref().unwrap() == "inline" {
                     // No need to inline mock functions.
                     false
diff --git a/mockall_derive/src/mockable_struct.rs b/mockall_derive/src/mockable_struct.rs
index d19c8ba..38ea2bb 100644
--- a/mockall_derive/src/mockable_struct.rs
+++ b/mockall_derive/src/mockable_struct.rs
@@ -113,13 +113,20 @@ fn add_lifetime_parameters(sig: &mut Signature) {
 
 /// Generate a #[derive(Debug)] Attribute
 fn derive_debug() -> Attribute {
-    let ml = parse2(quote!(derive(Debug))).unwrap();
-    Attribute {
-        pound_token: <Token![#]>::default(),
-        style: AttrStyle::Outer,
-        bracket_token: token::Bracket::default(),
-        meta: Meta::List(ml)
-    }
+    parse_quote!(#[derive(Debug)])
+}
+
+/// Select those attributes of a trait or trait item which are also accepted on
+/// the corresponding impl block or impl item.
+fn impl_attrs(attrs: Vec<Attribute>) -> Vec<Attribute> {
+    attrs.into_iter()
+        .filter(|attr| {
+            let alias = attr.path().is_ident("doc") && match &attr.meta {
+                Meta::List(ml) => ml.tokens.to_string().starts_with("alias"),
+                _ => false
+            };
+            !alias && !attr.path().is_ident("deprecated")
+        }).collect()
 }
 
 /// Add "Mock" to the front of the named type
@@ -210,6 +217,11 @@ fn mockable_trait(trait_: ItemTrait, name: &Ident, generics: &Generics)
             }
         }
     }).collect::<Vec<_>>();
+    let mut attrs = impl_attrs(trait_.attrs.clone());
+    if trait_.attrs.iter().any(|attr| attr.path().is_ident("deprecated")) {
+        // The mock has to use the trait, deprecated or not.
+        attrs.push(parse_quote!(#[allow(deprecated)]));
+    }
     let mut trait_path = Path::from(trait_.ident);
     let mut struct_path = Path::from(name.clone());
     let (_, stg, _) = generics.split_for_impl();
@@ -227,7 +239,7 @@ fn mockable_trait(trait_: ItemTrait, name: &Ident, generics: &Generics)
         path: struct_path,
     }));
     ItemImpl {
-        attrs: trait_.attrs,
+        attrs,
         defaultness: None,
         unsafety: trait_.unsafety,
         impl_token: <Token![impl]>::default(),
@@ -263,7 +275,7 @@ fn tic2iic(tic: TraitItemConst, vis: &syn::Visibility) -> ImplItemConst {
         (<Token![=]>::default(), Expr::Verbatim(TokenStream::new()))
     });
     ImplItemConst {
-        attrs: tic.attrs,
+        attrs: impl_attrs(tic.attrs),
         vis: vis.clone(),
         defaultness: None,
         const_token: tic.const_token,
@@ -374,6 +386,7 @@ impl From<(Attrs, ItemTrait)> for MockableStruct {
         let mut attrs = AttrFormatter::new(&trait_.attrs)
             .doc(true)
             .async_trait(true)
+            .deprecated(false)
             .must_use(false)
             .format();
         attrs.push(derive_debug());
@@ -417,7 +430,7 @@ impl From<ItemImpl> for MockableStruct {
                 Ident::new("", Span::call_site())
             }
         };
-        let mut attrs = item_impl.attrs.clone();
+        let mut attrs = impl_attrs(item_impl.attrs.clone());
         attrs.push(derive_debug());
         let mut consts = Vec::new();
         let generics = item_impl.generics.clone();
-- 
2.43.0


From 61cf192d1fadf071d57ff68382716d78ca73d3ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:02:05 +0000
Subject: [PATCH 18/19] fix: replace anonymous lifetimes nested in return types

---
 mockall_derive/src/lib.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mockall_derive/src/lib.rs b/mockall_derive/src/lib.rs
index 0f9917f..b6fe183 100644
--- a/mockall_derive/src/lib.rs
+++ b/mockall_derive/src/lib.rs
@@ -256,13 +256,16 @@ fn deanonymize_path(path: &mut Path) {
             PathArguments::None => (),
             PathArguments::AngleBracketed(abga) => {
                 for ga in abga.args.iter_mut() {
-                    if let GenericArgument::Lifetime(lt) = ga {
-                        deanonymize_lifetime(lt)
+                    match ga {
+                        GenericArgument::Lifetime(lt) => deanonymize_lifetime(lt),
+                        GenericArgument::Type(ty) => deanonymize(ty),
+                        GenericArgument::AssocType(at) => deanonymize(&mut at.ty),
+                        _ => ()
                     }
                 }
             },
-            _ => compile_error(seg.arguments.span(),
-                "Methods returning functions are TODO"),
+            // The anonymous lifetimes in a function's signature are its own
+            PathArguments::Parenthesized(_) => ()
         }
     }
 }
@@ -271,14 +274,8 @@ fn deanonymize_path(path: &mut Path) {
 fn deanonymize(literal_type: &mut Type) {
     match literal_type {
         Type::Array(ta) => deanonymize(ta.elem.as_mut()),
-        Type::BareFn(tbf) => {
-            if let ReturnType::Type(_, ref mut bt) = tbf.output {
-                deanonymize(bt.as_mut());
-            }
-            for input in tbf.inputs.iter_mut() {
-                deanonymize(&mut input.ty);
-            }
-        },
+        // The anonymous lifetimes in a function's signature are its own
+        Type::BareFn(_) => (),
         Type::Group(tg) => deanonymize(tg.elem.as_mut()),
         Type::Infer(_) => (),
         Type::Never(_) => (),
-- 
2.43.0


From 23257f7178d1d8af22cb93d17e019b491359fadf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:11:46 +0000
Subject: [PATCH 19/19] fix: don't warn about private items of mocked modules

---
 mockall_derive/src/mock_item.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mockall_derive/src/mock_item.rs b/mockall_derive/src/mock_item.rs
index b88c662..573d99d 100644
--- a/mockall_derive/src/mock_item.rs
+++ b/mockall_derive/src/mock_item.rs
@@ -54,6 +54,12 @@ pub(crate) struct MockItemModule {
     content: Vec<MockItemContent>
 }
 
+/// Emit an item that may only be used by the bodies of the original module's
+/// functions, which don't exist in the mock module.
+fn maybe_unused(item: impl ToTokens) -> TokenStream {
+    quote!(#[allow(dead_code)] #item)
+}
+
 impl From<MockableModule> for MockItemModule {
     fn from(mod_: MockableModule) -> MockItemModule {
         let mock_ident = mod_.mock_ident.clone();
@@ -68,12 +74,12 @@ impl From<MockableModule> for MockItemModule {
                 },
                 Item::Static(is) => {
                     content.push(
-                        MockItemContent::Tokens(is.into_token_stream())
+                        MockItemContent::Tokens(maybe_unused(is))
                     );
                 },
                 Item::Const(ic) => {
                     content.push(
-                        MockItemContent::Tokens(ic.into_token_stream())
+                        MockItemContent::Tokens(maybe_unused(ic))
                     );
                 },
                 Item::Fn(f) => {
@@ -139,7 +145,7 @@ impl From<MockableModule> for MockItemModule {
                 },
                 Item::Type(ty) => {
                     content.push(
-                        MockItemContent::Tokens(ty.into_token_stream())
+                        MockItemContent::Tokens(maybe_unused(ty))
                     );
                 },
                 Item::TraitAlias(ta) => {
-- 
2.43.0

