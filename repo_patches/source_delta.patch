From 7515f5d527ac390a3dbb8be165e921f35f4811ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 1/7] fix: select the AVX2 escape routine only if AVX2 is
 present and enabled by the OS

---
 laby_common/src/internal/escape.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..091445f 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -95,6 +95,10 @@ pub fn escape(feed: &str, buf: &mut Buffer) {
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 fn escape_impl(feed: &str, buf: &mut Buffer) {
+    #[cfg(target_arch = "x86")]
+    use core::arch::x86::_xgetbv;
+    #[cfg(target_arch = "x86_64")]
+    use core::arch::x86_64::_xgetbv;
     use core::sync::atomic::{AtomicPtr, Ordering};
 
     type FnRaw = *mut ();
@@ -102,9 +106,19 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
 
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
-        let fun = if let Some(features) = features {
-            if features.has_avx() {
+        let cpuid = raw_cpuid::CpuId::new();
+        let fun = if let Some(features) = cpuid.get_feature_info() {
+            let has_avx2 = cpuid
+                .get_extended_feature_info()
+                .map_or(false, |features| features.has_avx2());
+
+            // AVX2 instructions may be used only if the OS enabled the XMM and YMM state (XCR0
+            // bits 1 and 2); XGETBV may be used only if OSXSAVE is set.
+            if has_avx2
+                && features.has_avx()
+                && features.has_oxsave()
+                && unsafe { _xgetbv(0) } & 0b110 == 0b110
+            {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From 1e513c0f6dae602bb9e3f0bc8413606415f728f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 2/7] fix: refuse Buffer::reserve requests above isize::MAX in
 every build profile

---
 laby_common/src/internal/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..cb7200b 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -228,8 +228,12 @@ impl Buffer {
 
     #[inline]
     fn reserve_internal(&mut self, size: usize) {
-        debug_assert!(size <= core::isize::MAX as usize);
+        assert!(
+            size <= core::isize::MAX as usize,
+            "capacity is too large"
+        );
 
+        // neither operation overflows because `self.capacity` never exceeds isize::MAX
         let new_capacity = core::cmp::max(self.capacity * 2, self.capacity + size);
         debug_assert!(new_capacity > self.capacity);
         self.data = unsafe { safe_realloc(self.data, self.capacity, new_capacity) };
-- 
2.43.0


From f19b6d579b6e2b16639d4924009202c12c0cce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 3/7] fix: stop rendering a delimited iterator at its first end

---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From f0c0d5cdced92a0c225f5f25eb1d2e2c31ba6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 4/7] fix: render float literals according to their type suffix

---
 laby_macros/src/build.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..3c813fb 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,15 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                "f64" => render!(v.base10_parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From 54485f612d1c728841f2ff5d8edfdee350b0be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 5/7] fix: render raw identifiers in attribute names without
 the r# prefix

---
 laby_macros/src/build.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 3c813fb..06b7f9f 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,7 +14,7 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
     ExprLit, Lit, Stmt,
 };
 
@@ -189,7 +189,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
     {
         node.render.push_str(value);
     } else {
@@ -225,7 +225,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
             {
                 node.render.push_str(value);
             } else {
@@ -239,7 +239,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From 84472a4009523fe9a1c91bc5e3712eea8c4dca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 6/7] fix: frag_match! names Option's variants by full path

A None or Some imported into the caller's scope was picked up by the
expansion, so that an if or match over such a type did not compile.
---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0


From 3c7dc2b26cfad2f4fe06ab9b16d02fb73758e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 7/7] fix: components with a where clause can be called

The clause was part of the signature that is handed to the call macro and
took the comma behind it, so that every call failed to parse.
---
 laby_macros/src/component.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..323907f 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,7 +26,9 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
+    // a trailing where clause would take the comma that separates the signature from the arguments
+    func_sig.generics.where_clause = None;
     let func_name = func_sig.ident.clone();
 
     for arg in func.sig.inputs.iter_mut() {
-- 
2.43.0

