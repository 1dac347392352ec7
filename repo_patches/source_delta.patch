From ceaffaf16eaeb4fa90e259117d60a33fdbca0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 01/12] fix: LengthData: return Incomplete instead of panicking
 on truncated data

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..481c0b2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From 3eddc906e49cf5fe76820628f586630f82b903b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 02/12] fix: Move, MoveAbs: no overflow on extreme offsets,
 exact Needed

---
 nom-derive-impl/src/structs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..5eecb88 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -299,18 +299,19 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset = #offset as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
                 }
                 pos - offset_u
             } else {
-                if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
-                }
+                // both values fit in an isize: the sum cannot overflow
                 pos + offset_u
             };
+            if new_offset > #orig_input.len() {
+                return Err(nom::Err::Incomplete(nom::Needed::new(new_offset - #orig_input.len())));
+            }
             &#orig_input[new_offset..]
         };
     }
@@ -324,7 +325,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let offset = #offset as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
             &#orig_input[offset..]
         };
-- 
2.43.0


From 5287ea89eb6726a394b6be75452e519dce54cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 03/12] fix: Move, Align: do not shadow fields used in the
 directive expression

---
 nom-derive-impl/src/structs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 5eecb88..4d123ab 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -282,8 +282,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            // evaluate user expression first: it may refer to a field named like the variables below
             let align = #align as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -296,9 +297,10 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            // evaluate user expression first: it may refer to a field named like the variables below
+            let offset = #offset as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From 4577b2d7abc6e4ab39f3cd73063dafde75b4bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 04/12] fix: Verify: expression starting with a literal is a
 predicate, not a map

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 4d123ab..cab3a2d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -250,7 +250,11 @@ fn get_parser(
                 let ts_arg = meta.arg().unwrap();
                 if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
                     let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
+                    return Ok(ParserExpr::Verify(
+                        Box::new(expr),
+                        ident.clone(),
+                        ts_arg.to_token_stream(),
+                    ));
                 }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
-- 
2.43.0


From 21ff5e55b0fc9304164a92c0cbb7cf8040bc4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 05/12] fix: parenthesize user expressions before casting them

---
 nom-derive-impl/src/parsertree.rs | 4 ++--
 nom-derive-impl/src/structs.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..38b8faf 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -171,7 +171,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&#s[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index cab3a2d..538afba 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -287,7 +287,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             // evaluate user expression first: it may refer to a field named like the variables below
-            let align = #align as usize;
+            let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
@@ -302,7 +302,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let #input = {
             // evaluate user expression first: it may refer to a field named like the variables below
-            let offset = #offset as isize;
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset_u = offset.unsigned_abs();
@@ -329,7 +329,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
@@ -342,7 +342,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 11e49a5b3550b4cfbe5fe7bbb5a4997ad8884dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 06/12] fix: selector enums: moving the default variant last
 keeps the order of the others

---
 nom-derive-impl/src/gen/enums.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..0db0ad3 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -213,8 +213,9 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // keep the order of other variants
+                let default_code = variants_code.remove(pos);
+                variants_code.push(default_code);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From 0661189deeb0ec7e96a8e1a78990e79fb9de60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 07/12] fix: SetEndian on a field also applies to the following
 fields

---
 nom-derive-impl/src/structs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 538afba..850214c 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -415,7 +415,7 @@ pub(crate) fn get_pre_post_exec(
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
                 let qq = quote! { let __endianness = #val; };
-                // config is updated in `get_parser`
+                // config is updated in `parse_fields`
                 tk_pre.extend(qq);
             }
             _ => (),
@@ -450,6 +450,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // `SetEndian` on a field also affects the following fields
+    let saved_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -458,6 +460,9 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -484,6 +489,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = saved_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 9a68d10f6f60ae0935c91955ccdca470125fe9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 08/12] fix: Complete at top level also covers Skip/Align/Move
 directives, unit variants and fieldless enums

---
 nom-derive-impl/src/enums.rs               |  5 +++-
 nom-derive-impl/src/gen/fieldless_enums.rs |  7 +++--
 nom-derive-impl/src/structs.rs             | 32 +++++++++++++++++++---
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..1315582 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -36,7 +36,10 @@ pub(crate) fn parse_variant(
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
-        let p = p.unwrap_or(ParserExpr::Nop);
+        let mut p = p.unwrap_or(ParserExpr::Nop);
+        if config.complete {
+            p = p.complete();
+        }
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
         let sp = StructParser::new("_".to_string(), item, pre, post);
         struct_def.parsers.push(sp);
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..3c81d92 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -70,12 +70,15 @@ impl Generator for GenFieldlessEnum {
         let input = Ident::new(self.config.input_name(), Span::call_site());
         let (tl_pre, tl_post) = (&self.tl_pre, &self.tl_post);
         let variants_code = &self.variants_code;
-        let parser = &self.repr_parser.with_endianness(endianness);
+        let mut parser = self.repr_parser.with_endianness(endianness);
+        if self.config.complete {
+            parser = parser.complete();
+        }
         // generate body
         let tokens = quote! {
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = nom::Parser::parse(&mut #parser, #input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 850214c..ec57598 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -284,21 +284,43 @@ fn get_field_parser(field: &Field, meta_list: &[MetaAttr], config: &Config) -> R
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), align.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let take = quote_take(&Ident::new("align", Span::call_site()), &input, config);
     quote! {
         let (#input, _) = {
             // evaluate user expression first: it may refer to a field named like the variables below
             let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
-            nom::bytes::streaming::take(align)(#input)
+            #take
         }?;
     }
 }
 
+// skip `count` bytes, taking the `Complete` top-level attribute into account
+fn quote_take(count: &Ident, input: &Ident, config: &Config) -> TokenStream {
+    if config.complete {
+        quote! {
+            nom::Parser::parse(&mut nom::combinator::complete(nom::bytes::streaming::take(#count)), #input)
+        }
+    } else {
+        quote! { nom::bytes::streaming::take(#count)(#input) }
+    }
+}
+
+// error to return when `needed` bytes are missing, taking the `Complete` top-level attribute into account
+fn quote_incomplete(needed: TokenStream, input: &Ident, config: &Config) -> TokenStream {
+    if config.complete {
+        quote! { nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Complete)) }
+    } else {
+        quote! { nom::Err::Incomplete(nom::Needed::new(#needed)) }
+    }
+}
+
 // like quote_skip, but offset is an isize
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let incomplete = quote_incomplete(quote! { new_offset - #orig_input.len() }, &input, config);
     quote! {
         let #input = {
             // evaluate user expression first: it may refer to a field named like the variables below
@@ -316,7 +338,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 pos + offset_u
             };
             if new_offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(new_offset - #orig_input.len())));
+                return Err(#incomplete);
             }
             &#orig_input[new_offset..]
         };
@@ -327,11 +349,12 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), offset.span());
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let incomplete = quote_incomplete(quote! { offset - #orig_input.len() }, &input, config);
     quote! {
         let #input = {
             let offset = (#offset) as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
+                return Err(#incomplete);
             }
             &#orig_input[offset..]
         };
@@ -340,10 +363,11 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
+    let take = quote_take(&Ident::new("skip", Span::call_site()), &input, config);
     quote! {
         let (#input, _) = {
             let skip = (#skip) as usize;
-            nom::bytes::streaming::take(skip)(#input)
+            #take
         }?;
     }
 }
-- 
2.43.0


From eda1678a72482fffe0f5049ccbc921719a0aa451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 09/12] fix: AlignBefore/AlignAfter with a run-time value of 0
 do not panic

---
 nom-derive-impl/src/structs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ec57598..00eb13d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -290,7 +290,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
             // evaluate user expression first: it may refer to a field named like the variables below
             let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = ((align - (offset % align)) % align);
+            // 0, like 1, means that there is no constraint
+            let align = if align == 0 { 0 } else { (align - (offset % align)) % align };
             #take
         }?;
     }
-- 
2.43.0


From 7669e22dcccc7d4b4415ac3f2e890d446eaf47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 10/12] fix: Debug: accept fields parsed by a combinator

---
 nom-derive-impl/src/parsertree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 38b8faf..7abb390 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,8 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                // `dbg_dmp` only accepts functions, while most combinators are only a `Parser`
+                quote! { nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident) }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From 880d570f1bf60588f0754b4e364a50c4671251a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 11/12] fix: Selector: the string form accepts what the
 parenthesised form does

---
 nom-derive-impl/src/meta/attr.rs | 35 +++-----------------------------
 1 file changed, 3 insertions(+), 32 deletions(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..fc495bd 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -5,7 +5,7 @@ use quote::ToTokens;
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token};
+use syn::{Expr, ExprLit, FnArg, Ident, Lit, Meta, Stmt, Token};
 
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub enum MetaAttrType {
@@ -236,7 +236,8 @@ impl TryFrom<&'_ Meta> for MetaAttr {
                     quote! { #fields }
                 }
                 MetaAttrType::PreExec | MetaAttrType::PostExec => parse_meta_content::<Stmt>(meta)?,
-                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)?,
+                // a type (top-level), or a pattern and an optional guard (variants)
+                MetaAttrType::Selector => parse_meta_content::<TokenStream>(meta)?,
                 _ => parse_meta_content::<Expr>(meta)?,
             };
             Some(token_stream)
@@ -295,33 +296,3 @@ where
         }
     }
 }
-
-#[derive(Debug)]
-struct PatternAndGuard {
-    pat: syn::Pat,
-    guard: Option<(token::If, Box<syn::Expr>)>,
-}
-
-impl Parse for PatternAndGuard {
-    fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
-        let guard = if input.peek(Token![if]) {
-            let tk_if: Token![if] = input.parse()?;
-            let expr: syn::Expr = input.parse()?;
-            Some((tk_if, Box::new(expr)))
-        } else {
-            None
-        };
-        Ok(PatternAndGuard { pat, guard })
-    }
-}
-
-impl quote::ToTokens for PatternAndGuard {
-    fn to_tokens(&self, tokens: &mut TokenStream) {
-        self.pat.to_tokens(tokens);
-        if let Some((tk_if, expr)) = &self.guard {
-            tk_if.to_tokens(tokens);
-            expr.to_tokens(tokens);
-        }
-    }
-}
-- 
2.43.0


From fa08f79e8778c9fe22be13bcb39c56434238a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:25 +0000
Subject: [PATCH 12/12] fix: lifetime parameters with bounds

---
 nom-derive-impl/src/gen/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..d5809ef 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -151,7 +151,8 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        // use names only: the bounds (`'b: 'a`) are not valid here
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0

