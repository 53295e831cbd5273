From 63977d9b74f41ce4b8d66b4c86a279777ac2e7ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 01/43] fix: size of collections uses the byte length for the
 prefix

The length prefix of vectors, maps, sets and arrays counts the encoded
bytes, not the elements. Calculating it from the element count gave a
wrong size, which corrupts collections nested in other collections.
---
 crates/mabo/src/buf/size.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..f74bc79 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,18 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Calculate the size of a value that is prefixed by its length in bytes.
+#[inline]
+const fn size_prefixed(len: usize) -> usize {
+    size_u64(len as u64) + len
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_prefixed(vec.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +88,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +100,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_prefixed(set.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +116,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_prefixed(array.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From 4b7547fa745bd3a5adf3ed533332af536dac1e75 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 02/43] fix: decoding a too short array payload is an error

A payload with less elements than the array, or an array of elements
that don't take any space, reached the unwrap of a Vec with too few
elements and panicked.
---
 crates/mabo/src/buf/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..17b9cde 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -274,7 +274,8 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() && vec.len() < N {
+    // decoding fails if the data ends before all elements are present.
+    while vec.len() < N {
         vec.push(decode(&mut r)?);
     }
 
-- 
2.43.0


From b92de4cd005e888902b77b050493c1027e1a5d06 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 03/43] fix: decode varint integers in segmented buffers

Only the first chunk of the buffer was considered, so that an integer
spread over two chunks of a non-contiguous buffer was rejected.
---
 crates/mabo/src/buf/decode.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 17b9cde..bcffc3a 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -83,6 +83,24 @@ pub fn decode_i8(r: &mut impl Buf) -> Result<i8> {
     Ok(r.get_i8())
 }
 
+/// Collect the bytes of a single _Varint_ that is spread over several chunks of the buffer.
+#[cold]
+fn collect_varint(r: &mut impl Buf) -> ([u8; 19], usize) {
+    let mut buf = [0; 19];
+    let mut len = 0;
+
+    while len < buf.len() && r.has_remaining() {
+        buf[len] = r.get_u8();
+        len += 1;
+
+        if buf[len - 1] & 0x80 == 0 {
+            break;
+        }
+    }
+
+    (buf, len)
+}
+
 macro_rules! decode_int {
     ($ty:ty) => {
         paste::paste! {
@@ -93,9 +111,19 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
-                Ok(value)
+                let chunk = r.chunk();
+                match varint::[<decode_ $ty>](chunk) {
+                    Ok((value, consumed)) => {
+                        r.advance(consumed);
+                        Ok(value)
+                    }
+                    Err(_) if chunk.len() < r.remaining() => {
+                        let (buf, len) = collect_varint(r);
+                        let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
+                        Ok(value)
+                    }
+                    Err(e) => Err(e.into()),
+                }
             }
         }
     };
-- 
2.43.0


From 0c4151d690ac701f2c20d7036f7eb13d91506473 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 04/43] fix: type paths that start like a built-in type name

---
 crates/mabo-parser/src/parser/types.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a905dc9..a37eeab 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -4,7 +4,7 @@ use mabo_derive::{ParserError, ParserErrorCause};
 use winnow::{
     Parser,
     ascii::{dec_uint, space0},
-    combinator::{alt, cut_err, empty, fail, opt, preceded, repeat},
+    combinator::{alt, cut_err, empty, fail, not, opt, peek, preceded, repeat, terminated},
     dispatch,
     stream::Location,
     token::{literal, one_of, take_while},
@@ -70,7 +70,11 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Type<'i>, ParseError> {
 fn parse_basic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     alt((
         dispatch! {
-            take_while(2.., ('a'..='z', '0'..='9', '&'));
+            // Must not be the beginning of a longer path segment like `u8_ext::Sample`.
+            terminated(
+                take_while(2.., ('a'..='z', '0'..='9', '&')),
+                not(one_of(['_', ':'])),
+            );
             "bool" => empty.value(DataType::Bool),
             "u8" => empty.value(DataType::U8),
             "u16" => empty.value(DataType::U16),
@@ -128,7 +132,8 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     }
 
     dispatch! {
-        take_while(3.., ('a'..='z', '_')).with_span();
+        // Must be followed by type arguments, otherwise it's a path segment like `vec2::Sample`.
+        terminated(take_while(3.., ('a'..='z', '_')).with_span(), peek('<'));
         ("vec", ref span) => parse_single(|angle, ty| DataType::Vec {
                 span: span.into(),
                 angle,
-- 
2.43.0


From 73cede765c5104d39299423a004b303a9c592c46 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/43] fix: parse nested lists in linear time

---
 crates/mabo-parser/src/parser.rs          | 49 ++++++++---------------
 crates/mabo-parser/src/parser/enums.rs    |  6 +--
 crates/mabo-parser/src/parser/fields.rs   | 16 ++++----
 crates/mabo-parser/src/parser/generics.rs | 19 ++++-----
 crates/mabo-parser/src/parser/types.rs    | 22 ++++------
 5 files changed, 41 insertions(+), 71 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index df19d26..97ef09a 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -216,56 +216,39 @@ where
     trace("ws", preceded(multispace0, inner))
 }
 
-pub fn punctuate<I, O, P, E, F, G>(mut f: F, mut g: G) -> impl ModalParser<I, Punctuated<O, P>, E>
+/// Parse a non-empty list of items, each of them followed by its (for the last one optional)
+/// punctuation.
+///
+/// Every item is parsed only once, as re-parsing would take exponential time on nested lists.
+pub fn punctuate<I, O, P, E, F>(mut f: F) -> impl ModalParser<I, Punctuated<O, P>, E>
 where
     I: Stream,
+    P: Copy,
     E: ParserError<I>,
-    F: ModalParser<I, (O, P), E>,
-    G: ModalParser<I, (O, Option<P>), E>,
+    F: ModalParser<I, (O, Option<P>), E>,
 {
     trace("punctuate", move |i: &mut I| {
         let mut values = Vec::new();
-        let mut start_prev = None;
+        let (mut value, mut punctuation) = f.parse_next(i)?;
 
-        loop {
+        while let Some(punct) = punctuation {
             let start = i.checkpoint();
-            let len = i.eof_offset();
 
             match f.parse_next(i) {
-                Ok((o, range)) => {
-                    if i.eof_offset() == len {
-                        return Err(ErrMode::assert(i, "`repeat` parsers must always consume"));
-                    }
-
-                    values.push((o, range));
-                    start_prev = Some(start);
+                Ok(next) => {
+                    values.push((value, punct));
+                    (value, punctuation) = next;
                 }
+                // No further item, so the previous one was the last, with trailing punctuation.
                 Err(ErrMode::Backtrack(_)) => {
                     i.reset(&start);
-                    let (o, range) = match g.parse_next(i) {
-                        Ok(o) => Ok(o),
-                        // Both parsers failed. Lets undo the last successful action from the first
-                        // parser and redo it with the second one to get the last value.
-                        //
-                        // Technically we could just take the parsed data from the first parser and
-                        // transform it, but there is no guarantee that the parsers are similar
-                        // enough to do this transformation.
-                        Err(ErrMode::Backtrack(e)) => {
-                            if let Some(start) = start_prev {
-                                values.pop();
-                                i.reset(&start);
-                                g.parse_next(i)
-                            } else {
-                                Err(ErrMode::Backtrack(e))
-                            }
-                        }
-                        Err(e) => Err(e),
-                    }?;
-                    return Ok(Punctuated::new(values, (o, range)));
+                    break;
                 }
                 Err(e) => return Err(e),
             }
         }
+
+        Ok(Punctuated::new(values, (value, punctuation)))
     })
 }
 
diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..d1770dc 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -127,11 +127,7 @@ pub(super) fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
 fn parse_variants<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<Variant<'i>>), Cause> {
-    surround(punctuate(
-        (parse_variant, ws(token::Comma::parser())),
-        (parse_variant, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate((parse_variant, opt(ws(token::Comma::parser()))))).parse_next(input)
 }
 
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..0e42707 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -91,20 +91,20 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
 fn parse_named<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<NamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_named_field, ws(token::Comma::parser())),
-        (parse_named_field, opt(ws(token::Comma::parser()))),
-    ))
+    surround(punctuate((
+        parse_named_field,
+        opt(ws(token::Comma::parser())),
+    )))
     .parse_next(input)
 }
 
 fn parse_unnamed<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Parenthesis, Punctuated<UnnamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_unnamed_field, ws(token::Comma::parser())),
-        (parse_unnamed_field, opt(ws(token::Comma::parser()))),
-    ))
+    surround(punctuate((
+        parse_unnamed_field,
+        opt(ws(token::Comma::parser())),
+    )))
     .parse_next(input)
 }
 
diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 6a6c67a..29eb7a6 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -43,18 +43,15 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Generics<'i>, ParseError> {
-    surround(punctuate(
-        (ws(parse_name), ws(token::Comma::parser())),
-        (ws(parse_name), opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
-    .map(|(angle, types)| Generics { angle, types })
-    .map_err(|e| {
-        e.map(|cause| ParseError {
-            at: input.current_token_start()..input.current_token_start(),
-            cause,
+    surround(punctuate((ws(parse_name), opt(ws(token::Comma::parser())))))
+        .parse_next(input)
+        .map(|(angle, types)| Generics { angle, types })
+        .map_err(|e| {
+            e.map(|cause| ParseError {
+                at: input.current_token_start()..input.current_token_start(),
+                cause,
+            })
         })
-    })
 }
 
 fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a37eeab..8d0ae95 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -167,13 +167,10 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
 }
 
 fn parse_tuple<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
-    surround(punctuate(
-        (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-        (
-            ws(parse.map_err2(Cause::from)),
-            opt(ws(token::Comma::parser())),
-        ),
-    ))
+    surround(punctuate((
+        ws(parse.map_err2(Cause::from)),
+        opt(ws(token::Comma::parser())),
+    )))
     .parse_next(input)
     .map(|(paren, types)| DataType::Tuple { paren, types })
 }
@@ -204,13 +201,10 @@ fn parse_external<'i>(input: &mut Input<'i>) -> Result<ExternalType<'i>, Cause>
         ))
         .map(Option::unwrap_or_default),
         parse_external_name,
-        opt(surround(punctuate(
-            (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-            (
-                ws(parse.map_err2(Cause::from)),
-                opt(ws(token::Comma::parser())),
-            ),
-        ))),
+        opt(surround(punctuate((
+            ws(parse.map_err2(Cause::from)),
+            opt(ws(token::Comma::parser())),
+        )))),
     )
         .parse_next(input)
         .map(|(path, name, generics)| {
-- 
2.43.0


From 978136026d27359ba563d7d1f932296c931588f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 06/43] fix: check the types within non_zero

---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..bb16881 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -473,12 +473,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From 8489e6cab987d51f7300b2c74c2681c8255365ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 07/43] fix: look up imported types in the submodule they name

---
 crates/mabo-compiler/src/resolve/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index bb16881..a3b5597 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,23 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
+        // The first segment might be the imported module itself, the rest are its submodules.
+        let skip = usize::from(
+            ty.path
+                .first()
+                .is_some_and(|(first, _)| first.get() == self.name),
+        );
+        let module = ty
             .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
+            .iter()
+            .skip(skip)
+            .try_fold(self, |module, (name, _)| {
                 module.modules.get(name.get()).ok_or_else(|| MissingModule {
                     name: name.get().to_owned(),
                     path: module.path_to_string(),
                     used: ty.name.span().into(),
                 })
-            })?
-        };
+            })?;
 
         let definition = module
             .types
-- 
2.43.0


From 45d3735622518f0e17f5c01a7da16385a240b738 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 08/43] fix: derive IDs after the highest possible ID without
 overflow

---
 crates/mabo-compiler/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..1de092a 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,8 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        // At the upper limit this repeats the last ID, which is then rejected as duplicate.
+        self.next_id = id.saturating_add(1);
         id
     }
 
-- 
2.43.0


From 4adcbd4642f42e187e200192f71e2d7b01dc7142 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 09/43] fix: wire size of arrays uses the byte length for the
 prefix

---
 crates/mabo-meta/src/lib.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..a7f24c9 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -145,7 +145,7 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner.as_ref().and_then(|size| size.max).map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -154,7 +154,7 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner.as_ref().and_then(|size| size.max).map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -167,20 +167,28 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
 
+    // The length prefix contains the amount of bytes, not the amount of elements.
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size as usize);
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .map(|max| max.saturating_mul(size as usize));
+    let length = WireSize::range(
+        "u64",
+        varint_size(min),
+        max.map_or_else(|| varint_size(usize::MAX), varint_size),
+    );
+
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
-        inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
-            ("element".into(), inner),
-        ],
+        min: min.saturating_add(length.min),
+        max: max.map(|max| max.saturating_add(varint_size(max))),
+        inner: vec![("length".into(), Some(length)), ("element".into(), inner)],
     }
 }
 
@@ -206,6 +214,6 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+fn varint_size(value: usize) -> usize {
+    ((std::mem::size_of::<usize>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
 }
-- 
2.43.0


From 25251fab820de00ba407e0385e319bbfaa34cea1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 10/43] fix: next ID after the highest possible one without
 overflow

---
 crates/mabo-meta/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index a7f24c9..ba4fb67 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -10,7 +10,12 @@ use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .saturating_add(1)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -26,7 +31,7 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
                 .map(|field| field.id)
                 .max()
                 .unwrap_or(0)
-                + 1,
+                .saturating_add(1),
         )
     }
 }
-- 
2.43.0


From ff6238219f675c4f4cfe6eb42ce22755c5df8e13 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 11/43] fix: keep float literals parsable when formatting

---
 crates/mabo-parser/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..eb32d52 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,7 +1266,11 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
-            Self::Float(v) => v.fmt(f),
+            // The fraction is mandatory in a schema, even in exponential notation.
+            Self::Float(v) => match format!("{v:?}") {
+                s if s.contains('.') => f.write_str(&s),
+                s => f.write_str(&s.replacen('e', ".0e", 1)),
+            },
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
         }
-- 
2.43.0


From 571a0ad9caa96d6a7520d8f9ddf89029f5541298 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 12/43] fix: parse the escaped NUL character in strings

---
 crates/mabo-parser/src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..a0af750 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -195,7 +195,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From 5e35c0ced8ac57f695efde6923c2c96996b3b2c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 13/43] fix: parse unit structs at the very end of the schema

---
 crates/mabo-parser/src/parser/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 0e42707..a4d7af1 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -74,9 +74,9 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
     let start = input.checkpoint();
 
     dispatch!(
-        peek(any);
-        '{' => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
-        '(' => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
+        opt(peek(any));
+        Some('{') => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
+        Some('(') => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
         _ => parse_unit.map(|()| Fields::Unit),
     )
     .parse_next(input)
-- 
2.43.0


From 1ab9fc1011eabf00db2ea5a13f30c281b2df07fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 14/43] fix: accept existing types that are referenced through
 an imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index a3b5597..1a80b2c 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -600,5 +600,5 @@ pub(crate) fn resolve_type_remotely(
         .into());
     }
 
-    Err(ty.error.into())
+    Ok(())
 }
-- 
2.43.0


From 9cbd646e4da0913e18c4f1413b2308f6ebace28a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 15/43] fix: resolve the types of aliases and constants

---
 crates/mabo-compiler/src/resolve/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 1a80b2c..7d2bee8 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -379,7 +379,11 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
-            _ => {}
+            Definition::TypeAlias(a) => {
+                resolve(missing, &a.target, a.generics.as_ref(), module);
+            }
+            Definition::Const(c) => resolve(missing, &c.ty, None, module),
+            Definition::Module(_) | Definition::Import(_) => {}
         }
     }
 
-- 
2.43.0


From 079afaf9a99f38e13d4f193580b8882181421a5d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 16/43] fix: show the declaration of an invalid import in its
 own schema

---
 crates/mabo-compiler/src/resolve/error.rs |  8 +++++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 22 +++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 7d2bee8..29b63fa 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -204,16 +204,20 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
-                    kind: "alias",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
-                }
-                .into()),
-                DeclarationKind::Const => Err(InvalidKind {
-                    kind: "const",
-                    declared: definition.name.span().into(),
+                DeclarationKind::Alias | DeclarationKind::Const => Err(RemoteInvalidKind {
+                    kind: definition.kind.as_str(),
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: definition.kind.as_str(),
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
-- 
2.43.0


From 1b769fd92f63bb2d5837534968d211a246ab1255 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 17/43] fix: don't overflow when adding up the wire size of
 huge tuples

---
 crates/mabo-meta/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index ba4fb67..24e301b 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -209,12 +209,10 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
         min: inner
             .iter()
             .filter_map(|(_, size)| size.as_ref())
-            .map(|size| size.min)
-            .sum(),
-        max: inner
-            .iter()
-            .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .fold(0, |min, size| min.saturating_add(size.min)),
+        max: inner.iter().try_fold(0_usize, |max, (_, size)| {
+            Some(max.saturating_add(size.as_ref()?.max?))
+        }),
         inner,
     }
 }
-- 
2.43.0


From 475e4a82e8dd226a1dcdfa2b99e88e76119b945a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 18/43] fix: show float constants as floats in the
 documentation

---
 crates/mabo-doc/src/templates.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-doc/src/templates.rs b/crates/mabo-doc/src/templates.rs
index 9700b80..9b4fc13 100644
--- a/crates/mabo-doc/src/templates.rs
+++ b/crates/mabo-doc/src/templates.rs
@@ -345,7 +345,11 @@ impl Display for PrintLiteral<'_> {
         match self.0 {
             Literal::Bool(v) => v.fmt(f),
             Literal::Int(v) => v.fmt(f),
-            Literal::Float(v) => v.fmt(f),
+            // The fraction is mandatory in a schema, even in exponential notation.
+            Literal::Float(v) => match format!("{v:?}") {
+                s if s.contains('.') => f.write_str(&s),
+                s => f.write_str(&s.replacen('e', ".0e", 1)),
+            },
             Literal::String(v) => write!(f, "{v:?}"),
             Literal::Bytes(v) => write!(f, "{v:?}"),
         }
-- 
2.43.0


From f49a6716b54e07c937bd463e0b17c5eb3022c6d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 19/43] fix: don't take directories for schema files of a
 project

---
 crates/mabo-project/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 5956681..1222401 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -205,7 +205,10 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
             .strip_prefix(base)
             .map_err(Error::StripPrefix)?;
 
-        if patterns.is_match(path) && path.extension().is_some_and(|ext| ext == "mabo") {
+        if entry.file_type().is_some_and(|ty| ty.is_file())
+            && patterns.is_match(path)
+            && path.extension().is_some_and(|ext| ext == "mabo")
+        {
             files.push(entry.into_path());
         }
     }
-- 
2.43.0


From ad479c41f4f2c93f3d5beb79b4390967fe9cf516 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 20/43] fix: borrow the elements of tuples before using them in
 generated code

---
 crates/mabo-build/src/encode.rs |  8 +++-----
 crates/mabo-build/src/size.rs   | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..94c75cb 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -2,7 +2,7 @@ use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Vari
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, size::tuple_element};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -320,15 +320,13 @@ fn compile_data_type(
         Type::Tuple(types) => match types.len() {
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    compile_data_type(opts, ty, tuple_element(ty, &name, idx), false).1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
                         let size = types.iter().enumerate().map(|(idx, ty)| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
+                            super::size::compile_data_type(opts, ty, tuple_element(ty, &name, idx))
                         });
 
                         quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..a81d986 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -243,10 +243,10 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         },
         Type::Tuple(types) => match types.len() {
             2..=12 => {
-                let types = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
-                });
+                let types = types
+                    .iter()
+                    .enumerate()
+                    .map(|(idx, ty)| compile_data_type(opts, ty, tuple_element(ty, &name, idx)));
                 quote! { #(#types)+* }
             }
             n => todo!("compiler should catch invalid tuple with {n} elements"),
@@ -260,3 +260,17 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         }
     }
 }
+
+/// Expression that borrows a single element of a tuple.
+///
+/// Parenthesized for types that continue with the expression (like calling a method on it), so that
+/// the borrow isn't applied to the result of that instead.
+pub(crate) fn tuple_element(ty: &Type<'_>, name: &TokenStream, idx: usize) -> TokenStream {
+    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
+
+    if matches!(ty, Type::Option(_) | Type::NonZero(_) | Type::Tuple(_)) {
+        quote! { (&#name.#idx) }
+    } else {
+        quote! { &#name.#idx }
+    }
+}
-- 
2.43.0


From e479413fb395bd4cfae149d23644db83bb26440e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 21/43] fix: decode recursive data types without infinitely
 nested buffer types

---
 crates/mabo/src/buf/decode.rs | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index bcffc3a..8b4b9e9 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -45,6 +45,14 @@ pub enum Error {
 /// Special field identifier that marks the end of a struct or enum variant.
 pub const END_MARKER: u32 = 0;
 
+/// Limit the buffer to the given length.
+///
+/// The type of the buffer is erased, as it would otherwise grow with each level of nesting, and thus
+/// become infinite for recursive data types.
+fn take<R: Buf>(r: &mut R, len: u64) -> bytes::buf::Take<&mut dyn Buf> {
+    (r as &mut dyn Buf).take(len as usize)
+}
+
 macro_rules! ensure_size {
     ($r:ident, $size:expr) => {
         if $r.remaining() < $size {
@@ -198,13 +206,13 @@ pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
 pub fn decode_vec<R, T, D>(r: &mut R, decode: D) -> Result<Vec<T>>
 where
     R: Buf,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         vec.push(decode(&mut r)?);
@@ -227,14 +235,14 @@ pub fn decode_hash_map<R, K, V, DK, DV>(
 where
     R: Buf,
     K: Hash + Eq,
-    DK: Fn(&mut bytes::buf::Take<&mut R>) -> Result<K>,
-    DV: Fn(&mut bytes::buf::Take<&mut R>) -> Result<V>,
+    DK: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<K>,
+    DV: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<V>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
@@ -253,13 +261,13 @@ pub fn decode_hash_set<R, T, D>(r: &mut R, decode: D) -> Result<HashSet<T>>
 where
     R: Buf,
     T: Hash + Eq,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         set.insert(decode(&mut r)?);
@@ -294,13 +302,13 @@ pub fn decode_array<const N: usize, R, T, D>(r: &mut R, decode: D) -> Result<[T;
 where
     R: Buf,
     T: Debug,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     // decoding fails if the data ends before all elements are present.
     while vec.len() < N {
@@ -402,14 +410,14 @@ pub fn decode_non_zero_bytes_bytes(r: &mut impl Buf) -> Result<NonZero<Bytes>> {
 pub fn decode_non_zero_vec<R, T, D>(r: &mut R, decode: D) -> Result<NonZero<Vec<T>>>
 where
     R: Buf,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut vec = Vec::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         vec.push(decode(&mut r)?);
@@ -433,15 +441,15 @@ pub fn decode_non_zero_hash_map<R, K, V, DK, DV>(
 where
     R: Buf,
     K: Hash + Eq,
-    DK: Fn(&mut bytes::buf::Take<&mut R>) -> Result<K>,
-    DV: Fn(&mut bytes::buf::Take<&mut R>) -> Result<V>,
+    DK: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<K>,
+    DV: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<V>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut map = HashMap::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
@@ -461,14 +469,14 @@ pub fn decode_non_zero_hash_set<R, T, D>(r: &mut R, decode: D) -> Result<NonZero
 where
     R: Buf,
     T: Hash + Eq,
-    D: Fn(&mut bytes::buf::Take<&mut R>) -> Result<T>,
+    D: Fn(&mut bytes::buf::Take<&mut dyn Buf>) -> Result<T>,
 {
     let len = decode_u64(r)?;
     ensure_not_empty!(len);
     ensure_size!(r, len as usize);
 
     let mut set = HashSet::new();
-    let mut r = r.take(len as usize);
+    let mut r = take(r, len);
 
     while r.has_remaining() {
         set.insert(decode(&mut r)?);
-- 
2.43.0


From aa00cb83991de211e1eaa6b2a3201e42a7e9af2a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 22/43] fix: no bare carriage returns in the comments of
 generated code

---
 crates/mabo-build/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..d195f35 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -216,7 +216,10 @@ fn compile_import(
 }
 
 fn compile_comment(lines: &[&str]) -> TokenStream {
-    let lines = lines.iter().map(|line| format!(" {line}"));
+    // bare carriage returns are not allowed in the doc comments of Rust.
+    let lines = lines
+        .iter()
+        .map(|line| format!(" {}", line.replace('\r', " ")));
     quote! { #(#[doc = #lines])* }
 }
 
-- 
2.43.0


From 500ce0110ad9918d173d4c0ab1c9e4402f410b2d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 23/43] fix: fields named like the local variables of generated
 code

---
 crates/mabo-build/src/decode.rs     | 15 ++++++++++-----
 crates/mabo-build/src/definition.rs | 22 ++++++++++++++++++++++
 crates/mabo-build/src/encode.rs     | 18 ++++++++----------
 crates/mabo-build/src/size.rs       | 19 ++++++++-----------
 4 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index 5003ea1..e500a3b 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -4,7 +4,10 @@ use mabo_compiler::simplify::{
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 
-use crate::{BytesType, Opts};
+use crate::{
+    BytesType, Opts,
+    definition::{field_binding, local_ident},
+};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -118,7 +121,7 @@ fn compile_variant(
 
 fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
     let vars = fields.iter().map(|field| {
-        let name = Ident::new(&field.name, Span::call_site());
+        let name = local_ident(&field.name);
         (name, &field.ty)
     });
 
@@ -138,7 +141,7 @@ fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
 fn compile_field_matches(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
-        let name = proc_macro2::Ident::new(name, Span::call_site());
+        let name = local_ident(name);
         let ty = compile_data_type(opts, if let Type::Option(ty) = &ty { ty } else { ty }, true);
 
         quote! { #id => #name = Some(#ty?) }
@@ -155,14 +158,16 @@ fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
         } else {
             quote! { None }
         };
+        let binding = field_binding(name);
+        let local = local_ident(name);
         let name = Ident::new(name, Span::call_site());
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
 
         if matches!(ty, Type::Option(_)) {
-            quote! { #name }
+            quote! { #binding }
         } else if fields.kind == FieldKind::Named {
             quote! {
-                #name: #name.ok_or(::mabo::buf::Error::MissingField {
+                #name: #local.ok_or(::mabo::buf::Error::MissingField {
                     id: #id,
                     name: #name_lit,
                 })?
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index d195f35..e6c6c23 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -357,6 +357,28 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
     }
 }
 
+/// Create the identifier of the local variable that holds the value of a field.
+///
+/// It's the name of the field, except for those that would clash with a variable of the generated
+/// code. No field name can start with an underscore, so the alternative name is always free.
+pub(super) fn local_ident(name: &str) -> Ident {
+    match name {
+        "id" | "r" | "w" => Ident::new(&format!("_{name}"), Span::call_site()),
+        _ => Ident::new(name, Span::call_site()),
+    }
+}
+
+/// Bind a field to its local variable, either in a pattern or when constructing a value.
+pub(super) fn field_binding(name: &str) -> TokenStream {
+    let local = local_ident(name);
+    if local == name {
+        quote! { #local }
+    } else {
+        let name = Ident::new(name, Span::call_site());
+        quote! { #name: #local }
+    }
+}
+
 fn compile_const_data_type(ty: &Type<'_>) -> TokenStream {
     match &ty {
         Type::Bool => quote! { bool },
diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 94c75cb..18dc760 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -2,7 +2,11 @@ use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Vari
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts, size::tuple_element};
+use crate::{
+    BytesType, Opts,
+    definition::{field_binding, local_ident},
+    size::tuple_element,
+};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -13,10 +17,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(|field| field_binding(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
@@ -86,10 +87,7 @@ fn compile_variant(
     let id = quote! { ::mabo::VariantId::new(#id) };
     let name = Ident::new(name, Span::call_site());
     let fields_body = compile_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(|field| field_binding(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -118,7 +116,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = local_ident(name);
 
             if let Type::Option(ty) = &ty {
                 let (enc, ty) = compile_data_type(opts, ty, quote! { v }, true);
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index a81d986..e85559f 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -2,7 +2,10 @@ use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Vari
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{
+    BytesType, Opts,
+    definition::{field_binding, local_ident},
+};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -13,10 +16,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(|field| field_binding(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
@@ -51,7 +51,7 @@ fn compile_struct_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = local_ident(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -115,10 +115,7 @@ fn compile_variant(
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
     let name = Ident::new(name, Span::call_site());
     let fields_body = compile_variant_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(|field| field_binding(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -147,7 +144,7 @@ fn compile_variant_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = local_ident(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
-- 
2.43.0


From 9061f43a6ca39ac5e80fef2c6854a47f47fafd61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 24/43] fix: fields and modules named like a keyword of Rust

---
 crates/mabo-build/src/decode.rs     |  6 +++---
 crates/mabo-build/src/definition.rs | 27 +++++++++++++++++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index e500a3b..13cc38d 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -6,7 +6,7 @@ use quote::quote;
 
 use crate::{
     BytesType, Opts,
-    definition::{field_binding, local_ident},
+    definition::{field_binding, local_ident, safe_ident},
 };
 
 pub(super) fn compile_struct(
@@ -160,7 +160,7 @@ fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
         };
         let binding = field_binding(name);
         let local = local_ident(name);
-        let name = Ident::new(name, Span::call_site());
+        let name = safe_ident(name);
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
 
         if matches!(ty, Type::Option(_)) {
@@ -300,7 +300,7 @@ fn compile_data_type(opts: &Opts, ty: &Type<'_>, root: bool) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
+            let path = path.iter().map(|part| safe_ident(part));
             let ty = Ident::new(name, Span::call_site());
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index e6c6c23..91fee42 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -66,7 +66,7 @@ fn compile_module(
     }: &Module<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = safe_ident(name);
     let definitions = definitions.iter().map(|def| compile_definition(opts, def));
 
     quote! {
@@ -197,7 +197,7 @@ fn compile_import(
     }: &Import<'_>,
 ) -> TokenStream {
     let segments = segments.iter().enumerate().map(|(i, segment)| {
-        let segment = Ident::new(segment, Span::call_site());
+        let segment = safe_ident(segment);
         if i > 0 {
             quote! {::#segment}
         } else {
@@ -240,7 +240,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
 
             if fields.kind == FieldKind::Named {
                 let comment = compile_comment(comment);
-                let name = Ident::new(name, Span::call_site());
+                let name = safe_ident(name);
 
                 quote! {
                     #comment
@@ -343,7 +343,7 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
+            let path = path.iter().map(|part| safe_ident(part));
             let name = Ident::new(name, Span::call_site());
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics.iter().map(|ty| compile_data_type(opts, ty));
@@ -357,6 +357,21 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
     }
 }
 
+/// Create an identifier, which becomes a raw one if the name is a keyword in Rust (but not in the
+/// schema).
+///
+/// The few keywords that can't be raw identifiers are kept as they are.
+pub(super) fn safe_ident(name: &str) -> Ident {
+    // `gen` only became a keyword in edition 2024.
+    let keyword = name == "gen" || syn::parse_str::<Ident>(name).is_err();
+
+    if keyword && !matches!(name, "crate" | "self" | "super") {
+        Ident::new_raw(name, Span::call_site())
+    } else {
+        Ident::new(name, Span::call_site())
+    }
+}
+
 /// Create the identifier of the local variable that holds the value of a field.
 ///
 /// It's the name of the field, except for those that would clash with a variable of the generated
@@ -364,7 +379,7 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
 pub(super) fn local_ident(name: &str) -> Ident {
     match name {
         "id" | "r" | "w" => Ident::new(&format!("_{name}"), Span::call_site()),
-        _ => Ident::new(name, Span::call_site()),
+        _ => safe_ident(name),
     }
 }
 
@@ -374,7 +389,7 @@ pub(super) fn field_binding(name: &str) -> TokenStream {
     if local == name {
         quote! { #local }
     } else {
-        let name = Ident::new(name, Span::call_site());
+        let name = safe_ident(name);
         quote! { #name: #local }
     }
 }
-- 
2.43.0


From 0a332a3e508f2b7cf236a395e08c3e54c8af7b63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 25/43] fix: boxed bytes together with the bytes::Bytes type in
 generated code

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 18dc760..8b90045 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -214,7 +214,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index e85559f..0b0a4a8 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -197,7 +197,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From d9cc591f22e4a2c69db4b328f02be18644dbfc43 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 26/43] fix: bytes::Bytes as the argument of type parameters

---
 crates/mabo/src/buf/decode.rs | 7 +++++++
 crates/mabo/src/buf/encode.rs | 7 +++++++
 crates/mabo/src/buf/size.rs   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 8b4b9e9..e9d546a 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -600,6 +600,13 @@ impl Decode for Box<[u8]> {
     }
 }
 
+impl Decode for Bytes {
+    #[inline(always)]
+    fn decode(r: &mut impl Buf) -> Result<Self> {
+        decode_bytes_bytes(r)
+    }
+}
+
 impl<T> Decode for Vec<T>
 where
     T: Decode,
diff --git a/crates/mabo/src/buf/encode.rs b/crates/mabo/src/buf/encode.rs
index 29bebda..424ebef 100644
--- a/crates/mabo/src/buf/encode.rs
+++ b/crates/mabo/src/buf/encode.rs
@@ -243,6 +243,13 @@ impl Encode for Box<[u8]> {
     }
 }
 
+impl Encode for Bytes {
+    #[inline(always)]
+    fn encode(&self, w: &mut impl BufMut) {
+        encode_bytes_bytes(w, self);
+    }
+}
+
 impl<T> Encode for Vec<T>
 where
     T: Encode,
diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index f74bc79..6db96bf 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -199,6 +199,13 @@ impl Size for Box<[u8]> {
     }
 }
 
+impl Size for Bytes {
+    #[inline(always)]
+    fn size(&self) -> usize {
+        size_bytes_bytes(self)
+    }
+}
+
 impl<T> Size for Vec<T>
 where
     T: Size,
-- 
2.43.0


From a0e491e8f6d35f56df82c4c55f244b10849af966 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 27/43] fix: keep messages that arrive while waiting for the
 client's response

---
 crates/mabo-lsp/src/client.rs | 70 +++++++++++++++++++++--------------
 crates/mabo-lsp/src/main.rs   |  2 +-
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..b6ec2a9 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,7 +1,10 @@
-use std::time::Duration;
+use std::{
+    collections::VecDeque,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Context, Result, bail, ensure};
-use log::trace;
+use anyhow::{Context, Result, bail};
+use log::{debug, trace};
 use lsp_server::{Connection, Message, Notification, Request, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
@@ -13,11 +16,24 @@ use lsp_types::{
 pub struct Client<'a> {
     conn: &'a Connection,
     next_id: i32,
+    /// Messages that arrived while waiting for the response to a request.
+    pending: VecDeque<Message>,
 }
 
 impl<'a> Client<'a> {
     pub fn new(conn: &'a Connection) -> Self {
-        Self { conn, next_id: 0 }
+        Self {
+            conn,
+            next_id: 0,
+            pending: VecDeque::new(),
+        }
+    }
+
+    /// Wait for the next message from the client, or return `None` once the connection is closed.
+    pub fn next_message(&mut self) -> Option<Message> {
+        self.pending
+            .pop_front()
+            .or_else(|| self.conn.receiver.recv().ok())
     }
 
     fn next_id(&mut self) -> i32 {
@@ -53,30 +69,30 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
-                result,
-                error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
-                let result = result.unwrap_or(serde_json::Value::Null);
-                serde_json::from_value(result).map_err(Into::into)
+        let deadline = Instant::now() + Duration::from_secs(2);
+
+        loop {
+            let message = self
+                .conn
+                .receiver
+                .recv_deadline(deadline)
+                .context("timeout receiving response")?;
+
+            match message {
+                Message::Response(Response { id, result, error }) if id == req_id.into() => {
+                    if let Some(error) = error {
+                        bail!("request {id} failed: {error:?}");
+                    }
+
+                    let result = result.unwrap_or(serde_json::Value::Null);
+                    return serde_json::from_value(result).map_err(Into::into);
+                }
+                Message::Response(response) => {
+                    debug!(response:?; "got unexpected response");
+                }
+                // The client doesn't wait for us, so handle these later.
+                message => self.pending.push_back(message),
             }
-            Message::Response(Response {
-                id,
-                result: None,
-                error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
         }
     }
 
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..4fb7223 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -67,7 +67,7 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
-    for msg in &conn.receiver {
+    while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
                 if conn.handle_shutdown(&req)? {
-- 
2.43.0


From 810f688831019a8f73e703c879f8531083249928 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 28/43] fix: only select supported position encodings

---
 crates/mabo-lsp/src/handlers/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..df5b69a 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,22 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client, that is supported.
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| {
+            encodings.iter().find(|encoding| {
+                [
+                    PositionEncodingKind::UTF8,
+                    PositionEncodingKind::UTF16,
+                    PositionEncodingKind::UTF32,
+                ]
+                .contains(encoding)
+            })
+        })
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From 5c69f1d1939323b074d7b5f3466f168b4cab3ded Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 29/43] fix: apply every change of a document to the text that
 the previous ones leave

---
 crates/mabo-lsp/src/handlers/hover.rs |  3 ++-
 crates/mabo-lsp/src/handlers/index.rs | 37 ++++++++++++++-----------
 crates/mabo-lsp/src/handlers/mod.rs   | 39 ++++++++++++++++-----------
 3 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..7e66d50 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -13,10 +13,11 @@ use crate::config;
 pub fn visit_schema(
     config: &config::Hover,
     index: &Index,
+    content: &str,
     item: &Schema<'_>,
     position: lsp::Position,
 ) -> Result<Option<(String, lsp::Range)>> {
-    let position = index.get_offset(position)?;
+    let position = index.get_offset(content, position);
 
     item.definitions
         .iter()
diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..9e70e8c 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use anyhow::{Context, Result};
-use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
+use line_index::{LineIndex, TextSize, WideEncoding, WideLineCol};
 use lsp_types as lsp;
 
 pub struct Index {
@@ -55,9 +55,24 @@ impl Index {
         ))
     }
 
-    pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
-        let line_col = if let Some(encoding) = self.encoding {
-            self.index
+    /// Convert a position to the byte offset in the given text (which must be the one that this
+    /// index was created for).
+    ///
+    /// As defined by the protocol, columns past the end of the line default back to the line
+    /// length. Likewise, lines past the end of the text default back to the text length.
+    pub fn get_offset(&self, text: &str, position: lsp::Position) -> usize {
+        let Some(line) = self.index.line(position.line).map(Range::<usize>::from) else {
+            return text.len();
+        };
+
+        let content = &text[line.clone()];
+        let content = content.strip_suffix('\n').map_or(content, |content| {
+            content.strip_suffix('\r').unwrap_or(content)
+        });
+
+        let column = match self.encoding {
+            Some(encoding) => self
+                .index
                 .to_utf8(
                     encoding,
                     WideLineCol {
@@ -65,18 +80,10 @@ impl Index {
                         col: position.character,
                     },
                 )
-                .context("missing utf-16 position")?
-        } else {
-            LineCol {
-                line: position.line,
-                col: position.character,
-            }
+                .map(|line_col| line_col.col),
+            None => Some(position.character),
         };
 
-        Ok(self
-            .index
-            .offset(line_col)
-            .context("missing offset position")?
-            .into())
+        line.start + column.map_or(content.len(), |col| content.len().min(col as usize))
     }
 }
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index df5b69a..40fd2d6 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -2,7 +2,7 @@
 
 use std::sync::LazyLock;
 
-use anyhow::{Context, Result};
+use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
 use log::{debug, error, warn};
 use lsp_types::{
@@ -211,7 +211,15 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
             for change in params.content_changes {
-                let range = match convert_range(index, change.range) {
+                let text = String::from(&*rope);
+                index.update(LineIndex::new(&text));
+
+                let Some(range) = change.range else {
+                    *rope = Rope::from_str(&change.text);
+                    continue;
+                };
+
+                let range = match convert_range(index, &text, range) {
                     Ok(range) => range,
                     Err(e) => {
                         error!(error:err = *e; "invalid change");
@@ -260,13 +268,13 @@ pub fn hover(state: &mut GlobalState<'_>, params: HoverParams) -> Result<Option<
     debug!(uri:% = uri.as_str(); "requested hover info");
 
     Ok(
-        if let Some((schema, index)) = state.files.get_mut(&uri).and_then(|file| {
+        if let Some((schema, (index, content))) = state.files.get_mut(&uri).and_then(|file| {
             file.borrow_simplified()
                 .as_ref()
                 .ok()
-                .zip(Some(file.borrow_index()))
+                .zip(Some((file.borrow_index(), file.borrow_content())))
         }) {
-            hover::visit_schema(&state.settings.hover, index, schema, position)?.map(
+            hover::visit_schema(&state.settings.hover, index, content, schema, position)?.map(
                 |(value, range)| Hover {
                     contents: HoverContents::Markup(MarkupContent {
                         kind: MarkupKind::Markdown,
@@ -338,16 +346,11 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextRange> {
-    let range = range.context("incremental change misses range")?;
-
-    let start = index
-        .get_offset(range.start)
-        .context("failed to convert start position to byte offset")?;
+fn convert_range(index: &Index, text: &str, range: lsp_types::Range) -> Result<TextRange> {
+    let start = index.get_offset(text, range.start);
+    let end = index.get_offset(text, range.end);
 
-    let end = index
-        .get_offset(range.end)
-        .context("failed to convert end position to byte offset")?;
+    ensure!(start <= end, "range ends before its start");
 
     Ok(TextRange::new(start.try_into()?, end.try_into()?))
 }
@@ -363,10 +366,14 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
     heads.index.update(LineIndex::new(&text));
-- 
2.43.0


From fef89d42de4e5832bd0ac4589c449067e9a086ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 30/43] fix: mabo check returns an error for invalid schemas

---
 crates/mabo-cli/src/main.rs | 54 ++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..76d71d4 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -6,9 +6,9 @@ use std::{
     process::ExitCode,
 };
 
-use anyhow::Context;
+use anyhow::{Context, anyhow, bail, ensure};
 use mabo_parser::Schema;
-use miette::Context as _;
+use miette::{Context as _, NamedSource};
 
 use self::cli::{CheckArgs, Cli, DocArgs, FmtArgs};
 
@@ -44,17 +44,57 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
-    for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
-
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
-            eprintln!("{e:?}");
+    let inputs = project_or_files(args.project_dir, args.files)?
+        .into_iter()
+        .map(|file| {
+            let buf =
+                fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+            Ok((file, buf))
+        })
+        .collect::<anyhow::Result<Vec<_>>>()?;
+
+    let mut schemas = Vec::with_capacity(inputs.len());
+
+    for (file, buf) in &inputs {
+        let name = file
+            .file_stem()
+            .and_then(|stem| stem.to_str())
+            .ok_or_else(|| anyhow!("file name of {file:?} is not valid UTF-8"))?;
+
+        match parse_and_validate(buf, file) {
+            Ok(schema) => schemas.push((name, schema)),
+            Err(e) => eprintln!("{e:?}"),
         }
     }
 
+    ensure!(schemas.len() == inputs.len(), "not all schemas are valid");
+
+    let schemas = schemas
+        .iter()
+        .map(|(name, schema)| (*name, schema))
+        .collect::<Vec<_>>();
+
+    if let Err(e) = mabo_compiler::resolve_schemas(&schemas).wrap_err("failed resolving schemas") {
+        eprintln!("{e:?}");
+        bail!("not all types can be resolved");
+    }
+
     Ok(())
 }
 
+fn parse_and_validate<'a>(buf: &'a str, file: &Path) -> miette::Result<Schema<'a>> {
+    let schema = Schema::parse(buf, Some(file)).wrap_err("failed parsing schema file")?;
+
+    mabo_compiler::validate_schema(&schema)
+        .map_err(|e| {
+            miette::Report::new(e)
+                .with_source_code(NamedSource::new(file.to_string_lossy(), buf.to_owned()))
+        })
+        .wrap_err("failed validating schema file")?;
+
+    Ok(schema)
+}
+
 fn format(args: FmtArgs) -> anyhow::Result<()> {
     for file in project_or_files(args.project_dir, args.files)? {
         let buf = fs::read_to_string(&file)?;
-- 
2.43.0


From 1fa431635227cd90a8b706bb758ba906d6bb380a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:09:27 +0000
Subject: [PATCH 31/43] fix: don't take directories for schema files that match
 a pattern

---
 crates/mabo-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 76d71d4..909e183 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -156,7 +156,7 @@ fn project_or_files(
         for pattern in patterns {
             for entry in glob::glob(&pattern).context("failed parsing glob pattern")? {
                 let entry = entry.context("failed reading entry")?;
-                if entry.extension().is_none_or(|ext| ext != "mabo") {
+                if entry.is_dir() || entry.extension().is_none_or(|ext| ext != "mabo") {
                     continue;
                 }
                 files.push(entry);
-- 
2.43.0


From 7b88c5dd51368006950cea8edc9ba4025609aaa6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 32/43] fix: escape names in Go code that are keywords

---
 crates/mabo-go/src/definition.rs | 53 +++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..a4de9a9 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -113,7 +113,7 @@ impl Display for RenderPackage<'_> {
             )?;
         }
 
-        writeln!(f, "package {}\n", heck::AsSnakeCase(self.0))
+        writeln!(f, "package {}\n", Ident(heck::AsSnakeCase(self.0)))
     }
 }
 
@@ -128,6 +128,50 @@ impl Display for RenderImports {
     }
 }
 
+/// Identifier that doesn't start with an upper case letter, and therefore could be a Go keyword.
+struct Ident<T>(T);
+
+impl<T: Display> Display for Ident<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let ident = self.0.to_string();
+
+        f.write_str(&ident)?;
+
+        if matches!(
+            ident.as_str(),
+            "break"
+                | "case"
+                | "chan"
+                | "const"
+                | "continue"
+                | "default"
+                | "defer"
+                | "else"
+                | "fallthrough"
+                | "for"
+                | "func"
+                | "go"
+                | "goto"
+                | "if"
+                | "import"
+                | "interface"
+                | "map"
+                | "package"
+                | "range"
+                | "return"
+                | "select"
+                | "struct"
+                | "switch"
+                | "type"
+                | "var"
+        ) {
+            f.write_char('_')?;
+        }
+
+        Ok(())
+    }
+}
+
 struct RenderStruct<'a>(&'a Struct<'a>);
 
 impl Display for RenderStruct<'_> {
@@ -325,7 +369,7 @@ impl Display for RenderParameters<'_> {
             writeln!(
                 f,
                 "\t{} {},",
-                heck::AsLowerCamelCase(&field.name),
+                Ident(heck::AsLowerCamelCase(&field.name)),
                 RenderType(&field.ty),
             )?;
         }
@@ -348,7 +392,7 @@ impl Display for RenderConstructor<'_> {
                     f,
                     "\t\t{}: {},",
                     heck::AsUpperCamelCase(&field.name),
-                    heck::AsLowerCamelCase(&field.name)
+                    Ident(heck::AsLowerCamelCase(&field.name))
                 )?;
             }
 
@@ -448,7 +492,8 @@ impl Display for RenderType<'_> {
                 if let Some(path) = path.last() {
                     write!(
                         f,
-                        "{path}.{}{}",
+                        "{}.{}{}",
+                        Ident(path),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 060a4e071b3ac0199b68d034019d320f0bd9b1bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 33/43] fix: write empty bytes constants as empty Go literals

---
 crates/mabo-go/src/definition.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index a4de9a9..43baa22 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -602,10 +602,6 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-                if b.is_empty() {
-                    return Ok(());
-                }
-
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0


From 553a2528fcce09dffe7730a45faedcd904a99c97 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 34/43] fix: end the last line of a module before its closing
 brace when formatting

---
 crates/mabo-parser/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index eb32d52..6d1e7f6 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -292,6 +292,13 @@ impl Print for Module<'_> {
             definition.print(f, level + 1)?;
         }
 
+        // Definitions that fit on a single line don't end it by themselves.
+        if let Some(Definition::TypeAlias(_) | Definition::Const(_) | Definition::Import(_)) =
+            definitions.last()
+        {
+            f.write_str("\n")?;
+        }
+
         Self::indent(f, level)?;
         writeln!(f, "{}", token::Brace::CLOSE)
     }
-- 
2.43.0


From f564c799e41d3b68bfa38119c5fbbad7dcbc8ce2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 35/43] fix: leave blanks out of the locations of fields and
 variants

---
 crates/mabo-parser/src/parser/enums.rs  | 21 +++++++++++++--------
 crates/mabo-parser/src/parser/fields.rs | 25 ++++++++++++++-----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index d1770dc..d6459c5 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -4,7 +4,7 @@ use mabo_derive::{ParserError, ParserErrorCause};
 use winnow::{
     Parser,
     ascii::{alphanumeric0, space0, space1},
-    combinator::{cut_err, opt, preceded, terminated},
+    combinator::{cut_err, opt, peek, preceded, terminated},
     error::ErrMode,
     stream::Location,
     token::one_of,
@@ -133,15 +133,20 @@ fn parse_variants<'i>(
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_variant_name.with_span()),
-            preceded(space0, fields::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_variant_name.with_span(),
+                // Blanks are only part of the variant if there are any fields after them.
+                opt((space0, peek(one_of(['{', '('])))),
+                fields::parse.map_err2(Cause::from),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
-        .map(|(comment, ((name, fields, id), span))| Variant {
+        .map(|(comment, ((name, _, fields, id), span))| Variant {
             comment,
             name: name.into(),
             fields,
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index a4d7af1..7841dd9 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -113,12 +113,12 @@ fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
 }
 
 fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Cause> {
-    (
-        ws(types::parse.map_err2(Cause::from)),
+    ws((
+        types::parse.map_err2(Cause::from),
         opt(preceded(space0, ids::parse.map_err2(Cause::from))),
     )
-        .with_span()
-        .parse_next(input)
+        .with_span())
+    .parse_next(input)
         .map(|((ty, id), span)| UnnamedField {
             ty,
             id,
@@ -129,13 +129,16 @@ fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Ca
 fn parse_named_field<'i>(input: &mut Input<'i>) -> Result<NamedField<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_field_name),
-            preceded(space0, token::Colon::parser()),
-            preceded(space0, types::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_field_name,
+                preceded(space0, token::Colon::parser()),
+                preceded(space0, types::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, colon, ty, id), span))| NamedField {
-- 
2.43.0


From c4c90687fd96fac2d850a95dd80aa9e08aba2f9a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:31:23 +0000
Subject: [PATCH 36/43] fix: keep the indentation of comments

---
 crates/mabo-parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index 97ef09a..0b98f3c 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -148,7 +148,7 @@ mod comments {
     use winnow::{
         Parser,
         ascii::space0,
-        combinator::{delimited, preceded, repeat},
+        combinator::{delimited, opt, preceded, repeat},
         error::ErrMode,
         stream::Stream,
         token::take_till,
@@ -190,7 +190,7 @@ mod comments {
             0..,
             delimited(
                 space0,
-                preceded(("///", space0), take_till(0.., '\n')).with_span(),
+                preceded(("///", opt(' ')), take_till(0.., '\n')).with_span(),
                 '\n',
             )
             .map(CommentLine::from),
-- 
2.43.0


From caad0c1df537f372a3f6700493cfaaadad98a889 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:14:12 +0000
Subject: [PATCH 37/43] fix: go: declare type parameters that variants only
 pass on

Variants of generic enums only got those type parameters that their fields
use directly or within built-in types, so that the generated code for a
variant like B(Other<T>) referred to the undefined type T.
---
 crates/mabo-go/src/definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 43baa22..8f611aa 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -754,7 +754,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From f3f42869eadb42f7a9b8fd5db21c47f4da02e69f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 38/43] fix: go: declare the type parameters of type aliases

Generic type aliases lost their parameters, so that the generated code for
an alias like type A<T> = vec<T> referred to the undefined type T.
---
 crates/mabo-go/src/definition.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 8f611aa..5268b39 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -407,12 +407,16 @@ impl Display for RenderAlias<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         writeln!(
             f,
-            "{}type {} {}",
+            "{}type {}{} {}",
             RenderComment {
                 indent: Indent(0),
                 comment: &self.0.comment,
             },
             heck::AsUpperCamelCase(&self.0.name),
+            RenderGenerics {
+                generics: &self.0.generics,
+                fields_filter: None,
+            },
             RenderType(&self.0.target),
         )
     }
-- 
2.43.0


From 8519f08828905eb71fb69cac121c8ea5d9471e1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 39/43] fix: lsp: find the files of workspace projects by their
 URIs

The files of the projects in the workspace folders are loaded when the
server starts, but were kept by their bare paths instead of the file URIs
clients ask for, so that they were never found. Folders with encoded
characters in their URIs weren't looked at in the first place.
---
 crates/mabo-lsp/src/handlers/mod.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 40fd2d6..f2bee02 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -1,6 +1,6 @@
 #![expect(clippy::needless_pass_by_value, clippy::unnecessary_wraps)]
 
-use std::sync::LazyLock;
+use std::{fmt::Write, sync::LazyLock};
 
 use anyhow::{Context, Result, ensure};
 use line_index::{LineIndex, TextRange};
@@ -62,7 +62,10 @@ pub fn initialize(
         .workspace_folders
         .unwrap_or_default()
         .into_iter()
-        .filter_map(|root| mabo_project::discover(root.uri.path().as_str()).ok())
+        .filter_map(|root| {
+            let path = root.uri.path().as_estr().decode().into_string().ok()?;
+            mabo_project::discover(path.as_ref()).ok()
+        })
         .flatten();
 
     for path in projects
@@ -78,7 +81,7 @@ pub fn initialize(
         let Ok(uri) = path
             .to_str()
             .with_context(|| format!("path {path:?} is not valid UTF-8"))
-            .and_then(|path| path.parse::<Uri>().map_err(Into::into))
+            .and_then(file_uri)
         else {
             error!(path:?; "failed parsing file path as URI");
             continue;
@@ -346,6 +349,22 @@ pub fn did_change_configuration(
     }
 }
 
+/// Create the `file` URI of a path, with all characters encoded that are not allowed to appear as
+/// they are.
+fn file_uri(path: &str) -> Result<Uri> {
+    let mut uri = "file://".to_owned();
+
+    for byte in path.bytes() {
+        if byte.is_ascii_alphanumeric() || b"-._~/".contains(&byte) {
+            uri.push(byte.into());
+        } else {
+            write!(uri, "%{byte:02X}")?;
+        }
+    }
+
+    uri.parse().map_err(Into::into)
+}
+
 fn convert_range(index: &Index, text: &str, range: lsp_types::Range) -> Result<TextRange> {
     let start = index.get_offset(text, range.start);
     let end = index.get_offset(text, range.end);
-- 
2.43.0


From 883fbecacdac426081cf903ee63b9eb470a4ddbf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:35:16 +0000
Subject: [PATCH 40/43] fix: keep the language server running when its standard
 error is closed

---
 crates/mabo-lsp/src/logging.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-lsp/src/logging.rs b/crates/mabo-lsp/src/logging.rs
index 47256df..f4c2172 100644
--- a/crates/mabo-lsp/src/logging.rs
+++ b/crates/mabo-lsp/src/logging.rs
@@ -222,9 +222,8 @@ impl log::Log for StderrLogger {
     }
 
     fn log(&self, record: &Record<'_>) {
-        if let Err(e) = write_message(&mut std::io::stderr(), record, self.offset) {
-            eprintln!("failed formatting log message: {e:?}");
-        }
+        // There is nowhere left to report a failure to, and the client is free to close its end.
+        let _ = write_message(&mut std::io::stderr(), record, self.offset);
     }
 
     fn flush(&self) {
-- 
2.43.0


From 583add11acc5850b2a8694a59951001ba4bf31f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:35:20 +0000
Subject: [PATCH 41/43] fix: accept any messages between the shutdown request
 and the exit notification

---
 crates/mabo-lsp/src/main.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index 4fb7223..332568c 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -11,7 +11,7 @@ use lsp_types::{
     DocumentSymbol, InitializeParams, InitializedParams, SemanticTokens,
     notification::{
         DidChangeConfiguration, DidChangeTextDocument, DidCloseTextDocument, DidDeleteFiles,
-        DidOpenTextDocument, Initialized, Notification as LspNotification,
+        DidOpenTextDocument, Exit, Initialized, Notification as LspNotification,
     },
     request::{
         DocumentSymbolRequest, HoverRequest, Request as LspRequest, SemanticTokensFullRequest,
@@ -70,9 +70,9 @@ fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
     while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
-                if conn.handle_shutdown(&req)? {
+                if req.method == Shutdown::METHOD {
                     info!("shutting down");
-                    return Ok(());
+                    return shutdown(conn, state, req.id);
                 }
 
                 match req.method.as_str() {
@@ -154,6 +154,36 @@ fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
     Ok(())
 }
 
+/// Acknowledge the shutdown request, and wait for the client to send the exit notification.
+///
+/// This is done here, instead of with [`Connection::handle_shutdown`], as the notification may have
+/// arrived already while waiting for a response. Likewise, responses of the client to our own
+/// requests may still arrive.
+fn shutdown(conn: &Connection, mut state: GlobalState<'_>, id: RequestId) -> Result<()> {
+    conn.sender.send(Response::new_ok(id, ()).into())?;
+
+    while let Some(msg) = state.client.next_message() {
+        match msg {
+            lsp_server::Message::Notification(notif) if notif.method == Exit::METHOD => {
+                return Ok(());
+            }
+            lsp_server::Message::Request(req) => {
+                conn.sender.send(
+                    Response::new_err(
+                        req.id,
+                        ErrorCode::InvalidRequest as _,
+                        "server is shutting down".to_owned(),
+                    )
+                    .into(),
+                )?;
+            }
+            msg => debug!(message:? = msg; "got unexpected message during shutdown"),
+        }
+    }
+
+    bail!("connection closed while waiting for the exit notification")
+}
+
 fn handle_request<T, R>(
     conn: &Connection,
     state: &mut GlobalState<'_>,
-- 
2.43.0


From a6bd8d75764e2a6a217eb6ff486f4f5cf7f92f8a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 42/43] fix: reject float literals beyond the range of f64

---
 crates/mabo-parser/src/parser/literals.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index a0af750..7366742 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -123,14 +123,21 @@ fn parse_false(input: &mut Input<'_>) -> Result<bool, Cause> {
 }
 
 fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
-    (
+    let value: f64 = (
         opt(one_of(['+', '-'])),
         (digit1, '.', digit1),
         opt((one_of(['e', 'E']), opt(one_of(['+', '-'])), cut_err(digit1))),
     )
         .take()
         .parse_to()
-        .parse_next(input)
+        .parse_next(input)?;
+
+    if value.is_finite() {
+        Ok(value)
+    } else {
+        // Beyond the range of `f64`, which turns into infinity and can't be expressed as literal.
+        cut_err(fail).parse_next(input)
+    }
 }
 
 fn parse_int(input: &mut Input<'_>) -> Result<i128, Cause> {
-- 
2.43.0


From 395d100e357190c6e741f2e2c644868884ed373c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 08:02:37 +0000
Subject: [PATCH 43/43] fix: use the default of each setting that the client
 leaves out

---
 crates/mabo-lsp/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-lsp/src/config.rs b/crates/mabo-lsp/src/config.rs
index fb2f487..922b38d 100644
--- a/crates/mabo-lsp/src/config.rs
+++ b/crates/mabo-lsp/src/config.rs
@@ -8,7 +8,7 @@ pub struct Global {
 }
 
 #[derive(Debug, Deserialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(default, rename_all = "camelCase")]
 pub struct Hover {
     pub show_next_id: bool,
     pub show_wire_size: bool,
-- 
2.43.0

