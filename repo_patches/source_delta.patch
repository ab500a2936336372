From 8e307327bcbdf93c7f0ea102fc9b77ebd34e4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 01/18] fix: slice the matched prefix of consume_str by bytes,
 not characters

---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From c32ac4d0f13651c3de82f1da6aef9037febc656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 02/18] fix: do not advance the position when reading past the
 end of input

---
 chewed/src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..05d2a14 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,6 +159,7 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
+            None => None,
             x => {
                 self.pos.col += 1;
                 x
-- 
2.43.0


From 9b0ab9861ab09ebc1b4aa56f0f923c5735669ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 03/18] fix: report the position of the unexpected character
 from take_chars_from

---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 05d2a14..f8ebe2c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    *pos = c;
+                    self.next();
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From 358aa5e5d8fca626a18312c32ac5bb9a57bfbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 04/18] fix: report the error of the failing item from
 iter_strict

---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index f8ebe2c..509725c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = match (self.parse)(self.iter) {
+                Ok(item) => Ok(item),
+                Err(e) => return Some(Err(e)),
+            };
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 8661cd9391ac11771d78d02170b5db6b52457e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 05/18] fix: reject fixed points over functions that do not
 take exactly one argument

---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From 2b92eb4bb9f74814e0ec7e78b7ccb5364a199451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 06/18] fix: compare identifiers in names without their raw
 prefix, as hashing does

---
 src/chomp/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..c225e9f 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -61,7 +61,7 @@ impl SnakeCase for Content {
 impl PartialEq for Content {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (Self::Spanned(me), Self::Spanned(them)) => me == them,
+            (Self::Spanned(me), Self::Spanned(them)) => me.unraw() == them.unraw(),
             (Self::Spanned(me), Self::Spanless(them)) => me.unraw() == them,
             (Self::Spanless(me), Self::Spanned(them)) => them.unraw() == me,
             (Self::Spanless(me), Self::Spanless(them)) => me == them,
-- 
2.43.0


From bbf9e9bad26883d9a58f5f0768bcea32dd969689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 07/18] fix: keep generated names valid when case conversion
 drops leading underscores

---
 src/chomp/name.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index c225e9f..7cb23a5 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,24 @@ impl From<Content> for Ident {
     }
 }
 
+/// Case conversion drops underscores, which may leave something that is not an identifier.
+fn into_identifier(name: String) -> String {
+    if name.chars().next().map_or(false, char::is_alphabetic) {
+        name
+    } else {
+        format!("_{}", name)
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&into_identifier(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => into_identifier(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +60,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&into_identifier(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => into_identifier(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 1c5da569e74371cb3d6a9ba8a3db5f9c211413ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 08/18] fix: do not share inner fixed points between different
 outer fixed points

---
 src/chomp/typed/mod.rs | 13 +++++++++++++
 src/lower/mod.rs       | 11 ++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..f918061 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -220,6 +220,19 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// The number of enclosing fixed points, innermost first, that this may refer to.
+    pub fn open_depth(&self) -> usize {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => 0,
+            RawTypedExpression::Cat(c) => c.terms.iter().map(Self::open_depth).max().unwrap_or(0),
+            RawTypedExpression::Alt(a) => a.terms.iter().map(Self::open_depth).max().unwrap_or(0),
+            RawTypedExpression::Fix(f) => f.inner.open_depth().saturating_sub(1),
+            RawTypedExpression::Variable(v) => v.index() + 1,
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..bf646bd 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,8 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    // Key is the body and the fix point IDs of its free variables
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -380,12 +381,16 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        let outer = inner.open_depth().saturating_sub(1);
+        let outer = self.context[self.context.len() - outer..].to_vec();
+        let key = (inner.clone(), outer);
+
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 8e94719d11c16d2aa801c2fdbf27374d77f1d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 09/18] fix: never give two generated types, parts or branches
 the same name

---
 src/lower/mod.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index bf646bd..ec2b5c1 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -37,25 +37,36 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    type_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
 
 type NamedSpan = (Option<Name>, Span);
 
+/// Numbers `name` with the first unused number from `count` on.
+fn number_name(used: &mut HashSet<Ident>, name: &Ident, count: usize) -> Ident {
+    (count..)
+        .map(|count| format_ident!("{}{}", name, count))
+        .find(|name| used.insert(name.clone()))
+        .unwrap_or_else(|| name.clone())
+}
+
 impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
-        match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+        let (name, count) = match name {
+            None => (Ident::new(prefix, span), id + 1),
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
                 *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                (name, *count)
             }
-        }
+        };
+
+        (id, number_name(&mut self.type_names, &name, count))
     }
 
     fn recurse_exprs<I: IntoIterator<Item = TypedExpression>>(
@@ -102,15 +113,16 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => number_name(&mut used, &Ident::new(default, span), index + 1),
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    number_name(&mut used, &name, *count)
                 }
             })
     }
@@ -120,15 +132,16 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => number_name(&mut used, &Ident::new(default, span), index + 1),
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    number_name(&mut used, &name, *count)
                 }
             })
     }
@@ -145,6 +158,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            type_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
@@ -429,7 +443,7 @@ impl Backend for RustBackend {
         id
     }
 
-    fn emit_code(self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
+    fn emit_code(mut self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
         let mut tokens = quote_spanned! {span=>
             use ::chewed::*;
         };
@@ -453,7 +467,7 @@ impl Backend for RustBackend {
         tokens.extend(if let Some(name) = name {
             let name = name.into();
             let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let name = number_name(&mut self.type_names, &name, count);
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From 9b02422ab1cd609bb4880cb8b93a82c3d703385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 10/18] fix: reject escapes of the self-hosted notation that
 are not characters instead of panicking

---
 autonibble/src/lib.rs | 49 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  7 ++++++-
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..5cbc960 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, Self::Error> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, Self::Error> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,14 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, Self::Error> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        let c = u32::from_str_radix(&s, 16).unwrap();
+        c.try_into()
+            .map_err(|_| ConvertError::InvalidEscape(Span::call_site(), c))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..7b01bfe 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidEscape(Span, u32),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -71,7 +72,8 @@ impl From<ConvertError> for syn::Error {
             ConvertError::UndeclaredName(name) => name.span(),
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
-            | ConvertError::EmptyCall(span) => span,
+            | ConvertError::EmptyCall(span)
+            | ConvertError::InvalidEscape(span, _) => span,
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidEscape(_, c) => {
+                write!(f, "`\\u{{{:x}}}` is not a unicode character", c)
+            }
         }
     }
 }
-- 
2.43.0


From a06966ad226efe78aeec033d4f9da0a51689599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 11/18] fix: allow keywords as the names of parameters, as
 everywhere else

---
 src/nibble/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..6a15771 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -255,6 +255,16 @@ impl fmt::Debug for Alt {
         f.debug_list().entries(&self.0).finish()
     }
 }
+
+/// Parse the name of a parameter. Like any other name, it can be a keyword.
+fn parse_param(input: ParseStream<'_>) -> syn::Result<Ident> {
+    if input.peek(Token![_]) {
+        Err(input.error("expected identifier"))
+    } else {
+        input.call(Ident::parse_any)
+    }
+}
+
 #[derive(Clone)]
 pub struct Lambda {
     slash_tok_left: Token![/],
@@ -277,7 +287,7 @@ impl Parse for Lambda {
         let slash_tok_left = input.parse()?;
         let mut args = Vec::new();
         loop {
-            args.push(input.parse()?);
+            args.push(parse_param(input)?);
             let lookahead = input.lookahead1();
 
             if lookahead.peek(Token![/]) {
@@ -401,7 +411,7 @@ impl Parse for LetStatement {
             if lookahead.peek(Token![=]) {
                 break;
             } else if lookahead.peek(Ident::peek_any) {
-                args.push(input.parse()?);
+                args.push(parse_param(input)?);
             } else {
                 return Err(lookahead.error());
             }
-- 
2.43.0


From d909073722902ed352b6a87c685329bc6d8a1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 12/18] fix: add the digits of a unicode escape instead of
 multiplying by them

---
 chomp-bench/src/json/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..2e5f841 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -120,21 +120,21 @@ impl Parse for Value {
             for c in &chars {
                 match c {
                     '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From 1027039633a98d45278c00681a2175a5ff9ce6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 13/18] fix: print the control characters of JSON strings
 instead of panicking

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2e5f841..81cd6bd 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From dd351f8d2972a3763f80f320905c7caa8f095fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 14/18] fix: accept white space inside of empty JSON arrays and
 objects

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 81cd6bd..26fbe39 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -203,6 +203,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -213,6 +214,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From b78ab3a9c055fbcd079d4467673ca0a968e34ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 15/18] fix: report a failure to write the generated code

Short code without a line break stayed in the buffer of standard output; if it could not be written when the process
ended, nobody noticed and the status was that of success.
---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..9a508f8 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut out = io::stdout();
+            write!(out, "{:#}", code)
+                .and_then(|_| out.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..d4f29ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut out = io::stdout();
+            write!(out, "{:#}", code)
+                .and_then(|_| out.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From d088926e5706a17300d2403aaf047ed065b7e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:48 +0000
Subject: [PATCH 16/18] fix: locate a bound function at its parameters and
 body, not at the rest of the grammar

---
 src/nibble/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index 7b01bfe..ff0175c 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -337,6 +337,8 @@ impl Convert for LetStatement {
         let bound = if self.args.is_empty() {
             self.expr.convert(context)?
         } else {
+            let first = self.args[0].span();
+            let span = first.join(self.expr.span()).unwrap_or(first);
             let args: Vec<_> = self.args.into_iter().map(Name::new_variable).collect();
             let expr = self.expr;
             let inner = context.with_variables(args.clone(), |ctx| expr.convert(ctx))?;
-- 
2.43.0


From 8d77824ea81e03775ea1bcb5b826c04e56e367dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:54 +0000
Subject: [PATCH 17/18] fix: keep the underscore of a name before what cannot
 start an identifier

---
 src/chomp/name.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 7cb23a5..3b382fb 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -33,8 +33,11 @@ impl From<Content> for Ident {
 }
 
 /// Case conversion drops underscores, which may leave something that is not an identifier.
-fn into_identifier(name: String) -> String {
-    if name.chars().next().map_or(false, char::is_alphabetic) {
+/// An identifier can start with any letter it already started with, but after an underscore there
+/// may be one that an identifier cannot start with, such as a combining vowel sign.
+fn into_identifier(original: &str, name: String) -> String {
+    let start = |c: char| c.is_ascii_alphabetic() || c.is_alphabetic() && !original.starts_with('_');
+    if name.chars().next().map_or(false, start) {
         name
     } else {
         format!("_{}", name)
@@ -47,9 +50,9 @@ impl CamelCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&into_identifier(name.to_camel_case()), span).into()
+                Ident::new(&into_identifier(&name, name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => into_identifier(name.to_camel_case()).into(),
+            Self::Spanless(name) => into_identifier(&name, name.to_camel_case()).into(),
         }
     }
 }
@@ -60,9 +63,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&into_identifier(name.to_snake_case()), span).into()
+                Ident::new(&into_identifier(&name, name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => into_identifier(name.to_snake_case()).into(),
+            Self::Spanless(name) => into_identifier(&name, name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 90da347f1859bd5685ae0aa0cda6ff6ea319c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:46 +0000
Subject: [PATCH 18/18] fix: report the first error inside of parentheses

---
 chomp-bench/src/arith/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/arith/mod.rs b/chomp-bench/src/arith/mod.rs
index 38556fe..f3e9221 100644
--- a/chomp-bench/src/arith/mod.rs
+++ b/chomp-bench/src/arith/mod.rs
@@ -73,9 +73,9 @@ pub fn take_term<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<i64, TakeE
         Some('(') => {
             input.consume_str("(")?;
             input.skip_while(|c| c == ' ');
-            let o = take_expr(input);
+            let o = take_expr(input)?;
             input.consume_str(")")?;
-            o
+            Ok(o)
         }
         Some(c) => Err(TakeError::BadBranch(
             input.pos(),
-- 
2.43.0

