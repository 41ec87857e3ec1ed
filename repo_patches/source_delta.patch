From 3e80373b05d80a522b5a5740dbf9c954ce82b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 01/23] fix: compare names without regard to raw spelling

`r#opt` and `opt` were equal to the same spanless name and had equal
hashes, but were not equal to each other.
---
 src/chomp/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..c225e9f 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -61,7 +61,7 @@ impl SnakeCase for Content {
 impl PartialEq for Content {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (Self::Spanned(me), Self::Spanned(them)) => me == them,
+            (Self::Spanned(me), Self::Spanned(them)) => me.unraw() == them.unraw(),
             (Self::Spanned(me), Self::Spanless(them)) => me.unraw() == them,
             (Self::Spanless(me), Self::Spanned(them)) => them.unraw() == me,
             (Self::Spanless(me), Self::Spanless(them)) => me == them,
-- 
2.43.0


From 50b0d08d9b703925ea99f243efa9924c52873905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 02/23] fix: reject recursion on functions of several arguments

The body of `!(/x y/ ..)` was typed with one variable in place of two, so
its variables referred to the wrong binders.
---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From cf432ec81e8cf54cc515e869ade3aa245d43b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 03/23] fix: keep the label of a definition's expression

`let x = "a" : foo;` replaced the label by the name of the definition,
although labels have precedence and survive everywhere else.
---
 autonibble/src/lib.rs | 2 +-
 src/nibble/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..5bf34fb 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -140,7 +140,7 @@ impl Convert for Stmt1 {
                     expr: Let {
                         name: name.clone(),
                         bound: Box::new(NamedExpression {
-                            name: Some(name),
+                            name: Name::merge(bound.name, Some(name)),
                             ..bound
                         }),
                         body: Box::new(body),
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..1e973af 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -353,7 +353,7 @@ impl Convert for LetStatement {
             expr: ast::Let {
                 name: name.clone(),
                 bound: Box::new(NamedExpression {
-                    name: Some(name),
+                    name: Name::merge(bound.name, Some(name)),
                     ..bound
                 }),
                 body: Box::new(body),
-- 
2.43.0


From 3639b287baee69408205f645cd43096738e77271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 04/23] fix: report partial matches of non-ASCII strings

consume_str sliced its string by the number of characters matched, which
panics or truncates when one of them takes more than one byte.
---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 42a6738f25362134df804e954a4a24bd6bdcdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 05/23] fix: keep the position when reading at the end of the
 stream

---
 chewed/src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..c5e5b4d 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,10 +159,11 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
-            x => {
+            Some(x) => {
                 self.pos.col += 1;
-                x
+                Some(x)
             }
+            None => None,
         }
     }
 
-- 
2.43.0


From 8301c1f5992a780d034596c1b19f60048322318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 06/23] fix: report characters outside the set where they are

take_chars_from consumed the offending character before asking for its
position.
---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index c5e5b4d..3e209de 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From 69f45569573380444cafef16f2131434b358ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 07/23] fix: stop separated iteration at the error of an item

The separator after a failed item was still consumed, and a later error
replaced the one the item reported.
---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 3e209de..2259305 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = match (self.parse)(self.iter) {
+                Ok(res) => Ok(res),
+                Err(e) => return Some(Err(e)),
+            };
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 49e0d6020e99d0535b52589268c889ee9abbb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 08/23] fix: give recursions over different outer recursions
 different types

Fix points were shared whenever their bodies looked alike, so that a body
using the variable of an enclosing fix point recursed into whichever
enclosing fix point had been generated first.
---
 src/chomp/typed/mod.rs | 29 ++++++++++++++++++++++++++++-
 src/lower/mod.rs       | 17 ++++++++++++++---
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..2ce0b61 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,33 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// Indices, outside this expression, of the variables it does not bind.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        let mut out = BTreeSet::new();
+        self.collect_free_variables(0, &mut out);
+        out
+    }
+
+    fn collect_free_variables(&self, depth: usize, out: &mut BTreeSet<usize>) {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => (),
+            RawTypedExpression::Cat(Cat { terms, .. })
+            | RawTypedExpression::Alt(Alt { terms, .. }) => {
+                for term in terms {
+                    term.collect_free_variables(depth, out)
+                }
+            }
+            RawTypedExpression::Fix(f) => f.inner.collect_free_variables(depth + 1, out),
+            RawTypedExpression::Variable(v) => {
+                if v.index() >= depth {
+                    out.insert(v.index() - depth);
+                }
+            }
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..bf4cb2f 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,8 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    // Key is the body and the fix points of its other free variables
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -380,12 +381,22 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        // Index zero is this fix point
+        let outer = inner
+            .free_variables()
+            .into_iter()
+            .filter(|&index| index > 0)
+            .map(|index| self.context[self.context.len() - index])
+            .collect();
+        let key = (inner, outer);
+
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        let inner = key.0.clone();
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From bd66f7f0c729e7e653e4c3efca30718259aca581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 09/23] fix: accept names that are not identifiers once case
 converted

Names like `__` and `_1` became the empty string or a number, which panics
when an identifier is made of them.
---
 src/chomp/name.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index c225e9f..18b6180 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,27 @@ impl From<Content> for Ident {
     }
 }
 
+/// Case conversion drops leading underscores. Restores one if what is left may
+/// not start an identifier.
+fn restart_ident(original: &str, converted: String) -> String {
+    if original.starts_with(char::is_alphanumeric)
+        || converted.starts_with(|c: char| c.is_ascii_alphabetic())
+    {
+        converted
+    } else {
+        format!("_{}", converted)
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&restart_ident(&name, name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => restart_ident(name, name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +63,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&restart_ident(&name, name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => restart_ident(name, name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 6e8df659c6380a110f791d006ecdbd19377c5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 10/23] fix: keep generated type and member names distinct

A numbered name could equal the default name of another type or member, or
the numbered form of a longer name.
---
 src/lower/mod.rs | 81 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index bf4cb2f..f2f86a4 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -37,6 +37,7 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    used_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
@@ -47,14 +48,55 @@ impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
-        match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
-            Some(name) => {
-                let name: Ident = name.to_camel_case().into();
-                let count = self.name_map.entry(name.clone()).or_insert(0);
-                *count += 1;
-                (id, format_ident!("{}{}", name, count))
+        let name = match name {
+            None => {
+                let mut name = format_ident!("{}{}", prefix, id + 1, span = span);
+                while !self.used_names.insert(name.clone()) {
+                    name = format_ident!("{}_", name);
+                }
+                name
             }
+            Some(name) => self.number_type_name(name.to_camel_case().into()),
+        };
+
+        (id, name)
+    }
+
+    fn number_type_name(&mut self, name: Ident) -> Ident {
+        Self::number_name(&mut self.name_map, &mut self.used_names, name)
+    }
+
+    /// Appends the next number of the name that makes it unique.
+    fn number_name(
+        counts: &mut HashMap<Ident, usize>,
+        used: &mut HashSet<Ident>,
+        name: Ident,
+    ) -> Ident {
+        let count = counts.entry(name.clone()).or_insert(0);
+
+        loop {
+            *count += 1;
+            let numbered = format_ident!("{}{}", name, count);
+
+            if used.insert(numbered.clone()) {
+                return numbered;
+            }
+        }
+    }
+
+    /// Appends the first number from the position of the part on that makes
+    /// its default name unique.
+    fn number_default(used: &mut HashSet<Ident>, default: &str, index: usize, span: Span) -> Ident {
+        let mut number = index + 1;
+
+        loop {
+            let name = format_ident!("{}{}", default, number, span = span);
+
+            if used.insert(name.clone()) {
+                return name;
+            }
+
+            number += 1;
         }
     }
 
@@ -102,15 +144,13 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => Self::number_default(&mut used, default, index, span),
                 Some(name) => {
-                    let name: Ident = name.to_snake_case().into();
-                    let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
+                    Self::number_name(&mut name_map, &mut used, name.to_snake_case().into())
                 }
             })
     }
@@ -120,15 +160,13 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => Self::number_default(&mut used, default, index, span),
                 Some(name) => {
-                    let name: Ident = name.to_camel_case().into();
-                    let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
+                    Self::number_name(&mut name_map, &mut used, name.to_camel_case().into())
                 }
             })
     }
@@ -145,6 +183,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            used_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
@@ -435,7 +474,7 @@ impl Backend for RustBackend {
         id
     }
 
-    fn emit_code(self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
+    fn emit_code(mut self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
         let mut tokens = quote_spanned! {span=>
             use ::chewed::*;
         };
@@ -457,9 +496,7 @@ impl Backend for RustBackend {
         let root_name = self.data[id].name.clone();
 
         tokens.extend(if let Some(name) = name {
-            let name = name.into();
-            let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let name = self.number_type_name(name.into());
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From 8af7c4ada3d95af6cf5984d23342e03c63fdf445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 11/23] fix: report escapes that are not characters in the
 self-hosted front end

\u{...} escapes of surrogates and of values past the last code point made
the conversion panic.
---
 autonibble/src/lib.rs | 50 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  7 +++++-
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 5bf34fb..6108c27 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, Self::Error> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, Self::Error> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,15 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, Self::Error> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        u32::from_str_radix(&s, 16)
+            .ok()
+            .and_then(char::from_u32)
+            .ok_or_else(|| ConvertError::InvalidEscape(format!("\\u{{{}}}", s), Span::call_site()))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index 1e973af..9e39140 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidEscape(String, Span),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -71,7 +72,8 @@ impl From<ConvertError> for syn::Error {
             ConvertError::UndeclaredName(name) => name.span(),
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
-            | ConvertError::EmptyCall(span) => span,
+            | ConvertError::EmptyCall(span)
+            | ConvertError::InvalidEscape(_, span) => span,
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidEscape(escape, _) => {
+                write!(f, "invalid character escape: `{}`", escape)
+            }
         }
     }
 }
-- 
2.43.0


From 4910c84e70ce7f3865ecb0bf8c933facb2e2b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 12/23] fix: report output the commands could not write

---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..765bbae 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut output = io::stdout();
+            write!(output, "{:#}", code)
+                .and_then(|()| output.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..06ae2ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut output = io::stdout();
+            write!(output, "{:#}", code)
+                .and_then(|()| output.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From 302e1c44e8485bfc0e46504916dc127328500c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 13/23] fix: decode the digits of JSON unicode escapes in the
 hand-written parser

---
 chomp-bench/src/json/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..2e5f841 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -120,21 +120,21 @@ impl Parse for Value {
             for c in &chars {
                 match c {
                     '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From f408205c361719b1f8268a49a9d45599884228b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 14/23] fix: accept space inside empty JSON arrays and objects
 in the hand-written parser

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2e5f841..0ef9a9c 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -208,6 +208,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -218,6 +219,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From 40b4cdd4dd15c451b55984fd18e4f6c5d6737f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 15/23] fix: escape control characters in displayed JSON
 strings

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 0ef9a9c..26fbe39 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From db2b31bb8d6fe04efac1aff8043861ea1d6d3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 16/23] fix: report C string literals instead of panicking

syn panics when peeking for a string literal in front of a C string
literal, so a grammar such as match c"a"; ended the command, and the
macro, with a panic.
---
 src/nibble/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..ec1df92 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -96,8 +96,20 @@ impl ToTokens for Term {
     }
 }
 
+/// Rejects a C string literal, on which peeking for a [`LitStr`] panics.
+fn reject_c_string(input: ParseStream<'_>) -> syn::Result<()> {
+    match input.cursor().literal() {
+        Some((lit, _)) if lit.to_string().starts_with('c') => Err(syn::Error::new(
+            lit.span(),
+            "C string literals are not supported",
+        )),
+        _ => Ok(()),
+    }
+}
+
 impl Parse for Term {
     fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
+        reject_c_string(input)?;
         let lookahead = input.lookahead1();
 
         if lookahead.peek(Token![_]) {
@@ -141,6 +153,7 @@ impl Parse for Call {
     fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
         let mut out = vec![input.parse()?];
         loop {
+            reject_c_string(input)?;
             let lookahead = input.lookahead1();
             if lookahead.peek(Token![_])
                 || lookahead.peek(LitStr)
-- 
2.43.0


From 85810ffafa5a4c9920d8e7707e4512b9c55c4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 17/23] fix: report bad characters and escapes in the
 hand-written JSON parser instead of panicking

---
 chomp-bench/src/json/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 26fbe39..037a1c1 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -137,6 +137,9 @@ impl Parse for Value {
         }
 
         fn parse_str<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<String, TakeError> {
+            // Any character from the space onwards is valid, but the set has to be finite.
+            const CHARS: &[char] = &['"', '\\'];
+            const ESCAPES: &[char] = &['"', '\\', '/', 'b', 'f', 'n', 'r', 't', 'u'];
             input.consume_str("\"")?;
             let mut s = String::new();
             loop {
@@ -172,10 +175,10 @@ impl Parse for Value {
                                 };
                                 s.push(codepoint.try_into().unwrap())
                             }
-                            c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                            c => return Err(TakeError::BadBranch(input.pos(), c, ESCAPES)),
                         }
                     }
-                    c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                    c => return Err(TakeError::BadBranch(input.pos(), c, CHARS)),
                 }
             }
         }
-- 
2.43.0


From 63918f6b5ea4869658ca50371d4a781234885452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 18/23] fix: read JSON numbers by their grammar in the
 hand-written parser

---
 chomp-bench/src/json/mod.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 037a1c1..f802c51 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -104,6 +104,20 @@ impl Parse for Value {
             input.skip_while(|c| WS.contains(&c))
         }
 
+        fn parse_digits<P: chewed::Parser + ?Sized>(
+            input: &mut P,
+            s: &mut String,
+        ) -> Result<(), TakeError> {
+            const DIGITS: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
+            let mut digit = ['\0'];
+            input.take_chars_from(DIGITS, &mut digit)?;
+            s.push(digit[0]);
+            while let Some('0'..='9') = input.peek() {
+                s.push(input.next().unwrap());
+            }
+            Ok(())
+        }
+
         fn parse_u16<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<u16, TakeError> {
             const HEX: &[char] = &[
                 '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f',
@@ -194,13 +208,26 @@ impl Parse for Value {
             'f' => input.consume_str("false").map(|_| Value::Bool(false)),
             '0'..='9' | '-' => {
                 let mut s = String::new();
-                s.push(input.next().unwrap());
-                while input.peek().map_or(false, |c| {
-                    matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E')
-                }) {
+                if input.peek() == Some('-') {
+                    s.push(input.next().unwrap());
+                }
+                if input.peek() == Some('0') {
+                    s.push(input.next().unwrap());
+                } else {
+                    parse_digits(input, &mut s)?;
+                }
+                if input.peek() == Some('.') {
                     s.push(input.next().unwrap());
+                    parse_digits(input, &mut s)?;
+                }
+                if let Some('e') | Some('E') = input.peek() {
+                    s.push(input.next().unwrap());
+                    if let Some('+') | Some('-') = input.peek() {
+                        s.push(input.next().unwrap());
+                    }
+                    parse_digits(input, &mut s)?;
                 }
-                s.parse().map(Value::Number).map_err(|_| todo!())
+                Ok(Value::Number(s.parse().unwrap()))
             }
             '"' => parse_str(input).map(Value::String),
             '[' => {
-- 
2.43.0


From 35a0a205ebbe28a47f8e4e49485c87ffdf97a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 19/23] fix: require digits after the decimal point in the
 LALRPOP JSON grammar

---
 chomp-bench/src/json/lalr.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index b5a8401..844974d 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -24,7 +24,7 @@ pub Value: Value = {
     },
 };
 
-pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
+pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
 
 pub Str: String = r#""([^\\"]|\\.)*""# => {
     let mut out = String::new();
-- 
2.43.0


From fe78a971fa5b73d338da66f52bbb904a84414cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 20/23] fix: report bad strings in the LALRPOP JSON grammar
 instead of panicking

---
 chomp-bench/src/json/lalr.lalrpop | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index 844974d..b38b3c9 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -2,6 +2,8 @@ use super::{decode_pair, Value};
 
 use std::{collections::HashMap, convert::TryInto, str::FromStr};
 
+use lalrpop_util::ParseError;
+
 grammar;
 
 pub Value: Value = {
@@ -26,7 +28,17 @@ pub Value: Value = {
 
 pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
 
-pub Str: String = r#""([^\\"]|\\.)*""# => {
+pub Str: String = r#""([^\\"]|\\.)*""# =>? {
+    fn user<L, T>(error: &'static str) -> ParseError<L, T, &'static str> {
+        ParseError::User { error }
+    }
+    fn hex<L, T>(s: &str) -> Result<u16, ParseError<L, T, &'static str>> {
+        if s.len() == 4 && s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Ok(u16::from_str_radix(s, 16).unwrap())
+        } else {
+            Err(user("bad escape sequence"))
+        }
+    }
     let mut out = String::new();
     let mut iter = <>.chars();
     iter.next();
@@ -45,25 +57,24 @@ pub Str: String = r#""([^\\"]|\\.)*""# => {
                 't' => '\x09',
                 'u' => {
                     let v = iter.by_ref().take(4).collect::<String>();
-                    assert_eq!(v.len(), 4);
-                    let v = u16::from_str_radix(&v, 16).unwrap();
+                    let v = hex(&v)?;
                     let codepoint = if (0xD800..=0xDFFF).contains(&v) {
                         let skipped = iter.by_ref().take(2).collect::<String>();
-                        assert_eq!(skipped, "\\u");
+                        if skipped != "\\u" {
+                            return Err(user("unpaired surrogate"));
+                        }
                         let o = iter.by_ref().take(4).collect::<String>();
-                        assert_eq!(o.len(), 4);
-                        let o = u16::from_str_radix(&o, 16).unwrap();
-                        decode_pair(v, o)
+                        decode_pair(v, hex(&o)?)
                     } else {
                         u32::from(v)
                     };
                     codepoint.try_into().unwrap()
                 }
-                c => panic!("bad escape sequence {}", c),
+                _ => return Err(user("bad escape sequence")),
             }
-            c => panic!("invalid character {}", c),
+            _ => return Err(user("invalid character")),
         };
         out.push(c);
     }
-    out
+    Ok(out)
 };
-- 
2.43.0


From 6d523cc167080b508cd9b05b5011caf05c9e95c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:42 +0000
Subject: [PATCH 21/23] fix: skip only the white space of JSON in the LALRPOP
 JSON grammar

---
 chomp-bench/src/json/lalr.lalrpop | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index b38b3c9..3dcf038 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -6,6 +6,12 @@ use lalrpop_util::ParseError;
 
 grammar;
 
+match {
+    // The only white space of JSON, instead of all of Unicode's
+    r"[ \t\n\r]+" => {},
+    _
+}
+
 pub Value: Value = {
     "null" => Value::Null,
     "true" => Value::Bool(true),
-- 
2.43.0


From 2882a0ea63a22348f760d478bfd9ae513155c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:07 +0000
Subject: [PATCH 22/23] fix: report the first error inside parentheses of an
 expression, not one after it

---
 chomp-bench/src/arith/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/arith/mod.rs b/chomp-bench/src/arith/mod.rs
index 38556fe..f3e9221 100644
--- a/chomp-bench/src/arith/mod.rs
+++ b/chomp-bench/src/arith/mod.rs
@@ -73,9 +73,9 @@ pub fn take_term<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<i64, TakeE
         Some('(') => {
             input.consume_str("(")?;
             input.skip_while(|c| c == ' ');
-            let o = take_expr(input);
+            let o = take_expr(input)?;
             input.consume_str(")")?;
-            o
+            Ok(o)
         }
         Some(c) => Err(TakeError::BadBranch(
             input.pos(),
-- 
2.43.0


From e31d6593f606fb216b6571ad4b55077f8e0217cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:10 +0000
Subject: [PATCH 23/23] fix: report errors in JSON strings at the character
 that is wrong, not after it

---
 chomp-bench/src/json/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index f802c51..e35cf28 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -157,6 +157,7 @@ impl Parse for Value {
             input.consume_str("\"")?;
             let mut s = String::new();
             loop {
+                let pos = input.pos();
                 match input
                     .next()
                     .ok_or_else(|| TakeError::EndOfStream(input.pos()))?
@@ -166,6 +167,7 @@ impl Parse for Value {
                         s.push(c)
                     }
                     '\\' => {
+                        let pos = input.pos();
                         match input
                             .next()
                             .ok_or_else(|| TakeError::EndOfStream(input.pos()))?
@@ -189,10 +191,10 @@ impl Parse for Value {
                                 };
                                 s.push(codepoint.try_into().unwrap())
                             }
-                            c => return Err(TakeError::BadBranch(input.pos(), c, ESCAPES)),
+                            c => return Err(TakeError::BadBranch(pos, c, ESCAPES)),
                         }
                     }
-                    c => return Err(TakeError::BadBranch(input.pos(), c, CHARS)),
+                    c => return Err(TakeError::BadBranch(pos, c, CHARS)),
                 }
             }
         }
-- 
2.43.0

