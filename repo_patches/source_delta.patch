From ec06dab4badf377f914eba2f9ab38bc414b96ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 01/55] fix: terminate with an error on unterminated quoted
 strings instead of looping forever

---
 src/parser/base/grammar.rs | 2 ++
 src/parser/mod.rs          | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..dad9519 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -118,6 +118,8 @@ impl Parser<'_> {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string terminator");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..2c4f4a6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -67,6 +67,11 @@ macro_rules! tag_prefix {
 
 pub(crate) use tag_prefix;
 
+/// Turn the mismatched result into `None`, but keep the terminated error.
+fn optional<T>(ret: PResult<T>) -> PResult<Option<T>> {
+    ret.map(Some).or_else(|e| e.or(|| Ok(None)))
+}
+
 /// The type of anchor recorder in the [`Loader`].
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
 /// The default prefix of the YAML sub tag.
@@ -280,9 +285,9 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
+        } else if let Some(s) = optional(self.string_quoted(b'\'', b"''"))? {
             R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if let Some(s) = optional(self.string_quoted(b'"', b"\\\""))? {
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From a051a6f0b13d563adb6a3c0859059e466f9bd140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 02/55] fix: report an undeclared tag handle as an error
 instead of panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index dad9519..bc9ea68 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -297,7 +297,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2c4f4a6..940138b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -239,7 +239,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = optional(self.tag())?.unwrap_or_default();
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From f9bfa35e43e85da88521b2c9e964c480c0bedd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 03/55] fix: plain scalars at zero indent no longer loop
 forever at a line end

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bc9ea68..e09b325 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -158,7 +158,8 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
+                } else if p.ind(level).is_err() || p.text().is_empty() {
+                    // A zero-width indent is not a progress
                     if let Ok(t) = p.gap(true) {
                         if t == 1 {
                             v.push(' ');
-- 
2.43.0


From c8e3ce6177eacfceedad1dd7969e6c7c28124c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 04/55] fix: report unterminated flow collections instead of
 dropping their content

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 940138b..5225427 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,12 +23,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: The closing bracket `]` is missing.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: The closing bracket `}` is missing.
 //!
 //! ### Array
 //!
@@ -325,7 +327,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -368,7 +372,9 @@ impl<R: Repr> Loader<'_, R> {
             m.push((k, v));
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0


From 26a21fbdebcb6e85ffddb0afe74dde52e401c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 05/55] fix: accept block scalars ended by the end of input and
 at the document root

---
 src/parser/base/grammar.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e09b325..97c323d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -220,9 +220,15 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            p.nl()?;
             loop {
-                p.nl()?;
                 p.forward();
+                let food = p.food();
+                if food.is_empty()
+                    || level == 0 && (food.starts_with(b"---") || food.starts_with(b"..."))
+                {
+                    break;
+                }
                 if p.ind(level).is_err() {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
@@ -250,6 +256,10 @@ impl Parser<'_> {
                     }
                     v.push_str(s);
                 }
+                if p.nl().is_err() {
+                    // No newline at the end of file
+                    return Ok(v + "\n");
+                }
             }
             // Keep the last wrap
             p.back(1);
-- 
2.43.0


From fadb321e9f2b347c8503e389768e8aad297ed6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 06/55] fix: report a complex key without its splitter instead
 of dropping the key

---
 src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5225427..6326e02 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -353,8 +353,8 @@ impl<R: Repr> Loader<'_, R> {
                 let k = self
                     .scalar(level + 1, false, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
+                if self.gap(true).is_ok() && self.ind(level).is_err() {
+                    return self.err("flow map splitter");
                 }
                 k
             } else {
@@ -441,8 +441,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
@@ -466,8 +466,8 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, true, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    if self.gap(true).is_ok() && self.ind(level).is_err() {
+                        return self.err("map splitter");
                     }
                     k
                 } else {
-- 
2.43.0


From cdd0028e9119617d2ef6493f005119c4fcf1ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 07/55] fix: octal and hexadecimal integers accept exactly
 their digits

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 97c323d..273c215 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -48,7 +48,7 @@ impl Parser<'_> {
     }
 
     fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+        move |c| char::from(*c).is_digit(u32::from(i))
     }
 
     /// Match float.
-- 
2.43.0


From d62b5d1aa0c932a77b5f94eec4fc4d4397a24c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 08/55] fix: numbers are recognized at the end of input, before
 a comment, and never before further text

---
 src/parser/base/grammar.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 273c215..0efa60b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -32,11 +32,26 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
-        self.bound()?;
+        self.num_end()?;
         Ok(s)
     }
 
+    /// Match the gaps behind a number, which must be ended there.
+    fn num_end(&mut self) -> PResult<()> {
+        let ws = self.count(|p| p.ws(TakeOpt::More(0)))?;
+        let end = match self.food() {
+            [] => true,
+            [b'#', ..] => ws > 0,
+            [c, ..] => b":{}[],\n\r".contains(c),
+        };
+        if end {
+            Ok(())
+        } else {
+            self.backward();
+            Err(PError::Mismatch)
+        }
+    }
+
     fn octal(&mut self) -> PResult<()> {
         self.sym(b'o')?;
         self.take_while(Self::ascii_digit(8), TakeOpt::More(1))
@@ -57,10 +72,7 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_end()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -71,10 +83,7 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_end()?;
         Ok(s)
     }
 
-- 
2.43.0


From b0537e3f979c9576c4a8fc9c3cfa1bfca1ecc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 09/55] fix: compare and hash numbers by value without
 panicking on values out of range

---
 src/yaml.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..656738f 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -139,11 +139,20 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                match to_i64(s) {
+                    Ok(n) => n.hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                match to_f64(s) {
+                    // All zeros are equal, and so are all NaNs
+                    Ok(f) if f == 0. => 0f64.to_bits().hash(state),
+                    Ok(f) if f.is_nan() => f64::NAN.to_bits().hash(state),
+                    Ok(f) => f.to_bits().hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +179,16 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => match (to_i64(s1), to_i64(s2)) {
+                (Ok(n1), Ok(n2)) => n1 == n2,
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
+            (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
+                (Ok(f1), Ok(f2)) => f1 == f2 || f1.is_nan() && f2.is_nan(),
+                (Err(_), Err(_)) => s1 == s2,
+                _ => false,
+            },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From 4467df5ba61e243e01d7d66cf256aa170416efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 10/55] fix: deserialize integers with a range check instead of
 wrapping or panicking

---
 src/serde/de.rs       | 100 +++++++++++++++++++++++++++++++++---------
 src/serde/mod.rs      |  20 +++++++++
 src/serde/ser_node.rs |  22 ++++++++--
 3 files changed, 119 insertions(+), 23 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..337521e 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use super::SerdeError;
+use super::{to_int, SerdeError};
 use crate::{
     parse,
     repr::{RcRepr, Repr},
@@ -41,6 +41,23 @@ macro_rules! impl_deserializer {
     };
 }
 
+macro_rules! impl_int_deserializer {
+    ($(fn $method:ident => $visit:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => match to_int(n) {
+                    Some(n) => visitor.$visit(n),
+                    None => Err(out_of_range(&self, visitor)),
+                },
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 /// Parse the document and deserialize nodes to a specific type.
 ///
 /// Since the document can be split into multiple parts,
@@ -90,6 +107,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +298,23 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Some(n) = to_int(n) {
+                    visitor.visit_i64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u64(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_i128(n)
+                } else if let Some(n) = to_int(n) {
+                    visitor.visit_u128(n)
+                } else {
+                    Err(out_of_range(&self, visitor))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(out_of_range(&self, visitor)),
+            },
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +324,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_int_deserializer! {
+        fn deserialize_i8 => visit_i8
+        fn deserialize_i16 => visit_i16
+        fn deserialize_i32 => visit_i32
+        fn deserialize_i64 => visit_i64
+        fn deserialize_u8 => visit_u8
+        fn deserialize_u16 => visit_u16
+        fn deserialize_u32 => visit_u32
+        fn deserialize_u64 => visit_u64
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_int_deserializer! {
+            fn deserialize_i128 => visit_i128
+            fn deserialize_u128 => visit_u128
         }
     }
 
@@ -343,8 +380,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(_) | Yaml::Int(_) => match number(&self) {
+                Some(n) => visitor.visit_f32(n as f32),
+                None => Err(out_of_range(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +393,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(_) | Yaml::Int(_) => match number(&self) {
+                Some(n) => visitor.visit_f64(n),
+                None => Err(out_of_range(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -513,13 +554,32 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+fn number<R: Repr>(node: &Node<R>) -> Option<f64> {
+    match node.yaml() {
+        Yaml::Float(n) => to_f64(n).ok(),
+        Yaml::Int(n) => to_int::<i128>(n)
+            .map(|n| n as f64)
+            .or_else(|| to_int::<u128>(n).map(|n| n as f64)),
+        _ => None,
+    }
+}
+
+#[cold]
+fn out_of_range<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
+    let n = match node.yaml() {
+        Yaml::Int(n) | Yaml::Float(n) => n,
+        _ => "",
+    };
+    SerdeError::invalid_value(Unexpected::Other(n), &exp).pos(node.pos())
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => to_i64(n).map_or(Unexpected::Other(n), Unexpected::Signed),
+        Yaml::Float(n) => to_f64(n).map_or(Unexpected::Other(n), Unexpected::Float),
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/mod.rs b/src/serde/mod.rs
index 78acc90..9b2a7c0 100644
--- a/src/serde/mod.rs
+++ b/src/serde/mod.rs
@@ -79,6 +79,8 @@
 //! ```
 pub use self::{de::*, error::*, inline_list::*, optional::*, ser::*, stringify::*};
 
+use alloc::string::ToString;
+
 mod de;
 mod error;
 mod inline_list;
@@ -86,3 +88,21 @@ mod optional;
 mod ser;
 mod ser_node;
 mod stringify;
+
+/// Convert to any integer type, `None` if the value is out of range.
+fn to_int<T>(s: &str) -> Option<T>
+where
+    T: TryFrom<i128> + TryFrom<u128>,
+{
+    let (s, radix) = if s.contains("0x") {
+        (s.replace("0x", ""), 16)
+    } else if s.contains("0o") {
+        (s.replace("0o", ""), 8)
+    } else {
+        (s.to_string(), 10)
+    };
+    match i128::from_str_radix(&s, radix) {
+        Ok(n) => T::try_from(n).ok(),
+        Err(_) => T::try_from(u128::from_str_radix(&s, radix).ok()?).ok(),
+    }
+}
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..92e8e90 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,5 @@
-use crate::{repr::Repr, to_f64, to_i64, Node, Yaml};
+use super::to_int;
+use crate::{repr::Repr, to_f64, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -13,8 +14,23 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Some(n) = to_int(n) {
+                    serializer.serialize_i64(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_u64(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_i128(n)
+                } else if let Some(n) = to_int(n) {
+                    serializer.serialize_u128(n)
+                } else {
+                    Err(S::Error::custom(format!("integer {n}")))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
-- 
2.43.0


From be95919c51624ab4ac887e41188ce944f2ae48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 11/55] fix: deserialize characters outside ASCII

---
 src/serde/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 337521e..832311d 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -407,10 +407,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
-                    visitor.visit_char(s.chars().next().unwrap())
-                } else {
-                    Err(unexpected(&self, visitor))
+                let mut chars = s.chars();
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => visitor.visit_char(c),
+                    _ => Err(unexpected(&self, visitor)),
                 }
             }
             Yaml::Int(n) => {
-- 
2.43.0


From 50103978f148e5927b9f89be0d43f1ad2ad64233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 12/55] fix: accept the end of input as the boundary of an
 indicator

---
 src/parser/base/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 0efa60b..10d1e36 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -9,6 +9,9 @@ use core::cmp::Ordering;
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -151,7 +154,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.nl().is_ok() || p.food().is_empty()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
-- 
2.43.0


From 1b651fd46d62df74955797398705afe3e6821804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 13/55] fix: digits followed by flow indicators or colons in
 block context are plain text

---
 src/parser/mod.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6326e02..150b2d2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -273,12 +273,8 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.sci_float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.int() {
-            R::new_rc(Yaml::Int(s))
+        let yaml = if let Ok(n) = self.number(flow) {
+            R::new_rc(n)
         } else if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
@@ -309,6 +305,30 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    fn number(&mut self, flow: bool) -> PResult<Yaml<R>> {
+        self.context(|p| {
+            let n = if let Ok(s) = p.float() {
+                Yaml::Float(s)
+            } else if let Ok(s) = p.sci_float() {
+                Yaml::Float(s)
+            } else {
+                Yaml::Int(p.int()?)
+            };
+            // Flow indicators are plain text out of flow expression
+            let text = match p.food() {
+                _ if flow => false,
+                [b':', c, ..] => !b" \n\r".contains(c),
+                [c, ..] => b"{}[],".contains(c),
+                [] => false,
+            };
+            if text {
+                p.backward();
+                return Err(PError::Mismatch);
+            }
+            Ok(n)
+        })
+    }
+
     /// Match flow sequence.
     pub fn seq_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'[')?;
-- 
2.43.0


From d5e9a06dbf058bc8b225eba57fb9aa19014ee6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 14/55] fix: wrapped plain strings keep blank lines and inner
 spaces, in sequences and at the root as well

---
 src/parser/base/grammar.rs | 46 +++++++++++++++++++-------------------
 src/parser/mod.rs          |  8 +++++++
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 10d1e36..2f1ba74 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -146,7 +146,6 @@ impl Parser<'_> {
         }
         self.context(|p| {
             let mut v = String::new();
-            let mut is_leading = false;
             loop {
                 p.forward();
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
@@ -161,31 +160,32 @@ impl Parser<'_> {
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok() {
-                    // Remove leading space
-                    if is_leading && p.text() == " " {
-                        v.truncate(v.trim_end().len());
-                    }
-                    v.push_str(&p.text());
-                } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
+                if p.sym_set(b": ").is_ok()
+                    || !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok()
+                {
                     v.push_str(&p.text());
-                    is_leading = false;
-                } else if p.ind(level).is_err() || p.text().is_empty() {
-                    // A zero-width indent is not a progress
-                    if let Ok(t) = p.gap(true) {
-                        if t == 1 {
-                            v.push(' ');
-                        }
-                        for _ in 0..t - 1 {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                } else if let Ok(t) = p.gap(true) {
+                    if !inner && p.ind(level).is_err() {
+                        break;
+                    }
+                    // Remove the spaces around the wrapping
+                    p.ws(TakeOpt::More(0))?;
+                    let food = p.food();
+                    if food.is_empty()
+                        || level == 0 && (food.starts_with(b"---") || food.starts_with(b"..."))
+                    {
+                        p.backward();
                         break;
                     }
-                    is_leading = true;
+                    v.truncate(v.trim_end().len());
+                    if t == 1 {
+                        v.push(' ');
+                    }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                } else {
+                    break;
                 }
             }
             v.truncate(v.trim_end().len());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 150b2d2..afb0ad4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -456,6 +456,8 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind(level)?;
                 }
                 self.forward();
+                let pos = self.pos;
+                let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*' | b'?', ..]);
                 let k = if self.complex_mapping().is_ok() {
                     self.forward();
                     let k = self
@@ -469,6 +471,12 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)?
                 };
                 if self.sym(b':').is_err() || self.bound().is_err() {
+                    if plain && matches!(k.yaml(), Yaml::Str(_)) {
+                        // Not a key, the plain string can be wrapped
+                        self.pos = pos;
+                        self.forward();
+                        return self.scalar_term(level, flow);
+                    }
                     // Return key
                     return Ok(k.clone_yaml());
                 }
-- 
2.43.0


From 0047c6f5a36df6887947f3e5b65ed80183220a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 15/55] fix: blank lines and line ends may hold spaces,
 comments may end the input

---
 src/parser/base/grammar.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 2f1ba74..f5a2c33 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -413,23 +413,25 @@ impl Parser<'_> {
     /// Set `cmt` to `true` to ignore comments at the line end.
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
-            if cmt {
-                p.comment().unwrap_or_default();
-            }
-            p.nl()?;
-            let mut t = 1;
+            let mut t = 0;
             loop {
                 // Check point
                 p.forward();
-                p.ws(TakeOpt::More(0))?;
+                if cmt || t > 0 {
+                    p.ws(TakeOpt::More(0))?;
+                }
                 if cmt {
-                    p.comment().unwrap_or_default();
+                    p.context(|p| p.comment().unwrap_or_default());
                 }
-                if p.nl().is_err() {
+                if p.nl().is_ok() {
+                    t += 1;
+                    continue;
+                }
+                // Spaces and comment can be ended by the end of input
+                if !cmt || !p.food().is_empty() {
                     p.backward();
-                    return Ok(t);
                 }
-                t += 1;
+                return if t > 0 { Ok(t) } else { Err(PError::Mismatch) };
             }
         })
     }
-- 
2.43.0


From d9ccdc67bb7f96556f107180d5f574c6c0636d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 16/55] fix: accept comments and wrapping everywhere between
 the tokens of flow collections

---
 src/parser/base/grammar.rs | 12 ++++++++++++
 src/parser/mod.rs          | 22 ++++++++++------------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f5a2c33..8bb8254 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -394,6 +394,18 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_whitespace, opt)
     }
 
+    /// Match any invisible characters and comments in flow expression.
+    pub fn inv_flow(&mut self) -> PResult<()> {
+        loop {
+            self.inv(TakeOpt::More(0))?;
+            // The spaces might be matched already
+            let sep = self.doc[..self.pos].last().is_some_and(u8::is_ascii_whitespace);
+            if !sep || self.context(|p| p.comment().is_err()) {
+                break Ok(());
+            }
+        }
+    }
+
     /// Match and define new indent size.
     pub fn ind_define(&mut self, level: usize) -> PResult<()> {
         if level > 0 {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index afb0ad4..d87aaf4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -334,7 +334,7 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'[')?;
         let mut v = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
+            self.inv_flow()?;
             self.forward();
             if self.sym(b']').is_ok() {
                 break;
@@ -344,9 +344,9 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
-            self.inv(TakeOpt::More(0))?;
+            self.inv_flow()?;
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
+                self.inv_flow()?;
                 if self.sym(b']').is_err() {
                     return self.err("flow sequence terminator");
                 }
@@ -362,7 +362,7 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'{')?;
         let mut m = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
+            self.inv_flow()?;
             self.forward();
             if self.sym(b'}').is_ok() {
                 break;
@@ -370,28 +370,26 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             let k = if self.complex_mapping().is_ok() {
                 self.forward();
-                let k = self
-                    .scalar(level + 1, false, true)
-                    .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() && self.ind(level).is_err() {
-                    return self.err("flow map splitter");
-                }
-                k
+                self.scalar(level + 1, false, true)
+                    .or_else(|e| e.or(|| self.err("flow map key")))?
             } else {
                 self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            self.inv_flow()?;
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
             self.context(|p| p.bound().unwrap_or_default());
+            self.inv_flow()?;
             self.forward();
             let v = self
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv_flow()?;
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
+                self.inv_flow()?;
                 if self.sym(b'}').is_err() {
                     return self.err("flow map terminator");
                 }
-- 
2.43.0


From 7bf0a10717f727d7e4cfb1711af482325fe5c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 17/55] fix: a mapping entry without value no longer swallows
 the entries behind it

---
 src/parser/base/grammar.rs | 11 +++++++++++
 src/parser/mod.rs          |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8bb8254..8437355 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -420,6 +420,17 @@ impl Parser<'_> {
         Ok(())
     }
 
+    /// Match and define new indent size, which must be deeper than its parent.
+    pub fn ind_deeper(&mut self, level: usize) -> PResult<()> {
+        self.ind_define(level)?;
+        if level > 0 && self.indent[level] == 0 {
+            self.indent.truncate(level);
+            self.backward();
+            return Err(PError::Mismatch);
+        }
+        Ok(())
+    }
+
     /// Match any optional invisible characters between two lines.
     ///
     /// Set `cmt` to `true` to ignore comments at the line end.
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d87aaf4..8253321 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -448,7 +448,7 @@ impl<R: Repr> Loader<'_, R> {
                 // First item
                 if map {
                     self.gap(true)?;
-                    self.ind_define(level)?;
+                    self.ind_deeper(level)?;
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
-- 
2.43.0


From 202ab215a3d524dc976260f3036097d44802fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 18/55] fix: escaped backslashes and escaped line breaks in
 quoted strings

---
 src/parser/base/grammar.rs | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 8437355..64a554c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,5 @@
 use super::*;
 use alloc::format;
-use core::cmp::Ordering;
 
 /// The low level grammar implementation for YAML.
 ///
@@ -103,31 +102,34 @@ impl Parser<'_> {
                 p.take_while(Self::not_in(&[b'\n', b'\r', b'\\', sym]), TakeOpt::More(0))?;
                 v.push_str(&p.text());
                 p.forward();
-                if p.sym_seq(ignore).is_ok() {
+                if sym == b'"' && p.sym_seq(b"\\\\").is_ok() {
+                    // Keep the pair, the later one escapes nothing
+                    v.push_str("\\\\");
+                } else if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
-                } else if let Ok(mut t) = p.gap(false) {
-                    if v.ends_with('\\') {
-                        t -= 1;
-                    }
-                    match t.cmp(&1) {
-                        Ordering::Less => {}
-                        Ordering::Equal => {
-                            v.truncate(v.trim_end().len());
-                            // Manual wrapping
-                            if !v.ends_with("\\n") {
-                                v.push(' ');
-                            }
-                        }
-                        Ordering::Greater => {
-                            for _ in 0..t - 1 {
-                                v.push('\n');
-                            }
+                } else if let Ok(t) = p.gap(false) {
+                    v.truncate(v.trim_end().len());
+                    if t > 1 {
+                        for _ in 0..t - 1 {
+                            v.push('\n');
                         }
+                    } else if sym != b'"' || !v.ends_with("\\n") {
+                        // Manual wrapping
+                        v.push(' ');
                     }
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
-                    v.push('\\');
+                    p.forward();
+                    if let (b'"', Ok(t)) = (sym, p.gap(false)) {
+                        // Escaped line break
+                        for _ in 0..t - 1 {
+                            v.push('\n');
+                        }
+                        p.ws(TakeOpt::More(0))?;
+                    } else {
+                        v.push('\\');
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
                 } else {
-- 
2.43.0


From 45b9181c014d6ff56ce9690a1d4955b1913696b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 19/55] fix: dump nodes in a form that is parsed back as the
 same nodes

---
 src/dumper.rs | 201 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 137 insertions(+), 64 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..70fe7bd 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -19,6 +19,7 @@ pub const NL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 enum Root {
     Scalar,
     Map,
+    Key,
     Array,
 }
 
@@ -36,102 +37,99 @@ impl<'a, R: Repr> Dumper<'a, R> {
         Self { node, root: Root::Scalar, level: 0, anchors }
     }
 
-    fn part(&self, node: &'a Node<R>, root: Root, level: usize) -> String {
-        Self { node, root, level, anchors: self.anchors }.dump()
+    fn part(&self, node: &'a Node<R>, root: Root, level: usize, used: &mut Vec<&'a str>) -> String {
+        Self { node, root, level, anchors: self.anchors }.write(used)
     }
 
     /// Dump into string.
     pub fn dump(&self) -> String {
+        self.write(&mut Vec::new())
+    }
+
+    /// Dump the anchor (defined once) and the tag.
+    fn props(&self, used: &mut Vec<&'a str>) -> String {
         let mut doc = String::new();
         if let Some(a) = self
             .anchors
             .iter()
-            .find_map(|(k, v)| if v == self.node { Some(k) } else { None })
+            .find_map(|(k, v)| (v == self.node && !used.contains(&k.as_str())).then_some(k))
         {
+            used.push(a);
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
+        // The default tag is known from the data
+        if tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+            let sub_tag = tag.strip_prefix(parser::tag_prefix!());
+            if let Some(tag) = sub_tag.filter(|tag| is_identifier(tag)) {
                 write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
+            } else if is_identifier(tag) {
                 write!(doc, "!{tag} ").unwrap();
             } else {
                 write!(doc, "!<{tag}> ").unwrap();
             }
         }
+        doc
+    }
+
+    fn write(&self, used: &mut Vec<&'a str>) -> String {
+        let mut doc = self.props(used);
         let ind = "  ".repeat(self.level);
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
+            Yaml::Int(n) => doc += n,
+            Yaml::Float(n) => doc += &float(n),
             Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
+                if self.root != Root::Key && is_literal(s) {
                     // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
-                } else {
+                    let chomp = if s.ends_with('\n') { "" } else { "-" };
+                    write!(doc, "|{chomp}").unwrap();
+                    for s in s.lines() {
+                        doc += NL;
+                        if !s.is_empty() {
+                            doc += &ind;
+                            doc += s;
+                        }
+                    }
+                } else if is_plain::<R>(s) {
                     // Single line string
                     doc += s;
+                } else {
+                    doc += &quoted(s);
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
             Yaml::Seq(v) => {
-                let mut buf = NL.to_string();
-                for (i, node) in v.iter().enumerate() {
-                    if i != 0 || self.level != 0 {
-                        buf += &ind;
-                    }
-                    let s = self.part(node, Root::Array, self.level + 1);
-                    write!(buf, "- {s}{NL}").unwrap();
+                doc.truncate(doc.trim_end().len());
+                for node in v {
+                    let s = self.part(node, Root::Array, self.level + 1, used);
+                    write!(doc, "{NL}{ind}-{}{s}", sep(&s)).unwrap();
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
             }
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Map(m) => {
-                let mut buf = match self.root {
-                    Root::Map => NL.to_string(),
-                    _ => String::new(),
-                };
+                let mut inline = doc.is_empty() && matches!(self.root, Root::Scalar | Root::Array);
+                doc.truncate(doc.trim_end().len());
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || self.root == Root::Map {
-                        buf += &ind;
+                    let s = self.part(k, Root::Key, self.level + 1, used);
+                    // The properties of the first key are not belong to the map
+                    inline &= !s.starts_with(['&', '!']);
+                    if i != 0 || !inline {
+                        write!(doc, "{NL}{ind}").unwrap();
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                    if is_block(k) {
+                        write!(doc, "?{}{s}{NL}{ind}:", sep(&s)).unwrap();
                     } else {
-                        buf += &s;
-                    };
-                    buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
-                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
-                            self.part(v, Root::Map, self.level)
-                        }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        write!(doc, "{s}:").unwrap();
+                    }
+                    let level = match v.yaml() {
+                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => self.level,
+                        _ => self.level + 1,
                     };
-                    buf += NL;
+                    let s = self.part(v, Root::Map, level, used);
+                    write!(doc, "{}{s}", sep(&s)).unwrap();
                 }
-                buf.truncate(buf.len() - NL.len());
-                doc += &buf;
             }
             Yaml::Alias(a) => write!(doc, "*{a}").unwrap(),
         };
@@ -139,10 +137,80 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// The separator between an indicator and its content.
+fn sep(s: &str) -> &'static str {
+    if s.starts_with(NL) {
+        ""
+    } else {
+        " "
+    }
+}
+
+/// The node is dumped in several lines.
+fn is_block<R: Repr>(node: &Node<R>) -> bool {
+    match node.yaml() {
+        Yaml::Seq(v) => !v.is_empty(),
+        Yaml::Map(m) => !m.is_empty(),
+        _ => false,
+    }
+}
+
+fn is_identifier(s: &str) -> bool {
+    let mut p = parser::Parser::new(s.as_bytes());
+    p.identifier().is_ok() && p.food().is_empty()
+}
+
+/// The string is kept in the literal string, which has several lines.
+fn is_literal(s: &str) -> bool {
+    let text = s.strip_suffix('\n').unwrap_or(s);
+    s.lines().nth(1).is_some()
+        && !s.contains('\r')
+        && !s.starts_with('\n')
+        && text.trim_end() == text
+        && !s.lines().any(|s| {
+            s.starts_with("---") || s.starts_with("...") || !s.is_empty() && s.trim().is_empty()
+        })
+}
+
+/// The string is parsed as the same string without quotation.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    !s.starts_with(['|', '>', '\t'])
+        && parser::Loader::<R>::new(s.as_bytes())
+            .parse()
+            .is_ok_and(|v| matches!(v[..], [ref n] if matches!(n.yaml(), Yaml::Str(v) if v == s)))
+}
+
+fn quoted(s: &str) -> String {
+    let mut doc = '"'.to_string();
+    for c in s.chars() {
+        match c {
+            '"' => doc += "\\\"",
+            '\\' => doc += "\\\\",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            c => doc.push(c),
+        }
+    }
+    doc + "\""
+}
+
+fn float(n: &str) -> String {
+    match n {
+        "NaN" => ".nan".to_string(),
+        "inf" => ".inf".to_string(),
+        "-inf" => "-.inf".to_string(),
+        // Distinguish from the integer
+        n if n.contains(['.', 'e', 'E']) => n.to_string(),
+        n => format!("{n}.0"),
+    }
+}
+
 /// Dump the YAML data in to block format.
 ///
 /// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// otherwise it use literal string. The strings that can not be represented
+/// in this way will be quoted.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
@@ -176,10 +244,15 @@ pub fn dump<R: Repr>(nodes: &[Node<R>], anchors: &[Anchors<R>]) -> String {
                 &anchors_empty
             };
             let doc = Dumper::new(node, anchors).dump() + NL;
-            match i {
-                0 => doc,
-                _ => format!("---{NL}{}", doc.trim_start()),
-            }
+            let text = doc.strip_prefix(NL).unwrap_or(&doc);
+            let head = match (i, text.starts_with(['&', '!', '|'])) {
+                // The first line belongs to the first key
+                (_, true) if text.len() < doc.len() => format!("---{NL}"),
+                (0, _) => String::new(),
+                (_, true) => "--- ".to_string(),
+                (_, false) => format!("---{NL}"),
+            };
+            head + text
         })
         .collect()
 }
-- 
2.43.0


From 66b314012c9716b6308ff8997759e614554e914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 20/55] fix: report leftover items, overflowing f32 and the
 position of every deserialization error

---
 src/serde/de.rs    | 176 +++++++++++++++++++++++++++++++++++----------
 src/serde/error.rs |   8 +++
 2 files changed, 147 insertions(+), 37 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 832311d..4538241 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -34,7 +34,7 @@ macro_rules! impl_deserializer {
             V: Visitor<'a>,
         {
             match self.yaml() {
-                Yaml::$ty($n) => visitor.$visit($value),
+                Yaml::$ty($n) => visitor.$visit($value).map_err(|e: SerdeError| e.or_pos(self.pos())),
                 _ => Err(unexpected(&self, visitor)),
             }
         })+
@@ -49,7 +49,7 @@ macro_rules! impl_int_deserializer {
         {
             match self.yaml() {
                 Yaml::Int(n) => match to_int(n) {
-                    Some(n) => visitor.$visit(n),
+                    Some(n) => visitor.$visit(n).map_err(|e: SerdeError| e.or_pos(self.pos())),
                     None => Err(out_of_range(&self, visitor)),
                 },
                 _ => Err(unexpected(&self, visitor)),
@@ -248,7 +248,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(node) => match node.yaml() {
-                Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
+                Yaml::Seq(v) => visit_seq(&node, v, visitor),
                 _ => Err(unexpected(&node, "tuple variant")),
             },
             None => Err(Error::invalid_type(
@@ -268,7 +268,7 @@ impl<'a, R: Repr> VariantAccess<'a> for VariantVisitor<R> {
     {
         match self.0 {
             Some(node) => match node.yaml() {
-                Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+                Yaml::Map(m) => visit_map(&node, m, visitor),
                 _ => Err(unexpected(&node, "struct variant")),
             },
             None => Err(Error::invalid_type(
@@ -296,39 +296,73 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Null => visitor.visit_unit(),
-            Yaml::Bool(b) => visitor.visit_bool(*b),
+            Yaml::Null => visitor
+                .visit_unit()
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Bool(b) => visitor
+                .visit_bool(*b)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
             Yaml::Int(n) => {
                 if let Some(n) = to_int(n) {
-                    visitor.visit_i64(n)
+                    visitor
+                        .visit_i64(n)
+                        .map_err(|e: SerdeError| e.or_pos(self.pos()))
                 } else if let Some(n) = to_int(n) {
-                    visitor.visit_u64(n)
+                    visitor
+                        .visit_u64(n)
+                        .map_err(|e: SerdeError| e.or_pos(self.pos()))
                 } else if let Some(n) = to_int(n) {
-                    visitor.visit_i128(n)
+                    visitor
+                        .visit_i128(n)
+                        .map_err(|e: SerdeError| e.or_pos(self.pos()))
                 } else if let Some(n) = to_int(n) {
-                    visitor.visit_u128(n)
+                    visitor
+                        .visit_u128(n)
+                        .map_err(|e: SerdeError| e.or_pos(self.pos()))
                 } else {
                     Err(out_of_range(&self, visitor))
                 }
             }
             Yaml::Float(n) => match to_f64(n) {
-                Ok(n) => visitor.visit_f64(n),
+                Ok(n) => visitor
+                    .visit_f64(n)
+                    .map_err(|e: SerdeError| e.or_pos(self.pos())),
                 Err(_) => Err(out_of_range(&self, visitor)),
             },
-            Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
-            Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+            Yaml::Str(s) => visitor
+                .visit_str(s)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            Yaml::Map(m) => visit_map(&self, m, visitor),
             Yaml::Alias(a) => Err(SerdeError::from(format!("anchor {a}")).pos(self.pos())),
         }
     }
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
-        fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'a>,
+    {
+        match self.yaml() {
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            _ => Err(unexpected(&self, visitor)),
+        }
+    }
+
+    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'a>,
+    {
+        match self.yaml() {
+            Yaml::Map(m) => visit_map(&self, m, visitor),
+            _ => Err(unexpected(&self, visitor)),
+        }
+    }
+
     impl_int_deserializer! {
         fn deserialize_i8 => visit_i8
         fn deserialize_i16 => visit_i16
@@ -352,11 +386,21 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Int(n) => visitor.visit_str(n),
-            Yaml::Float(n) => visitor.visit_str(n),
-            Yaml::Bool(b) => visitor.visit_str(if *b { "true" } else { "false" }),
-            Yaml::Null => visitor.visit_str("null"),
+            Yaml::Str(s) => visitor
+                .visit_str(s)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Int(n) => visitor
+                .visit_str(n)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Float(n) => visitor
+                .visit_str(n)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Bool(b) => visitor
+                .visit_str(if *b { "true" } else { "false" })
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Null => visitor
+                .visit_str("null")
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -366,11 +410,21 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Int(n) => visitor.visit_str(n),
-            Yaml::Float(n) => visitor.visit_str(n),
-            Yaml::Bool(b) => visitor.visit_str(if *b { "true" } else { "false" }),
-            Yaml::Null => visitor.visit_str("null"),
+            Yaml::Str(s) => visitor
+                .visit_str(s)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Int(n) => visitor
+                .visit_str(n)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Float(n) => visitor
+                .visit_str(n)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Bool(b) => visitor
+                .visit_str(if *b { "true" } else { "false" })
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Null => visitor
+                .visit_str("null")
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -381,7 +435,12 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Float(_) | Yaml::Int(_) => match number(&self) {
-                Some(n) => visitor.visit_f32(n as f32),
+                Some(n) if n.is_finite() && (n as f32).is_infinite() => {
+                    Err(out_of_range(&self, visitor))
+                }
+                Some(n) => visitor
+                    .visit_f32(n as f32)
+                    .map_err(|e: SerdeError| e.or_pos(self.pos())),
                 None => Err(out_of_range(&self, visitor)),
             },
             _ => Err(unexpected(&self, visitor)),
@@ -394,7 +453,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Float(_) | Yaml::Int(_) => match number(&self) {
-                Some(n) => visitor.visit_f64(n),
+                Some(n) => visitor
+                    .visit_f64(n)
+                    .map_err(|e: SerdeError| e.or_pos(self.pos())),
                 None => Err(out_of_range(&self, visitor)),
             },
             _ => Err(unexpected(&self, visitor)),
@@ -409,13 +470,17 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Str(s) => {
                 let mut chars = s.chars();
                 match (chars.next(), chars.next()) {
-                    (Some(c), None) => visitor.visit_char(c),
+                    (Some(c), None) => visitor
+                        .visit_char(c)
+                        .map_err(|e: SerdeError| e.or_pos(self.pos())),
                     _ => Err(unexpected(&self, visitor)),
                 }
             }
             Yaml::Int(n) => {
                 if n.len() == 1 {
-                    visitor.visit_char(n.chars().next().unwrap())
+                    visitor
+                        .visit_char(n.chars().next().unwrap())
+                        .map_err(|e: SerdeError| e.or_pos(self.pos()))
                 } else {
                     Err(unexpected(&self, visitor))
                 }
@@ -436,8 +501,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Str(s) => visitor.visit_str(s),
-            Yaml::Seq(v) => visitor.visit_seq(&mut SeqVisitor::from(v.clone())),
+            Yaml::Str(s) => visitor
+                .visit_str(s)
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -447,7 +514,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Null => visitor.visit_none(),
+            Yaml::Null => visitor
+                .visit_none()
+                .map_err(|e: SerdeError| e.or_pos(self.pos())),
             _ => visitor.visit_some(self),
         }
     }
@@ -457,7 +526,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         if self.is_null() {
-            visitor.visit_unit()
+            visitor
+                .visit_unit()
+                .map_err(|e: SerdeError| e.or_pos(self.pos()))
         } else {
             Err(unexpected(&self, visitor))
         }
@@ -514,8 +585,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
-            Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
+            Yaml::Seq(v) => visit_seq(&self, v, visitor),
+            Yaml::Map(m) => visit_map(&self, m, visitor),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -543,7 +614,9 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
             Yaml::Str(_) => (self.clone(), None),
             _ => return Err(unexpected(&self, visitor)),
         };
-        visitor.visit_enum(EnumVisitor(k, v))
+        visitor
+            .visit_enum(EnumVisitor(k, v))
+            .map_err(|e: SerdeError| e.or_pos(self.pos()))
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -554,6 +627,35 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+/// Visit all items of the sequence, the remaining items are invalid.
+fn visit_seq<'a, R: Repr, V: Visitor<'a>>(
+    node: &Node<R>,
+    v: &Seq<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    let mut seq = SeqVisitor::from(v.clone());
+    visitor
+        .visit_seq(&mut seq)
+        .and_then(|value| match seq.0.next() {
+            Some(_) => Err(SerdeError::invalid_length(
+                v.len(),
+                &"fewer elements in sequence",
+            )),
+            None => Ok(value),
+        })
+        .map_err(|e: SerdeError| e.or_pos(node.pos()))
+}
+
+fn visit_map<'a, R: Repr, V: Visitor<'a>>(
+    node: &Node<R>,
+    m: &Map<R>,
+    visitor: V,
+) -> Result<V::Value, SerdeError> {
+    visitor
+        .visit_map(MapVisitor::from(m.clone()))
+        .map_err(|e: SerdeError| e.or_pos(node.pos()))
+}
+
 fn number<R: Repr>(node: &Node<R>) -> Option<f64> {
     match node.yaml() {
         Yaml::Float(n) => to_f64(n).ok(),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index a784c14..ba7cc4a 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -21,6 +21,14 @@ impl SerdeError {
         self.pos = pos;
         self
     }
+
+    /// Set the position if it is not provided yet.
+    pub(crate) fn or_pos(self, pos: u64) -> Self {
+        match self.pos {
+            0 => self.pos(pos),
+            _ => self,
+        }
+    }
 }
 
 impl From<String> for SerdeError {
-- 
2.43.0


From ae92946c1a3b6ad111a1e961e7b4a743f4e7d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 21/55] fix: count characters, not bytes, in the column of a
 message

---
 src/indicator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..80a5665 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -24,13 +24,15 @@ pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
-            let column = pos;
+            // Count characters, a character may have several bytes
+            let before = String::from_utf8_lossy(&str_line[..pos as usize]);
+            let column = before.chars().count();
             return format!(
                 "{}:{}\n{}\n{}^",
                 line + 1,
                 column + 1,
                 String::from_utf8_lossy(str_line),
-                " ".repeat(column as usize)
+                " ".repeat(column)
             );
         } else {
             pos -= full_line;
-- 
2.43.0


From e9ac0ceb5398df88345555a5444993be350dfab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 22/55] fix: block content behind a line break of a sequence
 item or document can be indented freely

---
 src/parser/base/grammar.rs | 2 +-
 src/parser/base/mod.rs     | 5 +++++
 src/parser/mod.rs          | 9 +++++----
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 64a554c..f92e086 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -167,7 +167,7 @@ impl Parser<'_> {
                 {
                     v.push_str(&p.text());
                 } else if let Ok(t) = p.gap(true) {
-                    if !inner && p.ind(level).is_err() {
+                    if !inner && level > 0 && p.ind(level).is_err() {
                         break;
                     }
                     // Remove the spaces around the wrapping
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..287301f 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -226,6 +226,11 @@ impl Parser<'_> {
         }
     }
 
+    /// Forget the indents of the previous document.
+    pub(crate) fn ind_reset(&mut self) {
+        self.indent = vec![0];
+    }
+
     /// Match indent.
     pub fn ind(&mut self, level: usize) -> PResult<()> {
         if level >= self.indent.len() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8253321..e25dc08 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -189,6 +189,7 @@ impl<R: Repr> Loader<'_, R> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
         self.anchors.push(Anchors::new());
+        self.ind_reset();
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
         self.sym_seq(b"...").unwrap_or_default();
@@ -411,8 +412,8 @@ impl<R: Repr> Loader<'_, R> {
                     self.gap(true)?;
                     self.ind_define(level)?;
                 } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
+                    // Root or sequence item
+                    self.ind_deeper(level)?;
                 }
                 self.sym(b'-')?;
                 self.bound()?;
@@ -450,8 +451,8 @@ impl<R: Repr> Loader<'_, R> {
                     self.gap(true)?;
                     self.ind_deeper(level)?;
                 } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
+                    // Root or sequence item
+                    self.ind_deeper(level)?;
                 }
                 self.forward();
                 let pos = self.pos;
-- 
2.43.0


From eba53f3cf9731a154cba8a68e89afc14e865bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 23/55] fix: compact sequences as complex keys and their values
 are not plain strings

---
 src/parser/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e25dc08..b27dd19 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -440,11 +440,21 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(v.into_iter().collect()))
     }
 
+    /// Check that a sequence begins in the current line, behind its properties.
+    fn compact_seq(&self) -> bool {
+        let line = self.food().split(|c| b"\n\r".contains(c)).next();
+        line.unwrap_or_default()
+            .split(u8::is_ascii_whitespace)
+            .find(|word| !matches!(word, [] | [b'&' | b'!', ..]))
+            == Some(b"-")
+    }
+
     /// Match map.
     pub fn map(&mut self, level: usize, map: bool, flow: bool) -> PResult<R::Rc> {
         let mut m = vec![];
         loop {
             self.forward();
+            let mut complex = false;
             let k = if m.is_empty() {
                 // First item
                 if map {
@@ -458,9 +468,11 @@ impl<R: Repr> Loader<'_, R> {
                 let pos = self.pos;
                 let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*' | b'?', ..]);
                 let k = if self.complex_mapping().is_ok() {
+                    complex = true;
                     self.forward();
+                    let compact = self.compact_seq();
                     let k = self
-                        .scalar(level + 1, true, flow)
+                        .scalar(level + 1, !compact, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
                     if self.gap(true).is_ok() && self.ind(level).is_err() {
                         return self.err("map splitter");
@@ -489,9 +501,11 @@ impl<R: Repr> Loader<'_, R> {
                 }
                 self.forward();
                 let k = if self.complex_mapping().is_ok() {
+                    complex = true;
                     self.forward();
+                    let compact = self.compact_seq();
                     let k = self
-                        .scalar(level + 1, true, flow)
+                        .scalar(level + 1, !compact, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
                     if self.gap(true).is_ok() && self.ind(level).is_err() {
                         return self.err("map splitter");
@@ -507,8 +521,9 @@ impl<R: Repr> Loader<'_, R> {
                 k
             };
             self.forward();
+            let compact = complex && self.compact_seq();
             let v = self
-                .scalar(level + 1, true, false)
+                .scalar(level + 1, !compact, false)
                 .or_else(|e| e.or(|| self.err("map value")))?;
             m.push((k, v));
         }
-- 
2.43.0


From 17ec2c971c209467fe29164c8d816ae9275aa987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 24/55] fix: report a map key that is indented deeper than its
 map

---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b27dd19..deb5996 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -500,6 +500,9 @@ impl<R: Repr> Loader<'_, R> {
                     break;
                 }
                 self.forward();
+                if self.ws(TakeOpt::More(1)).is_ok() {
+                    return self.err("map key");
+                }
                 let k = if self.complex_mapping().is_ok() {
                     complex = true;
                     self.forward();
-- 
2.43.0


From 0635a3cfe957938c221a229abc2861b56685b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 25/55] fix: the position of a node is where its content
 begins, also on a later line

---
 src/parser/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index deb5996..5ff062f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -257,8 +257,13 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.forward();
-        let pos = self.indicator();
+        let mut pos = self.indicator();
+        let begin = self.next_line();
         let yaml = f(self)?;
+        if self.indicator() > begin {
+            // The content is not in the current line
+            pos = begin;
+        }
         self.forward();
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
@@ -272,6 +277,17 @@ impl<R: Repr> Loader<'_, R> {
         }
     }
 
+    /// Get the position of the content, if the current line is ended.
+    fn next_line(&mut self) -> u64 {
+        let pos = self.pos;
+        if self.gap(true).is_ok() {
+            self.context(|p| p.ws(TakeOpt::More(0)).unwrap_or_default());
+        }
+        let begin = self.indicator();
+        self.pos = pos;
+        begin
+    }
+
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
         let yaml = if let Ok(n) = self.number(flow) {
-- 
2.43.0


From cf0a6c101ef5bb9e48d6c66da98f255ecbb54d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 26/55] fix: keep the tag of a scalar which is tagged on a line
 of its own

---
 src/node.rs       |  2 +-
 src/parser/mod.rs | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index aecf200..b58d7e4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -115,7 +115,7 @@ pub type NodeArc = Node<ArcRepr>;
 /// your custom type.
 pub struct Node<R: Repr> {
     pos: u64,
-    tag: String,
+    pub(crate) tag: String,
     yaml: R::Rc,
     _marker: PhantomData<R>,
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5ff062f..4c41b18 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -112,6 +112,8 @@ pub struct Loader<'a, R: Repr> {
     cyclic_mode: bool,
     anchors: Vec<Anchors<R>>,
     doc_ind: usize,
+    // Position and tag of a scalar which was read like a map key
+    key_prop: Option<(u64, String)>,
 }
 
 impl<'a, R: Repr> Loader<'a, R> {
@@ -122,6 +124,7 @@ impl<'a, R: Repr> Loader<'a, R> {
             cyclic_mode: false,
             anchors: Vec::new(),
             doc_ind: 0,
+            key_prop: None,
         }
     }
 }
@@ -242,7 +245,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = optional(self.tag())?.unwrap_or_default();
+        let mut tag = optional(self.tag())?.unwrap_or_default();
         if !tag.is_empty() {
             self.bound()?;
         }
@@ -264,6 +267,12 @@ impl<R: Repr> Loader<'_, R> {
             // The content is not in the current line
             pos = begin;
         }
+        if let Some((key_pos, key_tag)) = self.key_prop.take() {
+            pos = key_pos;
+            if tag.is_empty() {
+                tag = key_tag;
+            }
+        }
         self.forward();
         let node = Node::new_repr(yaml, pos, &tag);
         if !anchor.is_empty()
@@ -505,6 +514,7 @@ impl<R: Repr> Loader<'_, R> {
                         return self.scalar_term(level, flow);
                     }
                     // Return key
+                    self.key_prop = Some((k.pos(), k.tag.clone()));
                     return Ok(k.clone_yaml());
                 }
                 k
-- 
2.43.0


From b5f929de562d61443c2801d6f4be2a11c16ea853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 27/55] fix: keep the line break behind a backslash in single
 quotes

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f92e086..46339f1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -121,7 +121,8 @@ impl Parser<'_> {
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
                     p.forward();
-                    if let (b'"', Ok(t)) = (sym, p.gap(false)) {
+                    let wrap = if sym == b'"' { p.gap(false).ok() } else { None };
+                    if let Some(t) = wrap {
                         // Escaped line break
                         for _ in 0..t - 1 {
                             v.push('\n');
-- 
2.43.0


From dd2d0791a79066f0af102232ebde5a8a4281504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 28/55] fix: fold a line of double quotes which ends with an
 escaped backslash and n

---
 src/parser/base/grammar.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 46339f1..03a0a0a 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -113,7 +113,7 @@ impl Parser<'_> {
                         for _ in 0..t - 1 {
                             v.push('\n');
                         }
-                    } else if sym != b'"' || !v.ends_with("\\n") {
+                    } else if sym != b'"' || !Self::ends_with_wrap(&v) {
                         // Manual wrapping
                         v.push(' ');
                     }
@@ -141,6 +141,12 @@ impl Parser<'_> {
         })
     }
 
+    /// Check that the text, which is not unescaped yet, ends with an escaped newline.
+    fn ends_with_wrap(s: &str) -> bool {
+        s.strip_suffix('n')
+            .is_some_and(|s| (s.len() - s.trim_end_matches('\\').len()) % 2 == 1)
+    }
+
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
         let mut patt = b"[]{}: \n\r".to_vec();
-- 
2.43.0


From b411d825bfad4cd48407716ca3fceddd45b6e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 29/55] fix: keep the Unicode spaces at the line ends of quoted
 and plain strings

---
 src/parser/base/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 03a0a0a..7749105 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -108,7 +108,7 @@ impl Parser<'_> {
                 } else if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
                 } else if let Ok(t) = p.gap(false) {
-                    v.truncate(v.trim_end().len());
+                    v.truncate(v.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
                     if t > 1 {
                         for _ in 0..t - 1 {
                             v.push('\n');
@@ -186,7 +186,7 @@ impl Parser<'_> {
                         p.backward();
                         break;
                     }
-                    v.truncate(v.trim_end().len());
+                    v.truncate(v.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
                     if t == 1 {
                         v.push(' ');
                     }
@@ -197,7 +197,7 @@ impl Parser<'_> {
                     break;
                 }
             }
-            v.truncate(v.trim_end().len());
+            v.truncate(v.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
             if v.is_empty() {
                 Err(PError::Mismatch)
             } else {
-- 
2.43.0


From 77a914aaf113f54f9bc84517101ba8db306bee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 30/55] fix: ignore the unknown directives whose names begin
 with YAML or TAG

---
 src/parser/base/directive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..d61db3a 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -6,9 +6,9 @@ impl Parser<'_> {
     pub fn directive(&mut self) -> PResult<()> {
         self.sym(b'%')?;
         self.context(|p| {
-            if p.sym_seq(b"YAML").is_ok() {
+            if p.directive_name(b"YAML").is_ok() {
                 p.directive_yaml()
-            } else if p.sym_seq(b"TAG").is_ok() {
+            } else if p.directive_name(b"TAG").is_ok() {
                 p.directive_tag()
             } else {
                 // Unknown - ignore
@@ -18,8 +18,12 @@ impl Parser<'_> {
         self.gap(true).map(|_| ())
     }
 
+    fn directive_name(&mut self, name: &[u8]) -> PResult<()> {
+        self.sym_seq(name)?;
+        self.ws(TakeOpt::More(1))
+    }
+
     fn directive_yaml(&mut self) -> PResult<()> {
-        self.ws(TakeOpt::More(1))?;
         if self.version_checked {
             self.err("checked version")
         } else if !self.context(|p| p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok()) {
@@ -31,7 +35,6 @@ impl Parser<'_> {
     }
 
     fn directive_tag(&mut self) -> PResult<()> {
-        self.ws(TakeOpt::More(1))?;
         self.sym(b'!')?;
         self.context(|p| {
             let tag = if p.identifier().is_ok() {
-- 
2.43.0


From a2dad9e9089fee802e07e1619542f8df1e5562f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 31/55] fix: report the versions which only begin with a valid
 one

---
 src/parser/base/directive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index d61db3a..6b1db76 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -26,7 +26,10 @@ impl Parser<'_> {
     fn directive_yaml(&mut self) -> PResult<()> {
         if self.version_checked {
             self.err("checked version")
-        } else if !self.context(|p| p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok()) {
+        } else if !self.context(|p| {
+            (p.sym_seq(b"1.1").is_ok() || p.sym_seq(b"1.2").is_ok())
+                && p.food().first().map_or(true, u8::is_ascii_whitespace)
+        }) {
             self.err("invalid version")
         } else {
             self.version_checked = true;
-- 
2.43.0


From 1ce0c0be5f730848530b28c9998c2791a0ed86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 32/55] fix: accept comments and blank lines in front of the
 directives

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4c41b18..331533e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -164,6 +164,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
+        self.gap(true).unwrap_or_default();
         loop {
             match self.context(Parser::directive) {
                 Ok(()) => (),
-- 
2.43.0


From d0d9af79706afb5a0f1c749b3be1acfb1d220801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 33/55] fix: ignore the invalid tag directives as documented

---
 src/parser/base/directive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 6b1db76..a2bb659 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -9,7 +9,9 @@ impl Parser<'_> {
             if p.directive_name(b"YAML").is_ok() {
                 p.directive_yaml()
             } else if p.directive_name(b"TAG").is_ok() {
+                // Invalid - ignore
                 p.directive_tag()
+                    .or_else(|_| p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0)))
             } else {
                 // Unknown - ignore
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))
-- 
2.43.0


From d1031450ea1f73ad44be28cb89b349f04bb0016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 34/55] fix: split the documents at the markers which begin a
 line and end with a space only

---
 src/parser/base/grammar.rs | 15 ++++++++++-----
 src/parser/mod.rs          | 21 +++++++++++----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7749105..b0921a3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -16,6 +16,13 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(0))
     }
 
+    /// Check the document marker, which is followed by nothing or a space.
+    pub(crate) fn doc_mark(&self, mark: &[u8]) -> bool {
+        self.food()
+            .strip_prefix(mark)
+            .is_some_and(|food| food.first().map_or(true, u8::is_ascii_whitespace))
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
@@ -177,12 +184,10 @@ impl Parser<'_> {
                     if !inner && level > 0 && p.ind(level).is_err() {
                         break;
                     }
+                    let end = level == 0 && (p.doc_mark(b"---") || p.doc_mark(b"..."));
                     // Remove the spaces around the wrapping
                     p.ws(TakeOpt::More(0))?;
-                    let food = p.food();
-                    if food.is_empty()
-                        || level == 0 && (food.starts_with(b"---") || food.starts_with(b"..."))
-                    {
+                    if end || p.food().is_empty() {
                         p.backward();
                         break;
                     }
@@ -246,7 +251,7 @@ impl Parser<'_> {
                 p.forward();
                 let food = p.food();
                 if food.is_empty()
-                    || level == 0 && (food.starts_with(b"---") || food.starts_with(b"..."))
+                    || level == 0 && (p.doc_mark(b"---") || p.doc_mark(b"..."))
                 {
                     break;
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 331533e..bb3e43b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -173,16 +173,21 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"---").unwrap_or_default();
+        if self.doc_mark(b"---") {
+            self.sym_seq(b"---")?;
+        } else {
+            self.backward();
+        }
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
             if self.food().is_empty() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if !self.doc_mark(b"---") {
                 return self.err("document splitter");
             }
+            self.sym_seq(b"---")?;
             v.push(self.doc()?);
         }
         Ok(v)
@@ -196,7 +201,9 @@ impl<R: Repr> Loader<'_, R> {
         self.ind_reset();
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        if self.doc_mark(b"...") {
+            self.sym_seq(b"...")?;
+        }
         self.forward();
         self.doc_ind += 1;
         Ok(ret)
@@ -207,13 +214,7 @@ impl<R: Repr> Loader<'_, R> {
         if self.food().is_empty() {
             true
         } else {
-            self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
-                if b {
-                    p.backward();
-                }
-                b
-            })
+            self.doc_mark(b"---") || self.doc_mark(b"...")
         }
     }
 
-- 
2.43.0


From 5c780e3ffb05c33ae1fba0c2f66e0088a6510d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 35/55] fix: keep the empty documents in front of a marker

---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index bb3e43b..73ff3e5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -488,6 +488,11 @@ impl<R: Repr> Loader<'_, R> {
                     self.gap(true)?;
                     self.ind_deeper(level)?;
                 } else if self.gap(true).is_ok() {
+                    if level == 0 && !self.food().is_empty() && self.doc_end() {
+                        // Empty document
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                     // Root or sequence item
                     self.ind_deeper(level)?;
                 }
-- 
2.43.0


From 8698412fd214552698f3480522817c534d710b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 36/55] fix: begin no plain string with a comment

---
 src/parser/base/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index b0921a3..adc89ca 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -160,6 +160,10 @@ impl Parser<'_> {
         if inner {
             patt.push(b',');
         }
+        if self.food().starts_with(b"#") {
+            // Comment
+            return Err(PError::Mismatch);
+        }
         self.context(|p| {
             let mut v = String::new();
             loop {
-- 
2.43.0


From 80e2c9d866dbc6ab0e1fd9310c9b9d84144bd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 37/55] fix: keep the content of the literal and folded strings

The indentation is defined by the first line of the content, blank lines
are not doubled, only line breaks are chomped, and an empty string stays
empty.
---
 src/dumper.rs              |  2 +-
 src/parser/base/grammar.rs | 75 ++++++++++++++++++++++++--------------
 2 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 70fe7bd..8e215e3 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -165,7 +165,7 @@ fn is_literal(s: &str) -> bool {
     let text = s.strip_suffix('\n').unwrap_or(s);
     s.lines().nth(1).is_some()
         && !s.contains('\r')
-        && !s.starts_with('\n')
+        && !s.starts_with(['\n', ' '])
         && text.trim_end() == text
         && !s.lines().any(|s| {
             s.starts_with("---") || s.starts_with("...") || !s.is_empty() && s.trim().is_empty()
diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index adc89ca..f52eea3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -237,11 +237,14 @@ impl Parser<'_> {
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
             if p.sym(b'-').is_ok() {
-                |s: String| s.trim_end().to_string()
+                |s: String| s.trim_end_matches('\n').to_string()
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| s.trim_end().to_string() + "\n"
+                |s: String| match s.trim_end_matches('\n') {
+                    "" => String::new(),
+                    s => s.to_string() + "\n",
+                }
             }
         })
     }
@@ -250,50 +253,68 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            // Column of the content, defined by its first line
+            let mut col = None;
+            let mut blank = 0;
             p.nl()?;
             loop {
                 p.forward();
-                let food = p.food();
-                if food.is_empty()
-                    || level == 0 && (p.doc_mark(b"---") || p.doc_mark(b"..."))
-                {
+                if level == 0 && (p.doc_mark(b"---") || p.doc_mark(b"...")) {
                     break;
                 }
-                if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(false) {
-                        for _ in 0..t {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                let ws = p.count(|p| p.ws(TakeOpt::More(0)))?;
+                if !leading || col.map_or(true, |col| ws <= col) {
+                    if p.food().is_empty() {
                         break;
                     }
+                    if p.nl().is_ok() {
+                        blank += 1;
+                        continue;
+                    }
                 }
-                p.forward();
-                p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
-                let s = p.text();
-                if leading {
-                    if !v.is_empty() {
-                        v.push(char::from(sep));
+                p.backward();
+                if col.is_some() {
+                    if p.ind(level).is_err() {
+                        break;
                     }
-                    v.push_str(&s);
+                } else if level > 0 && p.ind(level - 1).is_err() {
+                    break;
                 } else {
-                    let s = s.trim_start();
-                    if !v.is_empty() && !v.ends_with(char::is_whitespace) {
-                        v.push(char::from(sep));
+                    let ind = p.count(|p| p.take_while(Self::is_in(b" "), TakeOpt::More(0)))?;
+                    if level > 0 && ind == 0 {
+                        break;
                     }
-                    v.push_str(s);
+                    p.indent.truncate(level);
+                    p.indent.push(ind);
+                }
+                p.forward();
+                p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
+                let s = p.text();
+                let s = if leading { &s } else { s.trim_start_matches([' ', '\t']) };
+                if col.is_some() && (leading || blank == 0 && !v.ends_with([' ', '\t'])) {
+                    v.push(char::from(sep));
+                }
+                for _ in 0..blank {
+                    v.push('\n');
                 }
+                v.push_str(s);
+                col = Some(p.indent.iter().sum());
+                blank = 0;
                 if p.nl().is_err() {
                     // No newline at the end of file
                     return Ok(v + "\n");
                 }
             }
+            if col.is_some() {
+                v.push('\n');
+            }
+            for _ in 0..blank {
+                v.push('\n');
+            }
             // Keep the last wrap
+            p.backward();
             p.back(1);
-            Ok(v + "\n")
+            Ok(v)
         })
     }
 
-- 
2.43.0


From b646a189cb2ab3b633229e7477196ed858c25067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 38/55] fix: accept the comments and the end of input behind
 the header of block strings

---
 src/parser/base/grammar.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f52eea3..9bcc2e1 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -256,6 +256,12 @@ impl Parser<'_> {
             // Column of the content, defined by its first line
             let mut col = None;
             let mut blank = 0;
+            if p.doc[..p.pos].last().is_some_and(u8::is_ascii_whitespace) {
+                p.context(|p| p.comment().unwrap_or_default());
+            }
+            if p.food().is_empty() {
+                return Ok(v);
+            }
             p.nl()?;
             loop {
                 p.forward();
-- 
2.43.0


From 543e4825d8f9a47bcad86a7f6b46f303a94f9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 39/55] fix: expand the local tags with their declared prefix

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9bcc2e1..3f0dce7 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -370,7 +370,7 @@ impl Parser<'_> {
                         None => return p.err("tag handle"),
                     }
                 } else {
-                    String::new()
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From ad309b290ef948f8bbfec1f7ffdf5a6406b300f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 40/55] fix: drop the space behind the non-specific tag

---
 src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 73ff3e5..30cb0a6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -247,10 +247,11 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let mut tag = optional(self.tag())?.unwrap_or_default();
-        if !tag.is_empty() {
+        let tag = optional(self.tag())?;
+        if tag.is_some() {
             self.bound()?;
         }
+        let mut tag = tag.unwrap_or_default();
         self.forward();
         let anchor2 = self.anchor().unwrap_or_default();
         if !anchor2.is_empty() {
-- 
2.43.0


From 8ac3d8d9e485f3e1279442ea6677e3c8d742ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 41/55] fix: leave the indicator of a mismatched anchor, alias
 or tag

---
 src/parser/base/grammar.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3f0dce7..e30a4b4 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -356,10 +356,23 @@ impl Parser<'_> {
         )
     }
 
+    /// Match the text behind the symbol, the symbol is left if it is mismatched.
+    fn scope<F, R>(&mut self, sym: u8, f: F) -> PResult<R>
+    where
+        F: FnOnce(&mut Self) -> PResult<R>,
+    {
+        let pos = self.pos;
+        self.sym(sym)?;
+        let ret = self.context(f);
+        if let Err(PError::Mismatch) = ret {
+            self.pos = pos;
+        }
+        ret
+    }
+
     /// Match tags.
     pub fn tag(&mut self) -> PResult<String> {
-        self.sym(b'!')?;
-        self.context(|p| {
+        self.scope(b'!', |p| {
             p.identifier().unwrap_or_default();
             let tag = p.text();
             let prefix = if !tag.is_empty() {
@@ -398,8 +411,7 @@ impl Parser<'_> {
 
     /// Match anchor definition.
     pub fn anchor(&mut self) -> PResult<String> {
-        self.sym(b'&')?;
-        self.context(|p| {
+        self.scope(b'&', |p| {
             p.identifier()?;
             Ok(p.text())
         })
@@ -407,8 +419,7 @@ impl Parser<'_> {
 
     /// Match anchor used.
     pub fn anchor_use(&mut self) -> PResult<String> {
-        self.sym(b'*')?;
-        self.context(|p| {
+        self.scope(b'*', |p| {
             p.identifier()?;
             Ok(p.text())
         })
-- 
2.43.0


From 8840d6f6b3e1352211d326a755664e6518c9f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 42/55] fix: take nothing if the upper bound is zero

---
 src/parser/base/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 287301f..e82c59f 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -154,7 +154,7 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
-            if !f(c) {
+            if matches!(opt, TakeOpt::Range(_, 0)) || !f(c) {
                 break;
             }
             self.pos += 1;
-- 
2.43.0


From eb768eea2225a68befbdba9a24e5af0ac1a5f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 43/55] fix: leave the text of a mismatched plain string

---
 src/parser/base/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e30a4b4..7fd1ce0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -164,6 +164,7 @@ impl Parser<'_> {
             // Comment
             return Err(PError::Mismatch);
         }
+        let pos = self.pos;
         self.context(|p| {
             let mut v = String::new();
             loop {
@@ -208,6 +209,7 @@ impl Parser<'_> {
             }
             v.truncate(v.trim_end_matches(|c: char| c.is_ascii_whitespace()).len());
             if v.is_empty() {
+                p.pos = pos;
                 Err(PError::Mismatch)
             } else {
                 Ok(v)
-- 
2.43.0


From 1c470c2caa54e5d59c234b5c0aa6168fb2fd60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 44/55] fix: keep the text of the numbers out of the types of
 Stringify

---
 src/serde/stringify.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/serde/stringify.rs b/src/serde/stringify.rs
index 572e665..66140cf 100644
--- a/src/serde/stringify.rs
+++ b/src/serde/stringify.rs
@@ -1,4 +1,4 @@
-use alloc::string::String;
+use alloc::string::{String, ToString};
 use core::fmt::{Display, Formatter};
 use serde::{Deserialize, Serialize};
 
@@ -26,7 +26,7 @@ use serde::{Deserialize, Serialize};
 /// assert_eq!("20%", percent.width.to_string());
 /// ```
 #[derive(Serialize, Deserialize, Debug, PartialEq)]
-#[serde(untagged)]
+#[serde(untagged, from = "Scalar")]
 pub enum Stringify {
     /// Boolean value.
     Bool(bool),
@@ -38,6 +38,32 @@ pub enum Stringify {
     Str(String),
 }
 
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum Scalar {
+    Bool(bool),
+    Int(i64),
+    Uint(u64),
+    Float(f64),
+    Str(String),
+}
+
+impl From<Scalar> for Stringify {
+    fn from(scalar: Scalar) -> Self {
+        match scalar {
+            Scalar::Bool(b) => Self::Bool(b),
+            // Keep the text of the numbers which are out of the types
+            Scalar::Int(n) => i32::try_from(n).map_or_else(|_| Self::Str(n.to_string()), Self::Int),
+            Scalar::Uint(n) => Self::Str(n.to_string()),
+            Scalar::Float(n) => match (n as f32).to_string() {
+                s if s == n.to_string() => Self::Float(n as f32),
+                _ => Self::Str(n.to_string()),
+            },
+            Scalar::Str(s) => Self::Str(s),
+        }
+    }
+}
+
 impl Display for Stringify {
     fn fmt(&self, f: &mut Formatter) -> core::fmt::Result {
         match self {
-- 
2.43.0


From e040bd53a8aa895ea58b5f9905503c12aacf5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 45/55] fix: read the node behind a line of its properties

---
 src/parser/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 30cb0a6..1edbda7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -468,6 +468,20 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(v.into_iter().collect()))
     }
 
+    /// Check that there are only properties in the current line.
+    fn prop_line(&mut self) -> bool {
+        let pos = self.pos;
+        let mut prop = false;
+        while (self.anchor().is_ok() || self.tag().is_ok()) && self.bound().is_ok() {
+            self.forward();
+            prop = true;
+        }
+        let end = prop && self.gap(true).is_ok();
+        self.pos = pos;
+        self.forward();
+        end
+    }
+
     /// Check that a sequence begins in the current line, behind its properties.
     fn compact_seq(&self) -> bool {
         let line = self.food().split(|c| b"\n\r".contains(c)).next();
@@ -498,6 +512,12 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind_deeper(level)?;
                 }
                 self.forward();
+                if self.prop_line() {
+                    // The content is in the next line
+                    let n = self.scalar(level, map, flow)?;
+                    self.key_prop = Some((n.pos(), n.tag.clone()));
+                    return Ok(n.clone_yaml());
+                }
                 let pos = self.pos;
                 let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*' | b'?', ..]);
                 let k = if self.complex_mapping().is_ok() {
-- 
2.43.0


From f9b0c7555cb2fcd219cd0475a9e0117a7dd2f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:17 +0000
Subject: [PATCH 46/55] fix: read the node in the line behind its properties in
 flow collections

---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1edbda7..3042927 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -302,6 +302,11 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
+        if flow {
+            // The properties can be in another line
+            self.inv_flow()?;
+            self.forward();
+        }
         let yaml = if let Ok(n) = self.number(flow) {
             R::new_rc(n)
         } else if let Ok(s) = self.anchor_use() {
-- 
2.43.0


From 45fe07483780e38e45daa9c34f9fdf20e426f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 47/55] fix: accept complex keys without values

---
 src/parser/mod.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3042927..6ea2d88 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -473,6 +473,18 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(v.into_iter().collect()))
     }
 
+    /// Check the value of a complex key, move to its indicator if there is one.
+    fn complex_value(&mut self, level: usize) -> bool {
+        let pos = self.pos;
+        let line = self.gap(true).is_err() || self.ind(level).is_ok();
+        let ind = self.pos;
+        self.forward();
+        let value = line && self.sym(b':').is_ok() && self.bound().is_ok();
+        self.pos = if value { ind } else { pos };
+        self.forward();
+        value
+    }
+
     /// Check that there are only properties in the current line.
     fn prop_line(&mut self) -> bool {
         let pos = self.pos;
@@ -532,8 +544,14 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, !compact, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() && self.ind(level).is_err() {
-                        return self.err("map splitter");
+                    if !self.complex_value(level) {
+                        // The value is omitted
+                        let v = Node::new_repr(R::new_rc(Yaml::Null), self.indicator(), "");
+                        m.push((k, v));
+                        if flow {
+                            break;
+                        }
+                        continue;
                     }
                     k
                 } else {
@@ -569,8 +587,14 @@ impl<R: Repr> Loader<'_, R> {
                     let k = self
                         .scalar(level + 1, !compact, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() && self.ind(level).is_err() {
-                        return self.err("map splitter");
+                    if !self.complex_value(level) {
+                        // The value is omitted
+                        let v = Node::new_repr(R::new_rc(Yaml::Null), self.indicator(), "");
+                        m.push((k, v));
+                        if flow {
+                            break;
+                        }
+                        continue;
                     }
                     k
                 } else {
-- 
2.43.0


From 74ce4ea528b1d8026728b884362859d5e9cd1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 48/55] fix: accept the complex keys of flow maps

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6ea2d88..0d289db 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -404,7 +404,7 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             let k = if self.complex_mapping().is_ok() {
                 self.forward();
-                self.scalar(level + 1, false, true)
+                self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             } else {
                 self.scalar_flow(level + 1, true)
-- 
2.43.0


From 3346bfd00f4743e3bf72d7876edc7da5c9e98319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:41 +0000
Subject: [PATCH 49/55] fix: read the lines of properties behind a line break
 only

---
 src/parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0d289db..76f25fe 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -516,10 +516,12 @@ impl<R: Repr> Loader<'_, R> {
             let mut complex = false;
             let k = if m.is_empty() {
                 // First item
-                if map {
-                    self.gap(true)?;
+                let line = self.gap(true).is_ok();
+                if map && !line {
+                    return Err(PError::Mismatch);
+                } else if map {
                     self.ind_deeper(level)?;
-                } else if self.gap(true).is_ok() {
+                } else if line {
                     if level == 0 && !self.food().is_empty() && self.doc_end() {
                         // Empty document
                         self.backward();
@@ -529,7 +531,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.ind_deeper(level)?;
                 }
                 self.forward();
-                if self.prop_line() {
+                if line && self.prop_line() {
                     // The content is in the next line
                     let n = self.scalar(level, map, flow)?;
                     self.key_prop = Some((n.pos(), n.tag.clone()));
-- 
2.43.0


From 30757c7479909dc402ced50180f10d20e2c93f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 50/55] fix: read the wrapped plain strings behind their
 properties

---
 src/parser/mod.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 76f25fe..f6f02c3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -485,15 +485,26 @@ impl<R: Repr> Loader<'_, R> {
         value
     }
 
+    /// Match the properties in the current line, return the anchor.
+    fn props(&mut self) -> PResult<String> {
+        let mut ret = Err(PError::Mismatch);
+        loop {
+            if let Ok(anchor) = self.anchor() {
+                ret = Ok(anchor);
+            } else if self.tag().is_ok() {
+                ret = ret.or_else(|_| Ok(String::new()));
+            } else {
+                return ret;
+            }
+            self.bound()?;
+            self.forward();
+        }
+    }
+
     /// Check that there are only properties in the current line.
     fn prop_line(&mut self) -> bool {
         let pos = self.pos;
-        let mut prop = false;
-        while (self.anchor().is_ok() || self.tag().is_ok()) && self.bound().is_ok() {
-            self.forward();
-            prop = true;
-        }
-        let end = prop && self.gap(true).is_ok();
+        let end = self.props().is_ok() && self.gap(true).is_ok();
         self.pos = pos;
         self.forward();
         end
@@ -539,6 +550,7 @@ impl<R: Repr> Loader<'_, R> {
                 }
                 let pos = self.pos;
                 let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*' | b'?', ..]);
+                let prop = matches!(self.food(), [b'!' | b'&', ..]);
                 let k = if self.complex_mapping().is_ok() {
                     complex = true;
                     self.forward();
@@ -566,6 +578,18 @@ impl<R: Repr> Loader<'_, R> {
                         self.forward();
                         return self.scalar_term(level, flow);
                     }
+                    if prop && matches!(k.yaml(), Yaml::Str(_)) {
+                        // Same, behind its properties
+                        self.pos = pos;
+                        self.forward();
+                        let anchor = self.props()?;
+                        self.anchors[self.doc_ind].remove(&anchor);
+                        self.pos = pos;
+                        self.forward();
+                        let n = self.scalar_flow(level, flow)?;
+                        self.key_prop = Some((n.pos(), n.tag.clone()));
+                        return Ok(n.clone_yaml());
+                    }
                     // Return key
                     self.key_prop = Some((k.pos(), k.tag.clone()));
                     return Ok(k.clone_yaml());
-- 
2.43.0


From 605d65072de687a03a5754bd4b1d3138327b5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 51/55] fix: quote the strings which begin like a document end
 marker

---
 src/dumper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8e215e3..bf0a3a7 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -175,6 +175,7 @@ fn is_literal(s: &str) -> bool {
 /// The string is parsed as the same string without quotation.
 fn is_plain<R: Repr>(s: &str) -> bool {
     !s.starts_with(['|', '>', '\t'])
+        && !parser::Parser::new(s.as_bytes()).doc_mark(b"...")
         && parser::Loader::<R>::new(s.as_bytes())
             .parse()
             .is_ok_and(|v| matches!(v[..], [ref n] if matches!(n.yaml(), Yaml::Str(v) if v == s)))
-- 
2.43.0


From 0709ffb3c356b772d6f54e89737597338e057329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 52/55] fix: quote the strings which begin like a directive

---
 src/dumper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index bf0a3a7..04ee8ed 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -174,7 +174,7 @@ fn is_literal(s: &str) -> bool {
 
 /// The string is parsed as the same string without quotation.
 fn is_plain<R: Repr>(s: &str) -> bool {
-    !s.starts_with(['|', '>', '\t'])
+    !s.starts_with(['|', '>', '\t', '%'])
         && !parser::Parser::new(s.as_bytes()).doc_mark(b"...")
         && parser::Loader::<R>::new(s.as_bytes())
             .parse()
-- 
2.43.0


From 9f567bc8ff031989d0d16371302972b81bb77f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 53/55] fix: reject the tag prefixes which can not be written
 in a tag

---
 src/parser/base/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index a2bb659..388357c 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -53,7 +53,7 @@ impl Parser<'_> {
             };
             p.ws(TakeOpt::More(1))?;
             let doc = p.context(|p| {
-                p.take_while(Self::not_in(b" \n\r"), TakeOpt::More(1))?;
+                p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(1))?;
                 Ok(p.text())
             })?;
             p.tag.insert(tag, doc);
-- 
2.43.0


From 9f21afeccc46af1b8041b154c3c3f4e3beb0bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:21 +0000
Subject: [PATCH 54/55] fix: wrap plain strings which begin with a keyword or a
 question mark

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f6f02c3..e56a148 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -549,7 +549,7 @@ impl<R: Repr> Loader<'_, R> {
                     return Ok(n.clone_yaml());
                 }
                 let pos = self.pos;
-                let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*' | b'?', ..]);
+                let plain = !matches!(self.food(), [b'\'' | b'"' | b'!' | b'&' | b'*', ..]);
                 let prop = matches!(self.food(), [b'!' | b'&', ..]);
                 let k = if self.complex_mapping().is_ok() {
                     complex = true;
@@ -572,7 +572,13 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)?
                 };
                 if self.sym(b':').is_err() || self.bound().is_err() {
-                    if plain && matches!(k.yaml(), Yaml::Str(_)) {
+                    let wrap = match k.yaml() {
+                        Yaml::Str(_) | Yaml::Bool(_) | Yaml::Float(_) => plain && !complex,
+                        // Not an empty one
+                        Yaml::Null => plain && self.pos > pos,
+                        _ => false,
+                    };
+                    if wrap {
                         // Not a key, the plain string can be wrapped
                         self.pos = pos;
                         self.forward();
-- 
2.43.0


From b750f3feec906ae791f69a5259552fa22a58b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:57 +0000
Subject: [PATCH 55/55] fix: keep plain strings which begin with a dash or a
 question mark and a colon

---
 src/parser/base/grammar.rs | 16 ++++++++++++++++
 src/parser/mod.rs          |  5 ++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7fd1ce0..3cdaf1d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -23,8 +23,24 @@ impl Parser<'_> {
             .is_some_and(|food| food.first().map_or(true, u8::is_ascii_whitespace))
     }
 
+    /// Match sequence item indicator (`-`).
+    pub(crate) fn seq_item(&mut self) -> PResult<()> {
+        if self.food().starts_with(b"-:") {
+            // The begin of a plain string
+            self.backward();
+            return Err(PError::Mismatch);
+        }
+        self.sym(b'-')?;
+        self.bound()
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
+        if self.food().starts_with(b"?:") {
+            // The begin of a plain string
+            self.backward();
+            return Err(PError::Mismatch);
+        }
         self.sym(b'?')?;
         self.bound()
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e56a148..7a1c408 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -448,8 +448,7 @@ impl<R: Repr> Loader<'_, R> {
                     // Root or sequence item
                     self.ind_deeper(level)?;
                 }
-                self.sym(b'-')?;
-                self.bound()?;
+                self.seq_item()?;
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("sequence terminator");
@@ -457,7 +456,7 @@ impl<R: Repr> Loader<'_, R> {
                 if self.doc_end() || self.ind(level).is_err() {
                     break;
                 }
-                if self.sym(b'-').is_err() || self.bound().is_err() {
+                if self.seq_item().is_err() {
                     break;
                 }
                 self.forward();
-- 
2.43.0

