From 865d4e954a1a024a9d7aa42435b6f0bf49d2437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 01/22] fix: line_comment recognises // comments too

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..a36f5c6 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -52,7 +52,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From d9862aaa8cc4cb47ad80e15eb04d880b8d20f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 02/22] fix: unindent heredocs with short, blank or multi-byte
 lines

---
 lib/src/parser/string.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..fbf8146 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -64,17 +64,13 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
 
     let mut result = String::with_capacity(string.len());
     for line in string.split('\n') {
-        // Trim spaces at the beginning first
-        // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        // Trim at most `indentation` spaces at the beginning, and nothing else
+        let spaces = line
+            .bytes()
+            .take(indentation)
+            .take_while(|byte| *byte == b' ')
+            .count();
+        result.push_str(&line[spaces..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From 26713a9a318368ac06d254afb36555c064da99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 03/22] fix: build a Number from the smallest signed integers
 without overflow

---
 lib/src/parser/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..0f64a53 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -73,8 +73,8 @@ macro_rules! from_int {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                let input: Cow<str> = Cow::Owned(n.to_string());
+                let whole = Some(Cow::Owned(input.trim_start_matches('-').to_string()));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From d693fb28aed7244dbf3840fabcb26c85c3ff00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 04/22] fix: compare floats with their sign

---
 lib/src/parser/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 0f64a53..318ba95 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -166,8 +166,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -178,7 +178,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From 8cafc12307baefe67c96cce58400305ce6ca93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 05/22] fix: a Number too large for a native type equals itself

---
 lib/src/parser/number.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 318ba95..db6cc3b 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -156,7 +156,10 @@ impl<'a> AsOwned for Number<'a> {
 
 impl<'a> std::cmp::PartialEq for Number<'a> {
     fn eq(&self, other: &Self) -> bool {
-        if self.is_float() || other.is_float() {
+        if self.input == other.input {
+            // The same literal, even if it does not fit any native type
+            true
+        } else if self.is_float() || other.is_float() {
             // Good enough comparison
             // From https://users.rust-lang.org/t/assert-eq-for-float-numbers/7034/4
             let us = self.as_f64();
-- 
2.43.0


From e81c405abdd4847af4f79bc665fe3430999771fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 06/22] fix: index blocks of one type that are not adjacent

---
 lib/src/parser/block.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..caa3f2c 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -194,14 +194,17 @@ impl<'a> Blocks<'a> {
     where
         T: IntoIterator<Item = Block<'a>>,
     {
-        let mut hashmap = HashMap::new();
+        let mut hashmap: HashMap<_, BlockBody> = HashMap::new();
         for (block_type, blocks) in blocks
             .into_iter()
             .group_by(|block| block.r#type.clone())
             .into_iter()
         {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
+            // Blocks of the same type need not be adjacent
+            hashmap
+                .entry(block_type)
+                .or_default()
+                .extend(blocks.map(|block| (block.labels, block.body)));
         }
         Self { blocks: hashmap }
     }
-- 
2.43.0


From f6a2df39b327e57a9328b1f574f95a9f6c89dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 07/22] fix: keep all labels when indexing a block under a new
 first label

---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index caa3f2c..ea019d1 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -433,7 +433,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut new_body = BlockBody::default();
+                            new_body.append(labels, body);
+                            vacant.insert(new_body);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From 66a9bcf0e3340c1eabf88b11ffb2f55072bba9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 08/22] fix: count every label in label_lens_uniform

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index ea019d1..b8ebe2a 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -648,7 +648,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From f73129d710a1f71fbcef93aeeedd3e0fafc80103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 09/22] fix: block labels with equal text are equal however
 they were written

---
 lib/src/parser/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index b8ebe2a..4737b8a 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -82,6 +82,13 @@ impl<'a> Hash for BlockLabel<'a> {
     }
 }
 
+/// Labels are compared by their text, which is what `Hash` and `Borrow<str>` use as well
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a, S> PartialEq<S> for BlockLabel<'a>
 where
     S: AsRef<str>,
-- 
2.43.0


From a15e48ec00b4dca72c566edc10fd918bd0022169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 10/22] fix: keys with equal text are equal however they were
 written

---
 lib/src/parser/literals/key.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..6a718fa 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,13 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+/// Keys are compared by their text, which is what `Hash` and `Borrow<str>` use as well
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From 0a905226bbe4ba36245ac37a25abf8352119e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 11/22] fix: hash object keys like the text they borrow as

---
 lib/src/parser/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..271005a 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -50,6 +51,14 @@ impl<'a> ObjectElementIdentifier<'a> {
     }
 }
 
+/// Consistent with the hash of the borrowed `str`
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let text: &str = self.borrow();
+        text.hash(state)
+    }
+}
+
 impl<'a, S> PartialEq<S> for ObjectElementIdentifier<'a>
 where
     S: AsRef<str>,
-- 
2.43.0


From b6862ad2cf72be711a0328e1fa0636faa728f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 12/22] fix: null is a scalar value, so that its length and
 flags are defined

---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From e8786aaed0ff4db28c4e08f4c8ea7f51c15cae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 13/22] fix: refuse to merge blocks with identical labels
 instead of dropping one

---
 lib/src/value.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..9efec34 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -621,12 +621,16 @@ impl<'a> Block<'a> {
         K: IntoIterator<Item = S>,
         S: ToString,
     {
-        let mut merged = HashMap::default();
+        let mut merged: HashMap<Vec<String>, _> = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let key: Vec<String> = key.into_iter().map(|s| s.to_string()).collect();
+            if merged.contains_key(&key) {
+                return Err(Error::IllegalMultipleEntries {
+                    key: key.join(" "),
+                    variant: BLOCK,
+                });
+            }
+            let _ = merged.insert(key, value.merge()?);
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,7 +830,16 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
-                                block.extend(incoming);
+                                for (labels, body) in incoming {
+                                    // No two blocks can have the same labels
+                                    if block.get_single(&labels).is_some() {
+                                        return Err(Error::IllegalMultipleEntries {
+                                            key: format!("{} {}", key, labels.join(" ")),
+                                            variant: BLOCK,
+                                        });
+                                    }
+                                    block.extend(Some((labels, body)));
+                                }
                             } else {
                                 return Err(Error::ErrorMergingKeys {
                                     key,
-- 
2.43.0


From d266e9031dd73b0e3071627c99111a5e90c52a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 14/22] fix: end safe_indices at the end of the input, at
 character boundaries

---
 lib/src/utils.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/src/utils.rs b/lib/src/utils.rs
index c1ed70d..e8142a7 100644
--- a/lib/src/utils.rs
+++ b/lib/src/utils.rs
@@ -55,21 +55,14 @@ where
     }
 }
 
-#[allow(clippy::trivially_copy_pass_by_ref)]
-fn add_one(i: &usize) -> Option<usize> {
-    Some(i + 1)
-}
-
-type AddOneFn = fn(&usize) -> Option<usize>;
-
 impl<'a, T> SafeIndexing for &'a [T]
 where
     &'a [T]: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
@@ -77,22 +70,22 @@ impl<'a> SafeIndexing for CompleteByteSlice<'a>
 where
     CompleteByteSlice<'a>: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
 impl<T> SafeIndexing for Input<T>
 where
     Input<T>: nom::Slice<RangeFull>,
-    T: nom::Slice<RangeFull>,
+    T: SafeIndexing,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = T::Iter;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        self.inner.safe_indices()
     }
 }
 
-- 
2.43.0


From 07710bc78d11c796a0fa98d399a3cb1226e62494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 15/22] fix: parse the contents of a malformed map once, not
 once per alternative

---
 lib/src/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..23306e2 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, complete, do_parse, eof, exact, named, named_attr, opt,
+    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt,
     preceded, tag, terminated,
 };
 
@@ -112,17 +112,17 @@ named!(
                 >> value: call!(single_value)
                 >> (key, value)
             )
-            | do_parse!(
-                identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
-                >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::from(values))
-            )
+            // A map and a block differ only by the labels: parsing them as separate alternatives
+            // would parse the contents again at every level of nesting
             | do_parse!(
                 identifier: call!(identifier::identifier)
                 >> keys: many0!(string::string_literal)
                 >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
+                >> (Key::Identifier(identifier), if keys.is_empty() {
+                    Value::from(values)
+                } else {
+                    Value::Block(vec![(keys, values)].into_iter().collect())
+                })
             )
         )
     )
-- 
2.43.0


From 1ecf22be4c598eeee6cc11d8141a93aa14330701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 16/22] fix: deserialize unsigned integers above i64::MAX

---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From 667b93d91e61cf2982d78890577bd1d069ea2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 17/22] fix: report elements of a sequence that the target type
 leaves behind

---
 lib/src/serde/de.rs       | 16 +++++++++++++++-
 lib/src/serde/de/block.rs | 12 +++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 3d2ffe9..54a77e3 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -14,6 +14,7 @@ pub use self::error::*;
 pub use body::{from_str, Deserializer};
 
 use crate::parser;
+use serde::de::value::SeqDeserializer;
 use serde::de::{IntoDeserializer, Visitor};
 use std::borrow::Cow;
 
@@ -175,7 +176,20 @@ where
         }
     }
 
-    visitor.visit_seq(tuple.into_deserializer())
+    visit_whole_seq(tuple.into_iter(), visitor)
+}
+
+/// Visit a sequence and ensure that the visitor has not left any of its elements behind
+fn visit_whole_seq<'de, I, T, V>(iter: I, visitor: V) -> Result<V::Value, Compat>
+where
+    I: Iterator<Item = T>,
+    T: IntoDeserializer<'de, Compat>,
+    V: Visitor<'de>,
+{
+    let mut seq = SeqDeserializer::new(iter);
+    let value = visitor.visit_seq(&mut seq)?;
+    seq.end()?;
+    Ok(value)
 }
 
 fn deserialize_object<'de, V>(
diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..9c61bf4 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -1,25 +1,19 @@
 use std::collections::{hash_map, HashMap};
 use std::vec;
 
-use serde::de::{self, Deserializer, IntoDeserializer, Visitor};
+use serde::de::{self, Deserializer, Visitor};
 use serde::forward_to_deserialize_any;
 
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::Compat;
+use crate::serde::de::{visit_whole_seq, Compat};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
     V: Visitor<'de>,
 {
-    visitor.visit_seq(
-        bodies
-            .into_iter()
-            .map(BodyDeserializer::new)
-            .collect::<Vec<_>>()
-            .into_deserializer(),
-    )
+    visit_whole_seq(bodies.into_iter().map(BodyDeserializer::new), visitor)
 }
 
 fn deserialize_map<'de, V>(body: Body<'de>, visitor: V) -> Result<V::Value, Compat>
-- 
2.43.0


From ef62496868bb4801be28a838f34a1bf0a2bee75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 18/22] fix: deserialize objects with string expressions as
 keys, refuse other keys

---
 lib/src/serde/de/object.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..c2ab00c 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -27,6 +27,17 @@ impl<'de> ObjectMapAccess<'de> {
     }
 }
 
+/// Evaluate an expression used as a key: attribute names are always strings
+fn evaluate_key<'de>(expr: &str) -> Result<Cow<'de, str>, Error> {
+    match Expression::parse(expr)? {
+        Expression::String(string) => Ok(Cow::Owned(string.into_owned())),
+        _ => Err(Error::Custom(format!(
+            "Object key {} is not a string",
+            expr
+        ))),
+    }
+}
+
 impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
     type Error = Compat;
 
@@ -40,7 +51,10 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = match key {
+            ObjectElementIdentifier::Identifier(ident) => ident,
+            ObjectElementIdentifier::Expression(expr) => evaluate_key(&expr)?,
+        };
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From 1a90030aa516b462ebbd5084037def6c11706760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 19/22] fix: a name used for an attribute and a block is an
 error, not a panic

---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..9c74f44 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // Blocks of one type are merged, so it was an attribute that had the same name
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From 29ab56ec5fd6b7545db366f6fe513b966d7ab58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 20/22] fix: labelled blocks are a deserialization error, not a
 panic

---
 lib/src/serde/de/block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 9c61bf4..090d6e4 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -7,7 +7,7 @@ use serde::forward_to_deserialize_any;
 use crate::parser::block::{BlockBody, BlockLabel};
 use crate::parser::body::Body;
 use crate::serde::de::body::Deserializer as BodyDeserializer;
-use crate::serde::de::{visit_whole_seq, Compat};
+use crate::serde::de::{visit_whole_seq, Compat, Error};
 
 fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V::Value, Compat>
 where
@@ -23,6 +23,10 @@ where
     BodyDeserializer::new(body).deserialize_map(visitor)
 }
 
+fn labels_unsupported() -> Compat {
+    Error::Custom("Deserializing blocks with labels is not yet supported".to_string()).into()
+}
+
 /// Possible states of `BlockBody`:
 /// - Empty: Single Body => Deserialize Map/Struct
 /// - Empty: Multiple Bodies => Seq
@@ -57,7 +61,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
@@ -89,7 +93,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(labels_unsupported())
             }
         }
     }
-- 
2.43.0


From 1f134708a9158714d294537a6be582c1a4cb7a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 21/22] fix: ignore the contents of anything a type ignores
 when deserializing

---
 lib/src/serde/de/block.rs      | 10 +++++++++-
 lib/src/serde/de/body.rs       | 10 +++++++++-
 lib/src/serde/de/expression.rs | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 090d6e4..0309fa1 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -98,6 +98,14 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
         }
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        // The contents do not have to be representable to be ignored
+        visitor.visit_unit()
+    }
+
     // Tuple
     // map - mapaccess `"labels" = rest`
     // struct
@@ -108,7 +116,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct newtype_struct tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map struct enum identifier
     }
 }
 
diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 9c74f44..4663222 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -59,6 +59,14 @@ impl<'de> de::Deserializer<'de> for Deserializer<'de> {
         visitor.visit_map(MapAccess::new(self.body))
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        // The contents do not have to be representable to be ignored
+        visitor.visit_unit()
+    }
+
     // Option
     // unit
     // unit struct
@@ -73,7 +81,7 @@ impl<'de> de::Deserializer<'de> for Deserializer<'de> {
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map struct enum identifier
     }
 }
 
diff --git a/lib/src/serde/de/expression.rs b/lib/src/serde/de/expression.rs
index 442cc8b..92621a7 100644
--- a/lib/src/serde/de/expression.rs
+++ b/lib/src/serde/de/expression.rs
@@ -67,12 +67,20 @@ impl<'de> de::Deserializer<'de> for Expression<'de> {
         self.deserialize_tuple(len, visitor)
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        // The contents do not have to be representable to be ignored
+        visitor.visit_unit()
+    }
+
     // TODO: Enum Unit Variant from String
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct seq
-        map struct enum identifier ignored_any
+        map struct enum identifier
     }
 }
 
-- 
2.43.0


From 2be9c2db39ddfce8d79c08f885d549cfce3d3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 22/22] fix: report invalid code points found below other
 parsers as such

---
 lib/src/errors.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/src/errors.rs b/lib/src/errors.rs
index c7b33fe..e4aaa4a 100644
--- a/lib/src/errors.rs
+++ b/lib/src/errors.rs
@@ -155,13 +155,17 @@ impl Error {
             Context::Code(input, ErrorKind::Custom(code)) => {
                 Self::from_input_and_code(input, *code, convert_fn)
             }
-            Context::List(list) => {
-                if let Some((input, ErrorKind::Custom(code))) = list.last() {
-                    Self::from_input_and_code(input, *code, convert_fn)
-                } else {
-                    None
-                }
-            }
+            // The parsers around the one that raised the custom error add their own codes after it
+            Context::List(list) => list
+                .iter()
+                .rev()
+                .filter_map(|(input, kind)| match kind {
+                    ErrorKind::Custom(code) => {
+                        Self::from_input_and_code(input, *code, &convert_fn)
+                    }
+                    _ => None,
+                })
+                .next(),
             _ => None,
         }
     }
-- 
2.43.0

