From 3148d6b2ee8f02ffff2fe632499fb944d8391ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 01/43] fix: return an error instead of panicking when a
 relation fails to parse part-way

RuleIter asserted on drop that every pair had been consumed, so any early
return with an error (an undeclared function in a filter, a duplicate Fetch
argument, a bad type in an output clause, ...) aborted the process.
---
 src/parser/common.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..d6f772b 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -285,8 +280,10 @@ impl<'a> RuleIter<'a> {
         T::parse_pair(extensions, pair)
     }
 
+    // Assert that the rule was completely consumed. This is deliberately not
+    // checked on drop: returning early with an error is a legitimate way to
+    // leave pairs behind, and must not turn into a panic.
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +295,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
-- 
2.43.0


From fd7327218d6af88f3ab5f16b9937c054acdba05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:07 +0000
Subject: [PATCH 02/43] fix: reject trailing text in extension declarations
 instead of panicking

---
 src/parser/common.rs     | 23 ++++++++++++++++++++++-
 src/parser/extensions.rs |  4 ++--
 src/parser/mod.rs        |  2 +-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index d6f772b..4371a08 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -87,6 +87,27 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that the matched `pairs` cover all of `input`; Pest rules that do not
+/// end in `EOI` otherwise accept any matching prefix.
+pub(crate) fn reject_trailing_text(
+    pairs: &Pairs<Rule>,
+    input: &str,
+    message: &'static str,
+) -> Result<(), MessageParseError> {
+    match pairs.peek() {
+        Some(pair) if pair.as_span().end() < input.len() => {
+            let span = Span::new(input, pair.as_span().end(), input.len())
+                .expect("a pair ends on a character boundary");
+            Err(MessageParseError::invalid(
+                message,
+                span,
+                "Unexpected trailing text",
+            ))
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -170,7 +191,7 @@ pub(crate) trait ParsePair: Sized {
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
-        assert_eq!(pairs.as_str(), s);
+        reject_trailing_text(&pairs, s, Self::message())?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
         Ok(Self::parse_pair(pair))
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..202b0c6 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    reject_trailing_text, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -220,7 +220,7 @@ impl SimpleExtensionDeclaration {
             .map_err(|e| {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
-        assert_eq!(pairs.as_str(), s);
+        reject_trailing_text(&pairs, s, "SimpleExtensionDeclaration")?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..8db250b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    iter_pairs, reject_trailing_text, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From da33eba8dc902c2de57edbdc2f0a52da5fbc2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 03/43] fix: reject out-of-range anchors and field references
 instead of panicking

---
 src/parser/common.rs     | 31 +++++++++++++++++++++++++++++++
 src/parser/extensions.rs |  3 ++-
 src/parser/mod.rs        |  3 ++-
 src/parser/structural.rs | 10 +++++++++-
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 4371a08..9cfc971 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -87,6 +87,36 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that every anchor and field reference in `pairs` fits the integer type
+/// it is stored in. The grammar only checks that these are integers; checking
+/// their range up front lets the infallible [`ParsePair`] conversions rely on it.
+pub(crate) fn check_integer_ranges(
+    pairs: Pairs<Rule>,
+    message: &'static str,
+) -> Result<(), MessageParseError> {
+    for pair in pairs.flatten() {
+        let (valid, expected) = match pair.as_rule() {
+            Rule::anchor | Rule::urn_anchor => {
+                let integer = unwrap_single_pair(pair.clone());
+                (integer.as_str().parse::<u32>().is_ok(), "anchor")
+            }
+            Rule::reference => {
+                let integer = unwrap_single_pair(pair.clone());
+                (integer.as_str().parse::<i32>().is_ok(), "field reference")
+            }
+            _ => continue,
+        };
+        if !valid {
+            return Err(MessageParseError::invalid(
+                message,
+                pair.as_span(),
+                format!("Out of range {expected}: {}", pair.as_str()),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Check that the matched `pairs` cover all of `input`; Pest rules that do not
 /// end in `EOI` otherwise accept any matching prefix.
 pub(crate) fn reject_trailing_text(
@@ -192,6 +222,7 @@ pub(crate) trait ParsePair: Sized {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
         reject_trailing_text(&pairs, s, Self::message())?;
+        check_integer_ranges(pairs.clone(), Self::message())?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
         Ok(Self::parse_pair(pair))
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 202b0c6..216fd6f 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    reject_trailing_text, unescape_string, unwrap_single_pair,
+    check_integer_ranges, reject_trailing_text, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -221,6 +221,7 @@ impl SimpleExtensionDeclaration {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
         reject_trailing_text(&pairs, s, "SimpleExtensionDeclaration")?;
+        check_integer_ranges(pairs.clone(), "SimpleExtensionDeclaration")?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8db250b..bf51287 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, reject_trailing_text, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_integer_ranges, iter_pairs, reject_trailing_text, sort_direction_from_str,
+    unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..62f8794 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -26,7 +26,9 @@ use crate::parser::extensions::{
 use crate::parser::relations::{
     ExtensionReadRel, RelationParsingContext, VirtualReadRel, parse_set_relation_pair,
 };
-use crate::parser::{ErrorKind, ExpressionParser, RelationParsePair, Rule, unwrap_single_pair};
+use crate::parser::{
+    ErrorKind, ExpressionParser, RelationParsePair, Rule, check_integer_ranges, unwrap_single_pair,
+};
 
 pub const PLAN_HEADER: &str = "=== Plan";
 pub const VERSION_HEADER: &str = "=== Version";
@@ -106,6 +108,9 @@ impl<'a> LineNode<'a> {
                 )
             })?;
 
+        check_integer_ranges(pairs.clone(), "planNode")
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
+
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
         let inner = unwrap_single_pair(outer);
@@ -137,6 +142,9 @@ impl<'a> LineNode<'a> {
             )
         })?;
 
+        check_integer_ranges(pairs.clone(), "top_level_relation")
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
+
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
 
-- 
2.43.0


From c34841115ef1d25491fc57363838896f6bebbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 04/43] fix: reject integer literals outside the range of their
 type

Values beyond i64 panicked, and values beyond a narrower ascribed type were
silently wrapped (300:i8) or stored out of range.
---
 src/parser/expressions.rs | 23 +++++++++++++++++++----
 src/parser/extensions.rs  |  5 ++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..1191f8f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -94,7 +94,14 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
-    let parsed_value: i64 = value.as_str().parse().unwrap();
+    let out_of_range = |type_name: &str| {
+        MessageParseError::invalid(
+            "int_literal_range",
+            value.as_span(),
+            format!("Integer literal out of range for {type_name}"),
+        )
+    };
+    let parsed_value: i64 = value.as_str().parse().map_err(|_| out_of_range("i64"))?;
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -102,17 +109,25 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(
+                i8::try_from(parsed_value)
+                    .map_err(|_| out_of_range("i8"))?
+                    .into(),
+            ),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(
+                i16::try_from(parsed_value)
+                    .map_err(|_| out_of_range("i16"))?
+                    .into(),
+            ),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(i32::try_from(parsed_value).map_err(|_| out_of_range("i32"))?),
             i.nullability,
             i.type_variation_reference,
         ),
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 216fd6f..e30b5f1 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -301,7 +301,10 @@ impl ScopedParsePair for ExtensionValue {
                 match value_pair.as_rule() {
                     Rule::string_literal => ExtensionValue::String(unescape_string(value_pair)),
                     Rule::integer => {
-                        ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
+                        let value = value_pair.as_str().parse::<i64>().map_err(|e| {
+                            MessageParseError::invalid(Self::message(), value_pair.as_span(), e)
+                        })?;
+                        ExtensionValue::Integer(value)
                     }
                     Rule::float => {
                         ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
-- 
2.43.0


From b0fa5b4c8293fb739b0db7d60bbb0e9114d6c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:10 +0000
Subject: [PATCH 05/43] fix: report unsupported types as parse errors instead
 of panicking

map<...>, struct<...>, integer or name type parameters, and the non-Substrait
u8/u16/u32/u64 names were accepted by the grammar and then aborted.
---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..04c09e6 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,11 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            _ => Err(MessageParseError::invalid(
+                Self::message(),
+                inner.as_span(),
+                "Only types are supported as type parameters",
+            )),
         }
     }
 }
@@ -193,7 +197,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(MessageParseError::invalid(
+            "compound_type",
+            inner.as_span(),
+            "This compound type is not yet supported",
+        )),
     }
 }
 
-- 
2.43.0


From 3920eb694faae58963ad48b198349dfa09ec3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:16 +0000
Subject: [PATCH 06/43] fix: allow user-defined types whose name starts with a
 simple type name

---
 src/parser/expression_grammar.pest | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..127d869 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -78,8 +78,10 @@ nullability = { ("?" | "⁉")? }
 
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
+// A longer identifier that merely starts with one of these names (e.g.
+// "datetime", "i8x") is a user-defined type, not a simple type.
 simple_type_name = {
-    "boolean"
+   ("boolean"
   | "i8"
   | "i16"
   | "i32"
@@ -93,7 +95,8 @@ simple_type_name = {
   | "date"
   | "time"
   | "interval_year"
-  | "uuid"
+  | "uuid")
+  ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // A simple native type expression, composed of a name and optional nullability.
-- 
2.43.0


From 49421a09b50c4cc06e421efe9ad13d30af75b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 07/43] fix: keep the nullability of typed string literals and
 reject unsupported types

'abc':string? lost its nullability, and 'abc':i64, 'abc':uuid, ... silently
became plain string literals.
---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1191f8f..bb231c5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -348,14 +348,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 69d977a865dcc7b66aaca4e005a6b4eca44720b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 08/43] fix: parse the \u{...} and \0 escapes that formatting
 writes

Strings and names with unprintable characters are formatted with these escapes,
but parsing dropped the backslash and kept the rest literally.
---
 src/parser/common.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 9cfc971..7c6bb09 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -192,6 +192,16 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    // `\u{hex}`, as written for unprintable characters. Anything
+                    // else starting with `\u` is treated like any other character.
+                    'u' => match unicode_escape(chars.as_str()) {
+                        Some((unescaped, rest)) => {
+                            result.push(unescaped);
+                            chars = rest.chars();
+                        }
+                        None => result.push('u'),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -203,6 +213,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Parse the `{hex}` part of a `\u{hex}` escape from the start of `s`, returning
+/// the character and the remaining input.
+fn unicode_escape(s: &str) -> Option<(char, &str)> {
+    let (hex, rest) = s.strip_prefix('{')?.split_once('}')?;
+    let code = u32::from_str_radix(hex, 16).ok()?;
+    Some((char::from_u32(code)?, rest))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From 9deb3104af48607e86c997dea51af12aa5ba5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 09/43] fix: format floats so that they read back as the same
 float

Whole-valued floats lost their fractional part (1.0 read back as the integer 1,
and 1:fp32 was rejected), infinities and NaN were written in a form the parser
cannot read without a diagnostic, and values too large for their type were
parsed as infinity.
---
 src/parser/expressions.rs  | 21 ++++++++++++++++++---
 src/textify/expressions.rs | 33 +++++++++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 3 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index bb231c5..a5778b4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -159,19 +159,34 @@ const UNSIGNED_FLOAT_KIND: Kind = Kind::Fp64(Fp64 {
 
 fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::float);
-    let parsed_value: f64 = value.as_str().parse().unwrap();
+    let out_of_range = |type_name: &str| {
+        MessageParseError::invalid(
+            "float_literal_range",
+            value.as_span(),
+            format!("Float literal out of range for {type_name}"),
+        )
+    };
 
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
         Kind::Fp32(f) => (
-            LiteralType::Fp32(parsed_value as f32),
+            LiteralType::Fp32(
+                // Parsed directly as f32, to avoid rounding twice.
+                (value.as_str().parse().ok())
+                    .filter(|v: &f32| v.is_finite())
+                    .ok_or_else(|| out_of_range("fp32"))?,
+            ),
             f.nullability,
             f.type_variation_reference,
         ),
         Kind::Fp64(f) => (
-            LiteralType::Fp64(parsed_value),
+            LiteralType::Fp64(
+                (value.as_str().parse().ok())
+                    .filter(|v: &f64| v.is_finite())
+                    .ok_or_else(|| out_of_range("fp64"))?,
+            ),
             f.nullability,
             f.type_variation_reference,
         ),
diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..3250dae 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -301,6 +301,35 @@ fn write_interval_day_to_second_literal<S: Scope, W: fmt::Write>(
     write!(w, "'{}'", escaped(&duration))
 }
 
+/// Write a floating-point value in the grammar's `float` syntax, which requires
+/// a fractional part: without one, `1.0` would read back as the integer `1`.
+/// Infinities and NaN have no syntax.
+pub(crate) fn write_float<S: Scope, W: fmt::Write>(
+    variant: &'static str,
+    value: impl fmt::Display,
+    is_finite: bool,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    if !is_finite {
+        return write!(
+            w,
+            "{}",
+            ctx.failure(PlanError::invalid(
+                "LiteralType",
+                Some(variant),
+                format!("non-finite value {value} has no text representation"),
+            ))
+        );
+    }
+    let text = value.to_string();
+    if text.contains('.') {
+        write!(w, "{text}")
+    } else {
+        write!(w, "{text}.0")
+    }
+}
+
 /// Write just the value portion of a literal, with no type suffix or
 /// nullability marker.
 ///
@@ -314,8 +343,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => write_float("Fp32", f, f.is_finite(), ctx, w),
+        LiteralType::Fp64(f) => write_float("Fp64", f, f.is_finite(), ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..750643a 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::write_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => write_float("Float", f, f.is_finite(), ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From d64e57f5379b714a30faf7fb80538d42203f5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 10/43] fix: parse an aggregate that groups by a cast
 expression

---
 src/parser/expression_grammar.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 127d869..5c08581 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -321,7 +321,9 @@ project_argument      = { reference | expression }
 // Aggregate[_ => sum($0), count($1)]   # No grouping (global aggregates)
 aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~ aggregate_output ~ "]" }
 
-aggregate_group_by = { grouping_set_list | expression_list }
+// The grouping sets must be followed by the arrow: a cast also starts with "(",
+// so `Aggregate[($0)::i64 => ...]` matches a grouping set only as a prefix.
+aggregate_group_by = { (grouping_set_list ~ &(sp ~ "=>")) | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
 grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
-- 
2.43.0


From 4353f01514313e1ceadf78bfe432adb2bc60c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:03 +0000
Subject: [PATCH 11/43] fix: parse Fetch limits and offsets written as typed
 literals

limit=10:i64, which verbose formatting writes, and limit=10:i32 were rejected.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 5c08581..55cb1b2 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -342,7 +342,8 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+// A bare integer is a parameter; an ascribed integer or a float is an expression.
+fetch_value          =  { (integer ~ !(":" | ".")) | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 50981bc08e9dee47d06ee9d182620a602e11e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:11 +0000
Subject: [PATCH 12/43] fix: parse extension arguments and columns that start
 like a literal or column

An argument calling a function such as nullif or true_count, and an output
column calling a function with a signature, matched only as a prefix and were
rejected.
---
 src/parser/expression_grammar.pest | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 55cb1b2..2fff229 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,8 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
@@ -408,7 +408,9 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// A function call with a signature (`f:i64($0):i64`) also starts like a named
+// column, so a named column must reach the end of the column.
+extension_column  = { (named_column ~ &(sp ~ ("," | "]"))) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From 6955ac506584e212efa0e1cf17c20b62eed57370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 13/43] fix: report nested field references instead of
 formatting them as their parent field

---
 src/textify/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 3250dae..8fcd5cd 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -635,6 +635,15 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_some() => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ReferenceSegment",
+                    Some("child"),
+                    "ReferenceSegment textification not implemented for nested fields",
+                ))
+            ),
             Some(reference_segment::ReferenceType::StructField(s)) => {
                 write!(w, "{}", Reference(s.field))
             }
-- 
2.43.0


From 7802836c12e2d45986c5333a90bfcdbf105d6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 14/43] fix: keep every aggregate measure and deprecated
 grouping set when formatting

A measure without a function was skipped, shifting the output mapping onto the
wrong columns, and deprecated grouping expressions were dropped when the first
grouping set was empty.
---
 src/textify/rels.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..0f617b1 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -728,8 +728,7 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && (rel.groupings.iter()).any(|g| !g.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
@@ -784,9 +783,10 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            let measure = m.measure.as_ref().map(Value::AggregateFunction);
+            all_outputs.push(Value::expect(measure, || {
+                PlanError::invalid("AggregateRel", Some("measures"), "Measure is None")
+            }));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 345a396159506713896ba6027dcce5cb30d8a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 15/43] fix: report a missing input relation instead of
 formatting the plan without it

---
 src/textify/rels.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 0f617b1..196d93c 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -352,14 +352,27 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => write_missing_input(&child_scope, w)?,
+            }
         }
         Ok(())
     }
 }
 
+/// Write the failure token standing in for an input relation that is absent.
+fn write_missing_input<S: Scope, W: fmt::Write>(ctx: &S, w: &mut W) -> fmt::Result {
+    let token = ctx.failure(PlanError::invalid(
+        "Rel",
+        Some("input"),
+        "Input relation is missing",
+    ));
+    write!(w, "{}{token}", ctx.indent())
+}
+
 impl<'a> Relation<'a> {
     pub fn emitted(&self) -> usize {
         match self.emit {
@@ -844,12 +857,11 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => write_missing_input(&child_scope, w),
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From e468295565e028dfaa7ed0c3484e1ee3ad25ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:59 +0000
Subject: [PATCH 16/43] fix: report read filters, projections and emits the
 text cannot express

---
 src/textify/rels.rs   | 57 ++++++++++++++++++++++++++++++++++++++++---
 src/textify/values.rs | 15 ++++++++++++
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 196d93c..96bcb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -387,6 +387,7 @@ impl<'a> Relation<'a> {
     fn from_read<S: Scope>(rel: &'a ReadRel, ctx: &S) -> Self {
         let columns = read_columns(rel);
         let emit = rel.common.as_ref().and_then(|c| c.emit_kind.as_ref());
+        let mut unsupported = unsupported_read_args(rel, emit, columns.len());
 
         match &rel.read_type {
             Some(ReadType::NamedTable(table)) => {
@@ -403,7 +404,7 @@ impl<'a> Relation<'a> {
                 };
                 Relation {
                     name: Cow::Borrowed("Read"),
-                    arguments: Some(RelationArgs::inline(vec![table_name], vec![])),
+                    arguments: Some(RelationArgs::inline(vec![table_name], unsupported)),
                     columns,
                     emit,
                     output_syntax,
@@ -428,6 +429,7 @@ impl<'a> Relation<'a> {
                         value: Value::Expression(filter.as_ref()),
                     });
                 }
+                named.append(&mut unsupported);
                 if positional.is_empty() && !named.is_empty() {
                     positional.push(Value::EmptyGroup);
                 }
@@ -465,7 +467,8 @@ impl<'a> Relation<'a> {
 
                 Relation {
                     name: Cow::Borrowed("Read:Extension"),
-                    arguments: None,
+                    arguments: (!unsupported.is_empty())
+                        .then(|| RelationArgs::inline(vec![], unsupported)),
                     columns,
                     emit,
                     output_syntax: OutputSyntax::Implicit,
@@ -485,7 +488,7 @@ impl<'a> Relation<'a> {
                 );
                 Relation {
                     name: Cow::Borrowed("Read"),
-                    arguments: Some(RelationArgs::inline(vec![Value::Missing(err)], vec![])),
+                    arguments: Some(RelationArgs::inline(vec![Value::Missing(err)], unsupported)),
                     columns,
                     emit,
                     output_syntax: OutputSyntax::Implicit,
@@ -500,6 +503,45 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// Failure-token arguments for the parts of a [`ReadRel`] that the text format
+/// cannot express, so that they are reported rather than dropped.
+fn unsupported_read_args(
+    rel: &ReadRel,
+    emit: Option<&EmitKind>,
+    columns: usize,
+) -> Vec<NamedArg<'static>> {
+    let is_virtual = matches!(rel.read_type, Some(ReadType::VirtualTable(_)));
+    let is_named = matches!(rel.read_type, Some(ReadType::NamedTable(_)));
+    let mut args = vec![];
+    #[allow(deprecated)]
+    if let Some(ReadType::VirtualTable(vt)) = &rel.read_type
+        && !vt.values.is_empty()
+    {
+        args.push(NamedArg::unsupported("ReadRel", "values"));
+    }
+    if !is_virtual && rel.filter.is_some() {
+        args.push(NamedArg::unsupported("ReadRel", "filter"));
+    }
+    if rel.best_effort_filter.is_some() {
+        args.push(NamedArg::unsupported("ReadRel", "best_effort_filter"));
+    }
+    if rel.projection.is_some() {
+        args.push(NamedArg::unsupported("ReadRel", "projection"));
+    }
+    if !is_named && is_remap(emit, columns) {
+        args.push(NamedArg::unsupported("ReadRel", "emit"));
+    }
+    args
+}
+
+/// Whether `emit` selects anything other than all `columns` in order.
+fn is_remap(emit: Option<&EmitKind>, columns: usize) -> bool {
+    match emit {
+        Some(EmitKind::Emit(emit)) => !emit.output_mapping.iter().copied().eq(0..columns as i32),
+        Some(EmitKind::Direct(_)) | None => false,
+    }
+}
+
 fn read_columns<'a>(rel: &'a ReadRel) -> Vec<Value<'a>> {
     match rel.base_schema {
         Some(ref schema) => schema_to_values(schema),
@@ -625,6 +667,7 @@ impl<'a> Relation<'a> {
     fn from_extension_leaf<S: Scope>(rel: &'a ExtensionLeafRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionLeaf",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![],
             ctx,
@@ -634,6 +677,7 @@ impl<'a> Relation<'a> {
     fn from_extension_single<S: Scope>(rel: &'a ExtensionSingleRel, ctx: &S) -> Self {
         Relation::from_extension(
             "ExtensionSingle",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             vec![rel.input.as_deref()],
             ctx,
@@ -647,6 +691,7 @@ impl<'a> Relation<'a> {
         }
         Relation::from_extension(
             "ExtensionMulti",
+            rel.common.as_ref(),
             rel.detail.as_ref().map(AnyRef::from),
             child_refs,
             ctx,
@@ -655,6 +700,7 @@ impl<'a> Relation<'a> {
 
     fn from_extension<S: Scope>(
         ext_type: &'static str,
+        common: Option<&'a RelCommon>,
         detail: Option<AnyRef<'a>>,
         child_refs: Vec<Option<&'a Rel>>,
         ctx: &S,
@@ -689,11 +735,14 @@ impl<'a> Relation<'a> {
                         value: Value::ExtensionArgument(value),
                     });
                 }
-                let columns = args
+                let columns: Vec<_> = args
                     .output_columns
                     .into_iter()
                     .map(Value::ExtColumn)
                     .collect();
+                if is_remap(get_emit(common), columns.len()) {
+                    named.push(NamedArg::unsupported(ext_type, "emit"));
+                }
                 Relation {
                     name: Cow::Owned(format!("{}:{}", ext_type, name)),
                     arguments: Some(RelationArgs::inline(positional, named)),
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..6084775 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -28,6 +28,21 @@ pub struct NamedArg<'a> {
     pub value: Value<'a>,
 }
 
+impl NamedArg<'static> {
+    /// An argument whose value is a failure token, reporting that the text
+    /// format has no syntax for `field` of `message`.
+    pub(crate) fn unsupported(message: &'static str, field: &'static str) -> Self {
+        NamedArg {
+            name: Cow::Borrowed(field),
+            value: Value::Missing(PlanError::unimplemented(
+                message,
+                Some(field),
+                format!("{message}.{field} is not supported in the text format"),
+            )),
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub enum Value<'a> {
     TableName(Vec<Name<'a>>),
-- 
2.43.0


From 5785edccd639362ca514ed4e1b2cbebdbeec3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 17/43] fix: report dates outside the representable range
 instead of panicking

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 8fcd5cd..f38b192 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -115,11 +115,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string, or `None` if the date is
+/// outside chrono's representable range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -347,9 +348,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write_float("Fp64", f, f.is_finite(), ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("day {days} is out of range for a date"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From 199e6014c15a4c7ea9a15d535890bbd86fd680a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:10 +0000
Subject: [PATCH 18/43] fix: reject leap seconds and sub-nanosecond digits in
 time literals

---
 src/parser/expressions.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a5778b4..82459c1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
 use std::str::FromStr;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
 use pest::Parser as PestParser;
 use pest::iterators::Pair;
 use substrait::proto::aggregate_rel::Measure;
@@ -521,6 +521,33 @@ fn check_supported_precision(
     }
 }
 
+/// Reject times that chrono reads but that no literal can hold: a leap second,
+/// which would count as part of the next minute, and digits finer than a
+/// nanosecond, which chrono drops.
+fn check_representable_time(
+    text: &str,
+    time: NaiveTime,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    if time.nanosecond() >= 1_000_000_000 {
+        return Err(MessageParseError::invalid(
+            "precision_literal_leap_second",
+            span,
+            format!("'{text}' is a leap second, which a {literal_kind} literal cannot represent"),
+        ));
+    }
+    let fraction = text.rsplit_once('.').map_or("", |(_, fraction)| fraction);
+    if fraction.bytes().skip(9).any(|digit| digit != b'0') {
+        return Err(MessageParseError::invalid(
+            "precision_literal_fractional_truncated",
+            span,
+            format!("'{text}' has a fraction finer than a {literal_kind} literal can represent"),
+        ));
+    }
+    Ok(())
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -544,6 +571,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_representable_time(timestamp_str, datetime.time(), literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -573,6 +601,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_representable_time(time_str, time, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 6ba9fece2d831253cb4c85ed471b6525d25ec7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 19/43] fix: parse the &Clustered sort direction that
 formatting writes

---
 GRAMMAR.md                         | 4 ++--
 src/parser/common.rs               | 1 +
 src/parser/expression_grammar.pest | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/GRAMMAR.md b/GRAMMAR.md
index 8e27556..e4921cd 100644
--- a/GRAMMAR.md
+++ b/GRAMMAR.md
@@ -216,7 +216,7 @@ Enum fields in arguments are represented as &-prefixed variants (e.g., `&AscNull
 
 #### Examples
 
-- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast` - sort directions
+- `&AscNullsFirst`, `&AscNullsLast`, `&DescNullsFirst`, `&DescNullsLast`, `&Clustered` - sort directions
 
 ### Scalar values
 
@@ -1098,7 +1098,7 @@ Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => $0, $1]
 sort_relation := "Sort" "[" sort_fields "=>" reference_list "]"
 sort_fields := sort_field ("," sort_field)*
 sort_field := "(" expression "," sort_direction ")"
-sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast"
+sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast" / "&Clustered"
 ```
 
 #### Components
diff --git a/src/parser/common.rs b/src/parser/common.rs
index 7c6bb09..39a6dbe 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -430,6 +430,7 @@ pub(crate) fn sort_direction_from_str(
         "AscNullsLast" => Ok(SortDirection::AscNullsLast),
         "DescNullsFirst" => Ok(SortDirection::DescNullsFirst),
         "DescNullsLast" => Ok(SortDirection::DescNullsLast),
+        "Clustered" => Ok(SortDirection::Clustered),
         other => Err(MessageParseError::invalid(
             "SortDirection",
             span,
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 2fff229..9373586 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -338,7 +338,7 @@ empty = { "_" }
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
 sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
-sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
+sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-- 
2.43.0


From 4a723182283226d5651af8cbd8fdd35ab4841898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 20/43] fix: parse a Sort without sort fields the way it is
 formatted

---
 GRAMMAR.md                         | 2 +-
 src/parser/expression_grammar.pest | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GRAMMAR.md b/GRAMMAR.md
index e4921cd..71f7a63 100644
--- a/GRAMMAR.md
+++ b/GRAMMAR.md
@@ -1096,7 +1096,7 @@ Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => $0, $1]
 
 ```text
 sort_relation := "Sort" "[" sort_fields "=>" reference_list "]"
-sort_fields := sort_field ("," sort_field)*
+sort_fields := sort_field ("," sort_field)* / "_"
 sort_field := "(" expression "," sort_direction ")"
 sort_direction := "&AscNullsFirst" / "&AscNullsLast" / "&DescNullsFirst" / "&DescNullsLast" / "&Clustered"
 ```
diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 9373586..881ba15 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -336,7 +336,7 @@ empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)* | "_")? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" | "&Clustered" }
 
-- 
2.43.0


From 62ce83d256ef7c162e8804149c43ad535b3d37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:22 +0000
Subject: [PATCH 21/43] fix: read and write extension and argument names that
 need quotes

---
 src/parser/extensions.rs  | 12 ++++--------
 src/textify/addenda.rs    |  8 +++++++-
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index e30b5f1..3d1471b 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -478,18 +478,14 @@ impl ScopedParsePair for ExtensionInvocation {
 
         // Parse extension name to determine relation type and custom name
         let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
 
         // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let mut name_iter = extension_name_pair.into_inner();
+        let relation_type_pair = name_iter.next().unwrap();
+        let custom_name = Name::parse_pair(name_iter.next().unwrap()).0.to_string();
 
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        let relation_kind = ExtensionRelationKind::from_str(relation_type_pair.as_str()).unwrap();
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..be5ab07 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,7 +161,12 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
-                    write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
+                    write!(
+                        w,
+                        "{indent}+ {prefix}:{}[{}]",
+                        Name(name),
+                        ctx.display(args)
+                    )
                 }
             }
             AddendumLine::DecodeError { kind, error } => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 750643a..01f28b3 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 96bcb50..e4f2226 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -744,7 +744,7 @@ impl<'a> Relation<'a> {
                     named.push(NamedArg::unsupported(ext_type, "emit"));
                 }
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 6084775..ef441f9 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -321,7 +321,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From c08d3f216cd8b0d8fc0d1806793047ab6d849dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:49 +0000
Subject: [PATCH 22/43] fix: reject duplicate named extension arguments instead
 of keeping the last

---
 src/parser/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 3d1471b..2333afe 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -593,7 +593,15 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
+                    if args.named.contains_key(&key) {
+                        return Err(MessageParseError::invalid(
+                            "ExtensionArgs",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
                     args.insert(key, val);
                 }
-- 
2.43.0


From 654bfff3e350701d61e4df32c94f14657edbad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:56 +0000
Subject: [PATCH 23/43] fix: reject float extension arguments that overflow to
 infinity

---
 src/parser/extensions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 2333afe..abd8c54 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -307,7 +307,15 @@ impl ScopedParsePair for ExtensionValue {
                         ExtensionValue::Integer(value)
                     }
                     Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
+                        let value = value_pair.as_str().parse::<f64>().unwrap();
+                        if !value.is_finite() {
+                            return Err(MessageParseError::invalid(
+                                Self::message(),
+                                value_pair.as_span(),
+                                "Float is out of range",
+                            ));
+                        }
+                        ExtensionValue::Float(value)
                     }
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
-- 
2.43.0


From 695e9bbdc8ad88814dcfdfef5efee6a9ce6f73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 24/43] fix: decide whether a join remaps its output from the
 join's own width

---
 src/parser/relations.rs  | 23 ++++++++++++++++++++---
 src/parser/structural.rs |  6 ++----
 src/textify/rels.rs      |  4 +++-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..28a5de9 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -25,6 +25,7 @@ use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs, ExtensionRegistry, SimpleExtensions};
 use crate::parser::errors::{ParseContext, ParseError};
 use crate::parser::expressions::{FieldIndex, Name};
+use crate::textify::rels::join_output_columns;
 
 /// Parsing context for relations that includes extensions, registry, and optional warning collection
 pub struct RelationParsingContext<'a> {
@@ -100,6 +101,13 @@ pub trait RelationParsePair: Sized {
         input_field_count: usize,
     ) -> Result<(Self, usize), MessageParseError>;
 
+    /// The number of input fields that reach this relation's output clause,
+    /// passed as `input_field_count` above: the fields of every child, unless
+    /// the relation drops or adds some.
+    fn input_field_count(_pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        child_field_counts.iter().sum()
+    }
+
     /// Consume this parsed relation, apply the advanced extension, and produce
     /// the final `Rel`.
     fn into_rel(self, adv_ext: Option<AdvancedExtension>) -> Rel;
@@ -1178,6 +1186,18 @@ impl RelationParsePair for JoinRel {
         }
     }
 
+    fn input_field_count(pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        let join_type = pair
+            .clone()
+            .into_inner()
+            .find(|inner| inner.as_rule() == Rule::join_type)
+            .map(join_rel::JoinType::parse_pair);
+        match (join_type, child_field_counts) {
+            (Some(join_type), &[left, right]) => join_output_columns(join_type, left, right).len(),
+            _ => child_field_counts.iter().sum(),
+        }
+    }
+
     fn parse_pair_with_context(
         extensions: &SimpleExtensions,
         pair: Pair<Rule>,
@@ -1214,9 +1234,6 @@ impl RelationParsePair for JoinRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        // TODO: For semi/anti joins, the direct output width differs from
-        // left+right — `input_field_count` would misclassify the emit as Direct.
-        // Revisit when those join types are supported.
         let (emit, output_count) = parse_emit(references_pair, input_field_count);
         let common = RelCommon {
             emit_kind: Some(emit),
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 62f8794..1a0add6 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -556,12 +556,10 @@ impl<'a> RelationParser<'a> {
         assert_eq!(pair.as_rule(), T::rule());
         let line = pair.as_str();
         let advanced_extension = addenda.into_standard_advanced_extension(registry)?;
-        let input_field_count: usize = children.iter().map(|c| c.field_count).sum();
+        let child_field_counts: Vec<usize> = children.iter().map(|c| c.field_count).collect();
+        let input_field_count = T::input_field_count(&pair, &child_field_counts);
         let input_children = into_rels(children);
 
-        // TODO: pass `ParsedChildren` into `parse_pair_with_context`, instead
-        // of this overall 'input_field_count'; for some relations (e.g. a LEFT
-        // SEMI JOIN), the field count sum is not the correct count.
         match T::parse_pair_with_context(extensions, pair, input_children, input_field_count) {
             Ok((parsed, count)) => Ok((parsed.into_rel(advanced_extension), count)),
             Err(e) => Err(ParseError::Plan(
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index e4f2226..b49b919 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -1018,7 +1018,9 @@ impl<'a> Relation<'a> {
     }
 }
 
-fn join_output_columns(
+/// The direct output columns of a join, which depend on its type: not every
+/// join passes through the columns of both inputs.
+pub(crate) fn join_output_columns(
     join_type: join_rel::JoinType,
     left_columns: usize,
     right_columns: usize,
-- 
2.43.0


From 327c3202112bba78f9a502df87ce293b963178bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 25/43] fix: report the line number of text before the first
 section header

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1a0add6..05a8639 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1061,8 +1061,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 394b1ff8dd74218c10a85f885f2418bd2b83471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:11 +0000
Subject: [PATCH 26/43] fix: allow space before every comma of an expression
 list, not just the first

---
 src/parser/expression_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 881ba15..b3f20b6 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -324,9 +324,9 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 // The grouping sets must be followed by the arrow: a cast also starts with "(",
 // so `Aggregate[($0)::i64 => ...]` matches a grouping set only as a prefix.
 aggregate_group_by = { (grouping_set_list ~ &(sp ~ "=>")) | expression_list }
-grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
+grouping_set_list  = { grouping_set ~ (sp ~ "," ~ sp ~ grouping_set)* }
 grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
-expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
+expression_list    = { expression ~ (sp ~ "," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
 aggregate_output      = { (expression ~ (sp ~ "," ~ sp ~ expression)*)? }
-- 
2.43.0


From 30dfbec623ffb7ee50ba03667f3dc3b7061ca40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:43 +0000
Subject: [PATCH 27/43] fix: accept extension arguments named null, true or
 false

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index b3f20b6..bf3e022 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -400,7 +400,8 @@ tuple = {
               ~ (sp ~ "," ~ sp ~ extension_argument)+
               ~ (sp ~ ",")? ~ sp ~ ")"
         }
-extension_argument  = { enum_value | parameter_literal | reference | expression | tuple }
+// A value followed by "=" is the name of a named argument instead (`null=1`).
+extension_argument  = { (enum_value | parameter_literal | reference | expression | tuple) ~ !(sp ~ "=" ~ !">") }
 
 // Named arguments (name=value pairs)
 extension_named_arguments = { extension_named_argument ~ (sp ~ "," ~ sp ~ extension_named_argument)* }
-- 
2.43.0


From cedd60fcbeecb8040f236f50d5b27cee78e389a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:16 +0000
Subject: [PATCH 28/43] fix: reject Project references that would select a
 computed expression

---
 src/parser/relations.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 28a5de9..65f4b87 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -612,12 +612,15 @@ impl RelationParsePair for ProjectRel {
 
         let mut expressions = Vec::new();
         let mut output_mapping = Vec::new();
+        let mut references = Vec::new();
 
         for arg in arguments_pair.into_inner() {
             let inner_arg = unwrap_single_pair(arg);
             match inner_arg.as_rule() {
                 Rule::reference => {
+                    let span = inner_arg.as_span();
                     let field_index = FieldIndex::parse_pair(inner_arg);
+                    references.push((field_index.0, span));
                     output_mapping.push(field_index.0);
                 }
                 Rule::expression => {
@@ -632,6 +635,21 @@ impl RelationParsePair for ProjectRel {
 
         let output_count = output_mapping.len();
         let direct_count = input_field_count + expressions.len();
+
+        // A reference just past the input fields would select one of the
+        // computed expressions instead of a field.
+        for (index, span) in references {
+            if (input_field_count as i32..direct_count as i32).contains(&index) {
+                return Err(MessageParseError::invalid(
+                    Self::message(),
+                    span,
+                    format!(
+                        "reference ${index} is not one of the {input_field_count} input fields"
+                    ),
+                ));
+            }
+        }
+
         let emit = make_emit(output_mapping, direct_count);
         let common = RelCommon {
             emit_kind: Some(emit),
-- 
2.43.0


From aad5dc2359fd937a36f91da332de842e0f48bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:01 +0000
Subject: [PATCH 29/43] fix: write the deprecated args of function calls
 instead of dropping them

---
 src/textify/expressions.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index f38b192..173e349 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -690,24 +690,30 @@ impl Textify for FieldReference {
 pub struct FunctionInvocation<'a> {
     pub function_reference: u32,
     pub arguments: &'a [FunctionArgument],
+    /// The deprecated `args`, used in the place of `arguments` when that is empty.
+    pub args: &'a [Expression],
     pub options: &'a [FunctionOption],
 }
 
 impl<'a> From<&'a ScalarFunction> for FunctionInvocation<'a> {
+    #[allow(deprecated)]
     fn from(f: &'a ScalarFunction) -> Self {
         FunctionInvocation {
             function_reference: f.function_reference,
             arguments: &f.arguments,
+            args: &f.args,
             options: &f.options,
         }
     }
 }
 
 impl<'a> From<&'a AggregateFunction> for FunctionInvocation<'a> {
+    #[allow(deprecated)]
     fn from(f: &'a AggregateFunction) -> Self {
         FunctionInvocation {
             function_reference: f.function_reference,
             arguments: &f.arguments,
+            args: &f.args,
             options: &f.options,
         }
     }
@@ -723,15 +729,23 @@ impl Textify for FunctionInvocation<'_> {
             NamedAnchor::lookup(ctx, ExtensionKind::Function, self.function_reference);
         let name_and_anchor = ctx.display(&name_and_anchor);
 
-        let args = ctx.separated(self.arguments, ", ");
-        let options = ctx.separated(self.options, ", ");
-        let between = if self.arguments.is_empty() || self.options.is_empty() {
+        // At most one of these two is written: `args` is only read by consumers
+        // when `arguments` is not there.
+        let arguments = ctx.separated(self.arguments, ", ");
+        let args = if self.arguments.is_empty() {
+            self.args
+        } else {
+            &[]
+        };
+        let between = if (self.arguments.is_empty() && args.is_empty()) || self.options.is_empty() {
             ""
         } else {
             ", "
         };
+        let args = ctx.separated(args, ", ");
+        let options = ctx.separated(self.options, ", ");
 
-        write!(w, "{name_and_anchor}({args}{between}{options})")
+        write!(w, "{name_and_anchor}({arguments}{args}{between}{options})")
     }
 }
 
-- 
2.43.0


From a44a5c8658488eaf89659775a5648256f4811531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:28 +0000
Subject: [PATCH 30/43] fix: write the type variation of a literal instead of
 dropping it

---
 src/textify/expressions.rs | 14 ++++++++++----
 src/textify/types.rs       |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 173e349..a658fe6 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -16,7 +16,7 @@ use substrait::proto::{
 use super::{PlanError, Scope, Textify, Visibility};
 use crate::extensions::simple::ExtensionKind;
 use crate::precision::SupportedPrecision;
-use crate::textify::types::{Name, NamedAnchor, OutputType, escaped};
+use crate::textify::types::{Name, NamedAnchor, OutputType, TypeVariation, escaped};
 
 // …(…) for function call
 // […] for variant
@@ -426,9 +426,11 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
 /// before the parameter list (`interval_day?<6>`, not `interval_day<6>?`).
 /// Returns `None` for unimplemented types whose [`write_literal_value`] already
 /// emitted an error token.
-fn write_literal_type_suffix<W: fmt::Write>(
+fn write_literal_type_suffix<S: Scope, W: fmt::Write>(
     lit: &LiteralType,
     nullable: bool,
+    variation: u32,
+    ctx: &S,
     w: &mut W,
 ) -> fmt::Result {
     // (type name, precision parameter for parameterized types).
@@ -463,6 +465,7 @@ fn write_literal_type_suffix<W: fmt::Write>(
     if nullable {
         write!(w, "?")?;
     }
+    write!(w, "{}", ctx.display(&TypeVariation(variation)))?;
     if let Some(p) = precision {
         write!(w, "<{p}>")?;
     }
@@ -513,14 +516,17 @@ impl Textify for expr::Literal {
         let show_suffix = match ctx.options().literal_types {
             Visibility::Never => false,
             Visibility::Always => true,
-            Visibility::Required => self.nullable || !is_default_for_syntax(lit),
+            Visibility::Required => {
+                self.nullable || self.type_variation_reference != 0 || !is_default_for_syntax(lit)
+            }
         };
         if let LiteralType::Null(typ) = lit {
             write!(w, ":{}", ctx.expect(Some(typ)))?;
             return Ok(());
         }
         if show_suffix {
-            write_literal_type_suffix(lit, self.nullable, w)?;
+            let variation = self.type_variation_reference;
+            write_literal_type_suffix(lit, self.nullable, variation, ctx, w)?;
         }
         Ok(())
     }
diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..5f46e34 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -247,7 +247,7 @@ impl<T: Deref<Target = proto::Type>> Textify for OutputType<T> {
     }
 }
 
-struct TypeVariation(u32);
+pub(crate) struct TypeVariation(pub(crate) u32);
 
 impl Textify for TypeVariation {
     fn name() -> &'static str {
-- 
2.43.0


From d7cb62ea8db0272ab51941dd115c2d892bbb4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 31/43] fix: report an aggregate output that is in no grouping
 set

---
 src/textify/rels.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index b49b919..bbfbabf 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -794,10 +794,29 @@ impl<'a> Relation<'a> {
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
+            // An expression in no grouping set cannot be an output column: the
+            // text would read back as a measure, or not at all.
+            let grouped: HashSet<Vec<u8>> = rel
+                .groupings
+                .iter()
+                .flat_map(|group| &group.expression_references)
+                .filter_map(|&i| rel.grouping_expressions.get(i as usize))
+                .map(|expr| expr.encode_to_vec())
+                .collect();
             expression_list = rel
                 .grouping_expressions
                 .iter()
-                .map(Value::Expression)
+                .map(|expr| {
+                    if grouped.contains(&expr.encode_to_vec()) {
+                        Value::Expression(expr)
+                    } else {
+                        Value::Missing(PlanError::invalid(
+                            "AggregateRel",
+                            Some("grouping_expressions"),
+                            "grouping expression is not in any grouping set",
+                        ))
+                    }
+                })
                 .collect::<Vec<_>>(); // already a list of the unique expressions
             for group in &rel.groupings {
                 let mut grouping_set: Vec<Value> = vec![];
-- 
2.43.0


From 6de02e1067c6b919fc500e048ba5cfc4c779aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:05 +0000
Subject: [PATCH 32/43] fix: reject text after the end of a relation line

---
 src/parser/expression_grammar.pest | 41 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index bf3e022..331c393 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -242,27 +242,29 @@ direct_output   = { "+>" ~ sp ~ named_column_list ~ emit_suffix }
 emit_suffix     = { (sp ~ "|>" ~ sp ~ reference_list)? }
 
 planNode = {
-    // Specialized read relations must precede read_relation: all start with
-    // "Read", and PEG tries alternatives in order — the longer prefixes
-    // must be attempted first.
-    extension_read_relation
-  | virtual_read_relation
-  | read_relation
-  | filter_relation
-  | project_relation
-  | aggregate_relation
-  | sort_relation
-  | fetch_relation
-  | join_relation
-  | set_relation
-  | cross_relation
-  | extension_relation
-  | addendum
+    (
+        // Specialized read relations must precede read_relation: all start with
+        // "Read", and PEG tries alternatives in order — the longer prefixes
+        // must be attempted first.
+        extension_read_relation
+      | virtual_read_relation
+      | read_relation
+      | filter_relation
+      | project_relation
+      | aggregate_relation
+      | sort_relation
+      | fetch_relation
+      | join_relation
+      | set_relation
+      | cross_relation
+      | extension_relation
+      | addendum
+    ) ~ relation_end
 }
 
 // At the top level, we can have a RelRoot, or a regular relation; both are valid.
 top_level_relation = {
-    root_relation
+    (root_relation ~ relation_end)
   | planNode
 }
 
@@ -296,10 +298,11 @@ relation_arrow     = _{ (relation_line_cont | sp) ~ "=>" ~ sp }
 //     - => id:i64, name:string]
 // The trailing `relation_end` forces the rule to consume the whole (possibly
 // multi-line) input, so a stray continuation line after `]` is a parse error
-// rather than silently dropped. It is silent so the `EOI` token does not show
+// rather than silently dropped. It uses `!ANY` because an `EOI` token would show
 // up among the relation's child pairs.
 virtual_read_relation = { "Read:Virtual" ~ relation_open ~ virtual_read_rows ~ (relation_comma ~ virtual_read_filter)? ~ relation_arrow ~ named_column_list ~ "]" ~ relation_end }
-relation_end          = _{ sp ~ EOI }
+// A `// comment` may follow a relation on its last line.
+relation_end          = _{ sp ~ ("//" ~ (!NEWLINE ~ ANY)*)? ~ !ANY }
 virtual_read_rows     = { virtual_row_list | empty }
 virtual_read_filter   = { "filter" ~ sp ~ "=" ~ sp ~ expression }
 virtual_row_list      = { virtual_row ~ (relation_comma ~ virtual_row)* }
-- 
2.43.0


From 8b2e0742afd6baacb997dfe27d3f3537bfca808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:47 +0000
Subject: [PATCH 33/43] fix: report a version detail that does not fit on its
 line

---
 src/textify/plan.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 36d66f0..28f9766 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -5,7 +5,7 @@ use substrait::proto;
 use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
 use crate::parser::{PLAN_HEADER, VERSION_HEADER};
-use crate::textify::foundation::ErrorAccumulator;
+use crate::textify::foundation::{ErrorAccumulator, PlanError, Scope};
 use crate::textify::{OutputOptions, ScopedContext};
 
 #[derive(Debug, Clone)]
@@ -71,23 +71,28 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
             "{VERSION_HEADER} {}.{}.{}",
             version.major_number, version.minor_number, version.patch_number
         )?;
-        if !version.producer.is_empty() {
-            writeln!(
-                w,
-                "{}producer: {}",
-                self.options.indent,
-                version.producer.trim()
-            )?;
+        self.write_version_detail(w, "producer", &version.producer)?;
+        self.write_version_detail(w, "git_hash", &version.git_hash)?;
+        Ok(())
+    }
+
+    /// Write an indented detail line of the `=== Version` section, unless it is
+    /// empty. A detail is read up to the end of its line, without the spaces
+    /// around it, so a value that is not kept that way is reported instead.
+    fn write_version_detail(&self, w: &mut impl fmt::Write, key: &str, value: &str) -> fmt::Result {
+        if value.is_empty() {
+            return Ok(());
         }
-        if !version.git_hash.is_empty() {
-            writeln!(
-                w,
-                "{}git_hash: {}",
-                self.options.indent,
-                version.git_hash.trim()
-            )?;
+        let indent = &self.options.indent;
+        if value != value.trim() || value.contains('\n') {
+            let token = self.scope().failure(PlanError::invalid(
+                "Version",
+                Some(key.to_string()),
+                format!("{value:?} does not fit on a line of its own"),
+            ));
+            return writeln!(w, "{indent}{key}: {token}");
         }
-        Ok(())
+        writeln!(w, "{indent}{key}: {value}")
     }
 
     pub(crate) fn write_extensions(&self, w: &mut impl fmt::Write) -> fmt::Result {
-- 
2.43.0


From 978a8d3707f1c8de68dfd08c7f20a523846b9144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:07 +0000
Subject: [PATCH 34/43] fix: reject a version field that is given twice

---
 src/parser/structural.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 05a8639..60c3d98 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1194,16 +1194,24 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let key = key.trim();
+        let field = match key {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("version field {key:?} is given more than once"),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From e2b0506c7dff1b4a3cfef1dc803ed4791c2f3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 35/43] fix: reject a sign in version numbers

---
 src/parser/structural.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 60c3d98..414f053 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1134,6 +1134,13 @@ impl<'a> Parser<'a> {
                     format!("version header is missing the {field} number, expected '{VERSION_HEADER} <major>.<minor>.<patch>'"),
                 )
             })?;
+            // `u32::from_str` also accepts a leading `+`, which is not a number here.
+            if part.starts_with('+') {
+                return Err(ParseError::ValidationError(
+                    ctx(),
+                    format!("invalid {field} version number {part:?}"),
+                ));
+            }
             part.parse::<u32>().map_err(|e| {
                 ParseError::ValidationError(
                     ctx(),
-- 
2.43.0


From 7bb8f2752640eab8786bcef71203e7216652f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 36/43] fix: report enum arguments that cannot be written

---
 src/textify/extensions.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 01f28b3..f37d551 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -10,8 +10,8 @@ use std::fmt;
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
 use crate::textify::expressions::write_float;
-use crate::textify::foundation::{Scope, Textify};
-use crate::textify::types::{Name, escaped};
+use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::{Name, escaped, is_identifer};
 
 impl Textify for TupleValue {
     fn name() -> &'static str {
@@ -46,7 +46,16 @@ impl Textify for ExtensionValue {
                 write!(w, "{}", ctx.failure(FormatError::Extension(error.clone())))
             }
             ExtensionValue::Expr(expr) => expr.textify(ctx, w),
-            ExtensionValue::Enum(e) => write!(w, "&{e}"),
+            ExtensionValue::Enum(e) if is_identifer(e) => write!(w, "&{e}"),
+            ExtensionValue::Enum(e) => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "ExtensionValue",
+                    Some("Enum"),
+                    format!("{e:?} is not an identifier"),
+                ))
+            ),
             ExtensionValue::Tuple(tv) => tv.textify(ctx, w),
         }
     }
-- 
2.43.0


From b8d8b2f3d185a3d651862187c71f7f3d23a854c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 37/43] fix: reject text after a JSON plan

---
 src/json.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..82cadce 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,12 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .context("failed to parse JSON as substrait.Plan")?;
+    deserializer
+        .end()
+        .context("unexpected text after the JSON plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0


From 511a72cff3cb34dc00df8f840c9a80530acbca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 38/43] fix: report output that fails when flushed

---
 src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..f79792e 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -443,12 +443,14 @@ fn read_binary_input<R: Read>(mut reader: R) -> Result<Vec<u8>> {
 /// Write text output to writer
 fn write_text_output<W: Write>(mut writer: W, content: &str) -> Result<()> {
     writer.write_all(content.as_bytes())?;
+    writer.flush()?;
     Ok(())
 }
 
 /// Write binary output to writer
 fn write_binary_output<W: Write>(mut writer: W, content: &[u8]) -> Result<()> {
     writer.write_all(content)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From b3c25e3b2f2b14a40e56c5e85ea6d213e22d5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 39/43] fix: open the output only after the input has been read

---
 src/cli.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index f79792e..f7a534c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -80,16 +80,17 @@ impl Cli {
                 show_literal_types,
                 verbose,
             } => {
-                let reader = get_reader(input)
-                    .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
+                let reader = get_reader(input)
+                    .with_context(|| format!("Failed to open input file: {input}"))?;
                 self.run_convert_with_io(
                     reader,
-                    writer,
+                    || {
+                        get_writer(output)
+                            .with_context(|| format!("Failed to create output file: {output}"))
+                    },
                     &from_format,
                     &to_format,
                     &options,
@@ -105,9 +106,15 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                self.run_validate_with_io(
+                    reader,
+                    || {
+                        get_writer(output)
+                            .with_context(|| format!("Failed to create output file: {output}"))
+                    },
+                    *verbose,
+                    registry,
+                )
             }
         }
     }
@@ -134,7 +141,7 @@ impl Cli {
                 let to_format = self.resolve_output_format(to, output)?;
                 self.run_convert_with_io(
                     reader,
-                    writer,
+                    || Ok(writer),
                     &from_format,
                     &to_format,
                     &options,
@@ -144,7 +151,7 @@ impl Cli {
             }
 
             Commands::Validate { verbose, .. } => {
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                self.run_validate_with_io(reader, || Ok(writer), *verbose, registry)
             }
         }
     }
@@ -192,7 +199,7 @@ impl Cli {
     fn run_convert_with_io<R: Read, W: Write>(
         &self,
         reader: R,
-        writer: W,
+        open_writer: impl FnOnce() -> Result<W>,
         from: &Format,
         to: &Format,
         options: &OutputOptions,
@@ -207,9 +214,10 @@ impl Cli {
             )
         })?;
 
-        // Write output based on format
+        // Write output based on format. The output is only opened now: it may
+        // be the input file, and a failed read must not truncate it.
         let outcome = to
-            .write_plan(writer, &plan, options, registry)
+            .write_plan(open_writer()?, &plan, options, registry)
             .with_context(|| {
                 format!(
                     "Failed to write output as {} format",
@@ -227,7 +235,7 @@ impl Cli {
     fn run_validate_with_io<R: Read, W: Write>(
         &self,
         reader: R,
-        writer: W,
+        open_writer: impl FnOnce() -> Result<W>,
         verbose: bool,
         registry: &ExtensionRegistry,
     ) -> Result<Outcome> {
@@ -236,7 +244,7 @@ impl Cli {
             .with_context(|| "Failed to parse input as Substrait text format")?;
 
         let outcome = Format::Text
-            .write_plan(writer, &plan, &OutputOptions::default(), registry)
+            .write_plan(open_writer()?, &plan, &OutputOptions::default(), registry)
             .with_context(|| "Failed to format plan as Substrait text format")?;
 
         if verbose && matches!(outcome, Outcome::Success) {
-- 
2.43.0


From 1e2a0a169d5afe720b746e590adac2aee4dee044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:17 +0000
Subject: [PATCH 40/43] fix: write negative Fetch limits and offsets so that
 they parse

---
 src/textify/rels.rs   |  4 ++--
 src/textify/values.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index bbfbabf..3ec1c5f 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -990,7 +990,7 @@ impl<'a> Relation<'a> {
             Some(CountMode::CountExpr(expr)) => {
                 named_args.push(NamedArg {
                     name: Cow::Borrowed("limit"),
-                    value: Value::Expression(expr),
+                    value: Value::FetchValue(expr),
                 });
             }
             #[allow(deprecated)]
@@ -1007,7 +1007,7 @@ impl<'a> Relation<'a> {
                 OffsetMode::OffsetExpr(expr) => {
                     named_args.push(NamedArg {
                         name: Cow::Borrowed("offset"),
-                        value: Value::Expression(expr),
+                        value: Value::FetchValue(expr),
                     });
                 }
                 #[allow(deprecated)]
diff --git a/src/textify/values.rs b/src/textify/values.rs
index ef441f9..f275926 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -7,13 +7,15 @@ use std::fmt;
 
 use prost::UnknownEnumValue;
 use substrait::proto::aggregate_function::AggregationInvocation;
+use substrait::proto::expression::literal::LiteralType;
+use substrait::proto::expression::{Literal, RexType};
 use substrait::proto::sort_field::{SortDirection, SortKind};
 use substrait::proto::{
     AggregateFunction, AggregationPhase, Expression, SortField, Type, join_rel, set_rel,
 };
 
 use super::types::Name;
-use super::{PlanError, Scope, Textify};
+use super::{PlanError, Scope, Textify, Visibility};
 use crate::extensions::{ExtensionColumn, ExtensionValue};
 
 /// A trait for enum types that can be rendered as `&VariantName` in the text
@@ -57,6 +59,8 @@ pub enum Value<'a> {
     Enum(Cow<'a, str>),
     EmptyGroup,
     Integer(i64),
+    /// A Fetch limit or offset.
+    FetchValue(&'a Expression),
     /// A decoded extension argument value.
     ExtensionArgument(ExtensionValue),
     /// A decoded extension output column.
@@ -100,6 +104,15 @@ impl<'a> Textify for Value<'a> {
             Value::Missing(err) => write!(w, "{}", ctx.failure(err.clone())),
             Value::Enum(res) => write!(w, "&{res}"),
             Value::Integer(i) => write!(w, "{i}"),
+            Value::FetchValue(e) => {
+                write!(w, "{}", ctx.display(*e))?;
+                // A bare negative integer is not a valid limit or offset, so
+                // it needs its type.
+                if ctx.options().literal_types == Visibility::Required && is_negative_i64(e) {
+                    write!(w, ":i64")?;
+                }
+                Ok(())
+            }
             Value::EmptyGroup => write!(w, "_"),
             Value::ExtensionArgument(ev) => ev.textify(ctx, w),
             Value::ExtColumn(ec) => ec.textify(ctx, w),
@@ -107,6 +120,19 @@ impl<'a> Textify for Value<'a> {
     }
 }
 
+/// Whether the expression is an integer literal that is written without a type,
+/// and negative.
+fn is_negative_i64(expr: &Expression) -> bool {
+    matches!(
+        &expr.rex_type,
+        Some(RexType::Literal(Literal {
+            nullable: false,
+            type_variation_reference: 0,
+            literal_type: Some(LiteralType::I64(value)),
+        })) if *value < 0
+    )
+}
+
 /// A comma-separated argument list: positional arguments first, then named
 /// arguments. Renders as `arg, arg, name=arg`, or `_` when empty.
 #[derive(Debug, Clone, Default)]
-- 
2.43.0


From d371daa26de220dd17a74fd647a5c0d1e4078c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 41/43] fix: report extension URNs and names that do not fit on
 a line

---
 src/extensions/simple.rs  | 21 +++++++++++++++++++++
 src/textify/foundation.rs |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/src/extensions/simple.rs b/src/extensions/simple.rs
index ba9bb2e..6f9144e 100644
--- a/src/extensions/simple.rs
+++ b/src/extensions/simple.rs
@@ -83,6 +83,21 @@ pub enum InsertError {
 
     #[error("Invalid {kind} name '{name}': u! prefix is only valid for type names")]
     InvalidName { kind: ExtensionKind, name: String },
+
+    #[error("Invalid URN {urn:?} for anchor {anchor}: not text on a single line")]
+    InvalidUrn { anchor: u32, urn: String },
+
+    #[error("Invalid {kind} name {name:?} for anchor {anchor}: not text on a single line")]
+    MalformedName {
+        kind: ExtensionKind,
+        anchor: u32,
+        name: String,
+    },
+}
+
+/// Whether a URN or a name can be written at the end of a line and read back.
+fn fits_on_line(s: &str) -> bool {
+    !s.is_empty() && s.trim() == s && !s.contains('\n')
 }
 
 /// A Substrait compound function name, e.g. `"equal:any_any"`, `"count:"`, or `"add"`.
@@ -214,6 +229,9 @@ impl SimpleExtensions {
     }
 
     pub fn add_extension_urn(&mut self, urn: String, anchor: u32) -> Result<(), InsertError> {
+        if !fits_on_line(&urn) {
+            return Err(InsertError::InvalidUrn { anchor, urn });
+        }
         match self.urns.entry(anchor) {
             Entry::Occupied(e) => {
                 return Err(InsertError::DuplicateUrnAnchor {
@@ -246,6 +264,9 @@ impl SimpleExtensions {
         } else {
             name
         };
+        if !fits_on_line(&name) {
+            return Err(InsertError::MalformedName { kind, anchor, name });
+        }
         let missing_urn = !self.urns.contains_key(&urn);
 
         let prev = match self.extensions.entry((anchor, kind)) {
diff --git a/src/textify/foundation.rs b/src/textify/foundation.rs
index 03aa4fe..8628dab 100644
--- a/src/textify/foundation.rs
+++ b/src/textify/foundation.rs
@@ -308,6 +308,8 @@ impl FormatError {
             FormatError::Insert(InsertError::MissingUrn { .. }) => "uri",
             FormatError::Insert(InsertError::DuplicateAndMissingUrn { .. }) => "uri",
             FormatError::Insert(InsertError::InvalidName { .. }) => "extension",
+            FormatError::Insert(InsertError::InvalidUrn { .. }) => "uri",
+            FormatError::Insert(InsertError::MalformedName { .. }) => "extension",
         }
     }
 }
-- 
2.43.0


From 1d352b1f29c2d27f83b8f6cbc394607a4832bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 42/43] fix: report type parameters that the text format does
 not have

---
 src/textify/types.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index 5f46e34..7a2f49b 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -312,16 +312,24 @@ impl Textify for Parameter {
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
-            Parameter::Boolean(true) => write!(w, "true")?,
-            Parameter::Boolean(false) => write!(w, "false")?,
-            Parameter::DataType(t) => write!(w, "{}", ctx.display(t))?,
-            Parameter::Enum(e) => write!(w, "{e}")?,
-            Parameter::Integer(i) => write!(w, "{i}")?,
-            // TODO: Do we just put the string in directly?
-            Parameter::String(s) => write!(w, "{s}")?,
+            Parameter::DataType(t) => return write!(w, "{}", ctx.display(t)),
+            Parameter::Integer(i) => return write!(w, "{i}"),
+            Parameter::Boolean(b) => write!(w, "{b}")?,
+            Parameter::Enum(e) => write!(w, "{}", Name(e))?,
+            Parameter::String(s) => write!(w, "'{}'", escaped(s))?,
             Parameter::Null(_) => write!(w, "null")?,
         };
 
+        // The text format has no such parameters: what is written here is at
+        // best rejected, and at worst the name of a type.
+        ctx.push_error(
+            PlanError::unimplemented(
+                "Parameter",
+                NONSPECIFIC,
+                "Type parameters that are neither types nor integers",
+            )
+            .into(),
+        );
         Ok(())
     }
 }
-- 
2.43.0


From b305fbce62a5d121aa08586948195c4b94737cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:01 +0000
Subject: [PATCH 43/43] fix: quote the names and preferences of function
 options

---
 src/textify/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index a658fe6..154f1d1 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -777,7 +777,7 @@ impl Textify for FunctionOption {
     }
 
     fn textify<S: Scope, W: fmt::Write>(&self, _ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}⇒[", self.name)?;
+        write!(w, "{}⇒[", Name(&self.name))?;
         let mut first = true;
         for pref in self.preference.iter() {
             if !first {
@@ -785,7 +785,7 @@ impl Textify for FunctionOption {
             } else {
                 first = false;
             }
-            write!(w, "{pref}")?;
+            write!(w, "{}", Name(pref))?;
         }
         write!(w, "]")?;
         Ok(())
-- 
2.43.0

