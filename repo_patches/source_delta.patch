From 2827d3d69607c07987e6f056e995a4c48db7f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 01/36] fix: return parse errors instead of panicking when a
 rule is abandoned part-way

RuleIter's Drop asserted that every pair had been consumed, so any error
returned while pairs were still pending (Filter, Join, Sort, Fetch, IfThen, ...)
became a panic in the caller.
---
 src/parser/common.rs      | 30 +++++++-----------------------
 src/parser/expressions.rs |  4 +---
 src/parser/relations.rs   |  5 ++---
 3 files changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..7827368 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -285,8 +280,11 @@ impl<'a> RuleIter<'a> {
         T::parse_pair(extensions, pair)
     }
 
+    // Assert that every pair was consumed. Call this once a rule has been fully
+    // parsed, to catch partially-parsed tokens. A `RuleIter` may be dropped with
+    // pairs still pending: that is what happens when parsing fails part-way
+    // through a rule, and the error must reach the caller rather than panic.
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +296,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..48dd18b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -832,9 +832,7 @@ impl ScopedParsePair for ScalarFunction {
         let span = pair.as_span();
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Drain the iterator into raw pairs before any fallible parsing, so an
-        // early return doesn't trip the RuleIter drop guard with pairs still
-        // pending.
+        // Drain the iterator into raw pairs before any fallible parsing.
         let reference_pair = iter.pop(Rule::function_reference);
         let args_pair = iter.pop(Rule::argument_list);
         let type_pair = iter.pop(Rule::r#type);
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..3ecc0b2 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -1087,9 +1087,8 @@ impl RelationParsePair for FetchRel {
         let input = expect_one_child(Self::message(), &pair, input_children)?;
         let mut iter = RuleIter::from(pair.into_inner());
 
-        // Extract all pairs before any validation: RuleIter's Drop panics on
-        // incomplete consumption, so we must exhaust the iterator before any
-        // early return. Validation runs after iter.done() below.
+        // Extract all pairs before any validation, which runs after iter.done()
+        // below.
         let (limit_pair, offset_pair) = match iter.try_pop(Rule::fetch_named_arg_list) {
             None => {
                 iter.pop(Rule::empty);
-- 
2.43.0


From 6ee6cf6a382446da1203a5fd0c8766d531b9e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:49 +0000
Subject: [PATCH 02/36] fix: reject out-of-range integers in text plans instead
 of panicking

Field references, anchors, and integer literals were unwrapped after parsing
to i32/u32/i64, so text such as `$99999999999` or `#-1` panicked.
---
 src/parser/common.rs     | 47 ++++++++++++++++++++++++++++++++++++++++
 src/parser/extensions.rs |  3 ++-
 src/parser/mod.rs        |  2 +-
 src/parser/structural.rs |  6 ++++-
 4 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 7827368..dd789cd 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -87,6 +87,52 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that every integer in a parsed rule fits the protobuf field it is stored
+/// in: the grammar only guarantees an optionally-signed run of digits.
+///
+/// This runs once over the freshly parsed pairs, before they are converted, so
+/// the (infallible) conversions can rely on it. Integers not listed here are
+/// range-checked where they are converted.
+pub(crate) fn check_integer_ranges(
+    message: &'static str,
+    pairs: &Pairs<'_, Rule>,
+) -> Result<(), MessageParseError> {
+    for pair in pairs.clone().flatten() {
+        let rule = pair.as_rule();
+        if !matches!(
+            rule,
+            Rule::reference
+                | Rule::anchor
+                | Rule::urn_anchor
+                | Rule::expression_literal
+                | Rule::parameter_literal
+        ) {
+            continue;
+        }
+        for integer in pair.into_inner() {
+            if integer.as_rule() != Rule::integer {
+                continue;
+            }
+            let (fits, expected) = match rule {
+                Rule::reference => (integer.as_str().parse::<i32>().is_ok(), "a 32-bit integer"),
+                Rule::anchor | Rule::urn_anchor => (
+                    integer.as_str().parse::<u32>().is_ok(),
+                    "an unsigned 32-bit integer",
+                ),
+                _ => (integer.as_str().parse::<i64>().is_ok(), "a 64-bit integer"),
+            };
+            if !fits {
+                return Err(MessageParseError::invalid(
+                    message,
+                    integer.as_span(),
+                    format!("{} does not fit in {expected}", integer.as_str()),
+                ));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -171,6 +217,7 @@ pub(crate) trait ParsePair: Sized {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
         assert_eq!(pairs.as_str(), s);
+        check_integer_ranges(Self::message(), &pairs)?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
         Ok(Self::parse_pair(pair))
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..a4e4008 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    check_integer_ranges, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -221,6 +221,7 @@ impl SimpleExtensionDeclaration {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
         assert_eq!(pairs.as_str(), s);
+        check_integer_ranges("SimpleExtensionDeclaration", &pairs)?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..4f5a9db 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_integer_ranges, iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..64dbd55 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -17,7 +17,7 @@ use substrait::proto::{
 use crate::extensions::any::Any;
 use crate::extensions::{AddendumKind, ExtensionRegistry, SimpleExtensions, simple};
 use crate::parser::chunks::ChunkCursor;
-use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair};
+use crate::parser::common::{MessageParseError, ParsePair, ScopedParsePair, check_integer_ranges};
 use crate::parser::errors::{ParseContext, ParseError, ParseResult};
 use crate::parser::expressions::Name;
 use crate::parser::extensions::{
@@ -105,6 +105,8 @@ impl<'a> LineNode<'a> {
                     MessageParseError::new("planNode", ErrorKind::InvalidValue, Box::new(e)),
                 )
             })?;
+        check_integer_ranges("planNode", &pairs)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
@@ -136,6 +138,8 @@ impl<'a> LineNode<'a> {
                 MessageParseError::new("top_level_relation", ErrorKind::Syntax, Box::new(e)),
             )
         })?;
+        check_integer_ranges("top_level_relation", &pairs)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
-- 
2.43.0


From 630ec4bcbfeec37b46c71768903c3ae4e23a93e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 03/36] fix: report trailing text in an extension declaration
 instead of panicking

---
 src/parser/common.rs     | 27 ++++++++++++++++++++++++++-
 src/parser/extensions.rs |  4 ++--
 src/parser/mod.rs        |  3 ++-
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index dd789cd..6df3ff6 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -87,6 +87,31 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that a rule matched its whole input, rather than just a prefix of it.
+pub(crate) fn check_fully_parsed(
+    message: &'static str,
+    pairs: &Pairs<'_, Rule>,
+    input: &str,
+) -> Result<(), MessageParseError> {
+    // Rules are matched from the start of the input.
+    let parsed = pairs.as_str().len();
+    if parsed == input.len() {
+        return Ok(());
+    }
+    let span = Span::new(input, parsed, input.len()).expect("matched a prefix of the input");
+    let error = PestError::new_from_span(
+        ErrorVariant::CustomError {
+            message: format!("unexpected text: {}", span.as_str()),
+        },
+        span,
+    );
+    Err(MessageParseError::new(
+        message,
+        ErrorKind::Syntax,
+        Box::new(error),
+    ))
+}
+
 /// Check that every integer in a parsed rule fits the protobuf field it is stored
 /// in: the grammar only guarantees an optionally-signed run of digits.
 ///
@@ -216,7 +241,7 @@ pub(crate) trait ParsePair: Sized {
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
-        assert_eq!(pairs.as_str(), s);
+        check_fully_parsed(Self::message(), &pairs, s)?;
         check_integer_ranges(Self::message(), &pairs)?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index a4e4008..7a2b3fe 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    check_integer_ranges, unescape_string, unwrap_single_pair,
+    check_fully_parsed, check_integer_ranges, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -220,7 +220,7 @@ impl SimpleExtensionDeclaration {
             .map_err(|e| {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
-        assert_eq!(pairs.as_str(), s);
+        check_fully_parsed("SimpleExtensionDeclaration", &pairs, s)?;
         check_integer_ranges("SimpleExtensionDeclaration", &pairs)?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4f5a9db..02e92c2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    check_integer_ranges, iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_fully_parsed, check_integer_ranges, iter_pairs, sort_direction_from_str, unescape_string,
+    unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From 191e0b54d7fc53905370074cc23fe9dc9307354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:46 +0000
Subject: [PATCH 04/36] fix: report unsupported types in text plans instead of
 panicking

Substrait has no unsigned integer types, so those names are no longer reserved;
map and struct types, and non-type type parameters, are rejected with an error.
---
 src/parser/expression_grammar.pest |  4 ----
 src/parser/types.rs                | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..0404775 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,11 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            _ => Err(MessageParseError::invalid(
+                "Parameter",
+                inner.as_span(),
+                "only types are supported as type parameters",
+            )),
         }
     }
 }
@@ -193,7 +197,11 @@ fn parse_compound_type(
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        _ => Err(MessageParseError::invalid(
+            "Type",
+            inner.as_span(),
+            format!("type {} is not supported", inner.as_str()),
+        )),
     }
 }
 
-- 
2.43.0


From 695adb9547055517596606259ad026fc587e3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 05/36] fix: parse user-defined type names that start with a
 built-in type name

---
 src/parser/expression_grammar.pest | 36 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..7cc6f88 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -78,22 +78,26 @@ nullability = { ("?" | "⁉")? }
 
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
-simple_type_name = {
-    "boolean"
-  | "i8"
-  | "i16"
-  | "i32"
-  | "i64"
-  | "fp32"
-  | "fp64"
-  | "string"
-  | "binary"
-  | "timestamp_tz"
-  | "timestamp"
-  | "date"
-  | "time"
-  | "interval_year"
-  | "uuid"
+simple_type_name = @{
+    (
+        "boolean"
+      | "i8"
+      | "i16"
+      | "i32"
+      | "i64"
+      | "fp32"
+      | "fp64"
+      | "string"
+      | "binary"
+      | "timestamp_tz"
+      | "timestamp"
+      | "date"
+      | "time"
+      | "interval_year"
+      | "uuid"
+    )
+    // Not a prefix of a longer name, such as the user-defined type `date_range`.
+  ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // A simple native type expression, composed of a name and optional nullability.
-- 
2.43.0


From 7d9bbf49b7c17bfa0824e8b67d3a33d579de6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:47 +0000
Subject: [PATCH 06/36] fix: write floats so that they read back as the same
 float

Integral floats were written without a fractional part (1.0 as `1`), which
reads back as an integer, and NaN/infinity were written as text that does not
parse.
---
 src/textify/expressions.rs | 30 ++++++++++++++++++++++++++++--
 src/textify/extensions.rs  |  3 ++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..e9284ff 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -42,6 +42,32 @@ pub fn textify_binary<S: Scope, W: fmt::Write>(items: &[u8], ctx: &S, w: &mut W)
     Ok(())
 }
 
+/// Write a floating-point value. The text always has a fractional part, since
+/// that is what distinguishes a float from an integer; infinities and NaN have
+/// no text representation.
+pub fn textify_float<F, S, W>(value: F, ctx: &S, w: &mut W) -> fmt::Result
+where
+    F: fmt::Display + Into<f64> + Copy,
+    S: Scope,
+    W: fmt::Write,
+{
+    let float: f64 = value.into();
+    if !float.is_finite() {
+        let error = PlanError::invalid(
+            "Float",
+            None::<&str>,
+            format!("non-finite float {value} has no text representation"),
+        );
+        return write!(w, "{}", ctx.failure(error));
+    }
+    // `Display` writes the shortest decimal that reads back as the same value.
+    write!(w, "{value}")?;
+    if float.fract() == 0.0 {
+        write!(w, ".0")?;
+    }
+    Ok(())
+}
+
 /// Write an error token for a literal type that hasn't been implemented yet.
 fn unimplemented_literal<S: Scope, W: fmt::Write>(
     variant: &'static str,
@@ -314,8 +340,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) => textify_float(*f, ctx, w),
+        LiteralType::Fp64(f) => textify_float(*f, ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..dbdc6e2 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -9,6 +9,7 @@ use std::fmt;
 
 use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::textify_float;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
 
@@ -38,7 +39,7 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) => textify_float(*f, ctx, w),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From ab8dae6e88830902a2a5da15b6c199825dd768b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:14 +0000
Subject: [PATCH 07/36] fix: read back the \0 and \u{...} escapes the formatter
 writes

---
 src/parser/common.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 6df3ff6..646c376 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -212,6 +212,16 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    // A unicode escape, e.g. `\u{200b}`; anything else after
+                    // `\u` is not an escape sequence.
+                    'u' => match unescape_unicode(chars.as_str()) {
+                        Some((c, rest)) => {
+                            result.push(c);
+                            chars = rest.chars();
+                        }
+                        None => result.push('u'),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -223,6 +233,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Parse the `{...}` of a unicode escape at the start of `s`, returning the
+/// character and the text following the escape.
+fn unescape_unicode(s: &str) -> Option<(char, &str)> {
+    let (digits, rest) = s.strip_prefix('{')?.split_once('}')?;
+    let c = char::from_u32(u32::from_str_radix(digits, 16).ok()?)?;
+    Some((c, rest))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From f496c4a61524a4f535658c002d1be596d4af90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:47 +0000
Subject: [PATCH 08/36] fix: keep the ascribed type of a string literal

A nullable string literal ('x':string?) lost its nullability, and a string
ascribed any unsupported type ('x':uuid, 'x':i64) silently became a string.
---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 48dd18b..ed3af30 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -333,14 +333,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 039bf12d6d15e833736c9dff44733b7dd40d56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:34 +0000
Subject: [PATCH 09/36] fix: reject numeric literals that their ascribed type
 cannot hold

Integer literals ascribed i8, i16, or i32 were silently truncated (300:i8), and
float literals beyond the type's range became infinite.
---
 src/parser/expressions.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ed3af30..b57eb27 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,3 +1,4 @@
+use std::any::type_name;
 use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
 use std::str::FromStr;
@@ -92,6 +93,18 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
     nullability: Nullability::Required as i32,
 });
 
+/// Convert an integer literal to a narrower integer type, rejecting values that
+/// the type cannot hold.
+fn narrow_int<T: TryFrom<i64>>(value: &Pair<Rule>, parsed: i64) -> Result<T, MessageParseError> {
+    T::try_from(parsed).map_err(|_| {
+        MessageParseError::invalid(
+            "int_literal_type",
+            value.as_span(),
+            format!("{parsed} is out of range for {}", type_name::<T>()),
+        )
+    })
+}
+
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
     let parsed_value: i64 = value.as_str().parse().unwrap();
@@ -102,17 +115,17 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(i32::from(narrow_int::<i8>(&value, parsed_value)?)),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(i32::from(narrow_int::<i16>(&value, parsed_value)?)),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(narrow_int::<i32>(&value, parsed_value)?),
             i.nullability,
             i.type_variation_reference,
         ),
@@ -149,16 +162,18 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
     // If no type is provided, we assume fp64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
-    let (lit, nullability, tvar) = match &kind {
+    let (lit, nullability, tvar, finite) = match &kind {
         Kind::Fp32(f) => (
             LiteralType::Fp32(parsed_value as f32),
             f.nullability,
             f.type_variation_reference,
+            (parsed_value as f32).is_finite(),
         ),
         Kind::Fp64(f) => (
             LiteralType::Fp64(parsed_value),
             f.nullability,
             f.type_variation_reference,
+            parsed_value.is_finite(),
         ),
         k => {
             return Err(MessageParseError::invalid(
@@ -168,6 +183,13 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
             ));
         }
     };
+    if !finite {
+        return Err(MessageParseError::invalid(
+            "float_literal_type",
+            value.as_span(),
+            format!("{} is out of range for its type", value.as_str()),
+        ));
+    }
 
     Ok(Literal {
         literal_type: Some(lit),
-- 
2.43.0


From 5407f7d4599351b1793e950cd099dd0b87303251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 10/36] fix: report out-of-range date literals instead of
 panicking in the formatter

---
 src/textify/expressions.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index e9284ff..d2c7909 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -142,10 +142,19 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
 }
 
 /// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Errors if `days` is out of chrono's representable date range.
+fn days_to_date_string(days: i32) -> Result<String, PlanError> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch
+        .checked_add_signed(chrono::Duration::days(days as i64))
+        .ok_or_else(|| {
+            PlanError::invalid(
+                "LiteralType",
+                Some("Date"),
+                format!("value {days} is out of range for Date"),
+            )
+        })?;
+    Ok(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -344,9 +353,10 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => textify_float(*f, ctx, w),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Ok(date) => write!(w, "'{}'", escaped(&date)),
+            Err(e) => write!(w, "{}", ctx.failure(e)),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From 4d27258e6a1b8b0df5d261510908e5e49ce6c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:01 +0000
Subject: [PATCH 11/36] fix: parse relation arguments that the formatter writes

An empty Sort (`_`), a typed Fetch limit or offset (`5:i32`), and an Aggregate
whose first grouping expression is a cast were rejected by the grammar.
---
 src/parser/expression_grammar.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 7cc6f88..11a00f0 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -324,7 +324,8 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 
 aggregate_group_by = { grouping_set_list | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
-grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
+// A parenthesized expression followed by `::` is a cast expression, not a grouping set.
+grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")" ~ !(sp ~ "::")) | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
@@ -335,13 +336,13 @@ empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { "_" | (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+fetch_value          =  { integer ~ !":" | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 0bb42f2680d1e09fac7656389c51e789653f034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:20 +0000
Subject: [PATCH 12/36] fix: reject duplicate named arguments in extension
 invocations

The last value silently replaced the earlier ones.
---
 src/parser/extensions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 7a2b3fe..c561f8e 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -594,9 +594,16 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
-                    args.insert(key, val);
+                    if args.insert(key.clone(), val).is_some() {
+                        return Err(MessageParseError::invalid(
+                            "extension_named_argument",
+                            name_span,
+                            format!("duplicate argument: {key}"),
+                        ));
+                    }
                 }
             }
             Rule::empty => {}
-- 
2.43.0


From 3977485f155c26def53bfab88e028f838e86c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 13/36] fix: quote extension and argument names that are not
 identifiers

A quoted extension relation name kept its quotes when parsed, and the formatter
wrote extension and argument names raw, producing text that does not parse.
---
 src/parser/extensions.rs  | 14 ++++----------
 src/textify/addenda.rs    |  2 ++
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index c561f8e..970d471 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -474,17 +474,11 @@ impl ScopedParsePair for ExtensionInvocation {
         let mut iter = pair.into_inner();
 
         // Parse extension name to determine relation type and custom name
-        let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
-
-        // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let mut name_iter = RuleIter::from(iter.next().unwrap().into_inner()); // Grammar guarantees extension_name exists
+        let relation_type_str = name_iter.pop(Rule::extension_type).as_str();
+        let custom_name = name_iter.parse_next::<Name>().0;
+        name_iter.done();
 
         let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
         let mut args = ExtensionArgs::default();
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..d2ec46a 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,6 +161,7 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
+                    let name = Name(name);
                     write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
                 }
             }
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index dbdc6e2..07cc3a2 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -99,7 +99,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From d240c1770281289c83a0e6cc21976b387223adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:21 +0000
Subject: [PATCH 14/36] fix: report the line number, not the indent, of an
 unknown initial line

---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 64dbd55..d7ac186 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1059,8 +1059,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(self.line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 2bd8e4fc2b874aa20b081191c4c236d9d1eb1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:02 +0000
Subject: [PATCH 15/36] fix: parse extension arguments whose name starts with
 true, false or null

---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 11a00f0..3b19d4e 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,9 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+// Not a prefix of a longer name, such as the function `nullif` or the argument `nullable`.
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
-- 
2.43.0


From 90e74492fe0e22066db84ec94fe2e30874c33d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:02 +0000
Subject: [PATCH 16/36] fix: parse an extension output column that calls a
 function by its signature

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3b19d4e..9690c6d 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -408,7 +408,8 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// A name and type followed by a call is a function call with a signature, not a named column.
+extension_column  = { named_column ~ !(sp ~ ("(" | "#" | "@")) | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From 69fbcabdf9aa6d43597fadd6ef0922899b94da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:37 +0000
Subject: [PATCH 17/36] fix: parse extension arguments named exactly true,
 false or null

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 9690c6d..0f79c0e 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -400,7 +400,8 @@ tuple = {
               ~ (sp ~ "," ~ sp ~ extension_argument)+
               ~ (sp ~ ",")? ~ sp ~ ")"
         }
-extension_argument  = { enum_value | parameter_literal | reference | expression | tuple }
+// A name followed by `=` (but not `=>`) is a named argument, even if it is `null`, `true` or `false`.
+extension_argument  = { !(name ~ sp ~ "=" ~ !">") ~ (enum_value | parameter_literal | reference | expression | tuple) }
 
 // Named arguments (name=value pairs)
 extension_named_arguments = { extension_named_argument ~ (sp ~ "," ~ sp ~ extension_named_argument)* }
-- 
2.43.0


From 0d19bacf9357f94f9a3c7df0b7a2c4443aa24b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:11 +0000
Subject: [PATCH 18/36] fix: reject negative fetch bounds with a type suffix
 and read float bounds

limit=-1:i64 was accepted although limit=-1 is not, and was then written
back as limit=-1; a float literal bound was written but not read.
---
 src/parser/expression_grammar.pest |  2 +-
 src/parser/relations.rs            | 29 +++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0f79c0e..13246e0 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -343,7 +343,7 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer ~ !":" | expression }
+fetch_value          =  { integer ~ !(":" | ".") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 3ecc0b2..6e3ed20 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -990,7 +990,15 @@ impl ScopedParsePair for CountMode {
                 Ok(CountMode::CountExpr(i64_literal_expr(value)))
             }
             Rule::expression => {
+                let span = value_pair.as_span();
                 let expr = Expression::parse_pair(extensions, value_pair)?;
+                if let Some(value) = negative_integer_literal(&expr) {
+                    return Err(MessageParseError::invalid(
+                        Self::message(),
+                        span,
+                        format!("Fetch limit must be non-negative, got: {value}"),
+                    ));
+                }
                 Ok(CountMode::CountExpr(Box::new(expr)))
             }
             _ => Err(MessageParseError::invalid(
@@ -1012,6 +1020,19 @@ fn i64_literal_expr(value: i64) -> Box<Expression> {
     })
 }
 
+/// The value of a negative integer literal of any width.
+fn negative_integer_literal(expr: &Expression) -> Option<i64> {
+    let Some(RexType::Literal(literal)) = &expr.rex_type else {
+        return None;
+    };
+    match literal.literal_type {
+        Some(LiteralType::I8(v) | LiteralType::I16(v) | LiteralType::I32(v)) => Some(i64::from(v)),
+        Some(LiteralType::I64(v)) => Some(v),
+        _ => None,
+    }
+    .filter(|v| *v < 0)
+}
+
 impl ScopedParsePair for OffsetMode {
     fn rule() -> Rule {
         Rule::fetch_value
@@ -1049,7 +1070,15 @@ impl ScopedParsePair for OffsetMode {
                 Ok(OffsetMode::OffsetExpr(i64_literal_expr(value)))
             }
             Rule::expression => {
+                let span = value_pair.as_span();
                 let expr = Expression::parse_pair(extensions, value_pair)?;
+                if let Some(value) = negative_integer_literal(&expr) {
+                    return Err(MessageParseError::invalid(
+                        Self::message(),
+                        span,
+                        format!("Fetch offset must be non-negative, got: {value}"),
+                    ));
+                }
                 Ok(OffsetMode::OffsetExpr(Box::new(expr)))
             }
             _ => Err(MessageParseError::invalid(
-- 
2.43.0


From bee71c503b222c97839025273a998296b9c7a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 19/36] fix: keep the output mapping of semi, anti, single and
 mark joins explicit

Their direct width is not that of both inputs together: a mark join with a
zero-width side listing one column too few was recorded as direct output.
---
 src/parser/relations.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 6e3ed20..e19301a 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -1242,10 +1242,20 @@ impl RelationParsePair for JoinRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        // TODO: For semi/anti joins, the direct output width differs from
-        // left+right — `input_field_count` would misclassify the emit as Direct.
-        // Revisit when those join types are supported.
-        let (emit, output_count) = parse_emit(references_pair, input_field_count);
+        let (emit, output_count) = match join_type {
+            join_rel::JoinType::Inner
+            | join_rel::JoinType::Outer
+            | join_rel::JoinType::Left
+            | join_rel::JoinType::Right => parse_emit(references_pair, input_field_count),
+            // For the other join types, the direct output width differs from
+            // left+right, so `input_field_count` would misclassify the emit as
+            // Direct; keep the mapping explicit.
+            _ => {
+                let output_mapping = parse_output_mapping(references_pair);
+                let output_count = output_mapping.len();
+                (EmitKind::Emit(Emit { output_mapping }), output_count)
+            }
+        };
         let common = RelCommon {
             emit_kind: Some(emit),
             ..Default::default()
-- 
2.43.0


From 64f91e3daa0a9bedf9aa186f541172ed3ea328d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:05 +0000
Subject: [PATCH 20/36] fix: report nested struct field references instead of
 dropping the nested part

---
 src/textify/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index d2c7909..1207375 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -642,7 +642,7 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
-            Some(reference_segment::ReferenceType::StructField(s)) => {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_none() => {
                 write!(w, "{}", Reference(s.field))
             }
             None => write!(
@@ -660,7 +660,7 @@ impl Textify for FieldReference {
                 ctx.failure(PlanError::unimplemented(
                     "ReferenceSegment",
                     Some("reference_type"),
-                    "ReferenceSegment textification implemented only for StructField",
+                    "ReferenceSegment textification implemented only for StructField without a child",
                 ))
             ),
         }
-- 
2.43.0


From 38cb2dba09865ba5bccf156b03993d0b6cd7e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 21/36] fix: report a measure without a function instead of
 shifting later columns

---
 src/textify/rels.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..e2b9ba8 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -784,9 +784,10 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            let measure = m.measure.as_ref().map(Value::AggregateFunction);
+            all_outputs.push(Value::expect(measure, || {
+                PlanError::invalid("Measure", Some("measure"), "Measure is missing its function")
+            }));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 70b57123cca12c5890537733815f8873173cd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 22/36] fix: read deprecated grouping expressions after an
 empty grouping set

---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index e2b9ba8..1d30772 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -728,8 +728,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|g| !g.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From 11ff8a8a93748e2415b3100b9da939891622d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 23/36] fix: report missing relation inputs instead of dropping
 them

---
 src/textify/rels.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 1d30772..b51ada3 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -352,9 +352,16 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => {
+                    let error =
+                        PlanError::invalid("Rel", Some("input"), "Required input is missing");
+                    write!(w, "{}{}", child_scope.indent(), ctx.failure(error))?;
+                }
+            }
         }
         Ok(())
     }
@@ -788,7 +795,11 @@ impl<'a> Relation<'a> {
         for m in &rel.measures {
             let measure = m.measure.as_ref().map(Value::AggregateFunction);
             all_outputs.push(Value::expect(measure, || {
-                PlanError::invalid("Measure", Some("measure"), "Measure is missing its function")
+                PlanError::invalid(
+                    "Measure",
+                    Some("measure"),
+                    "Measure is missing its function",
+                )
             }));
         }
         let emit = get_emit(rel.common.as_ref());
@@ -847,12 +858,15 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => {
+                let error =
+                    PlanError::invalid("RelRoot", Some("input"), "Required input is missing");
+                write!(w, "{}{}", child_scope.indent(), ctx.failure(error))
+            }
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From 662651912c367a37d893c2c913a95ac71cb7a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:54 +0000
Subject: [PATCH 24/36] fix: report output that could not be flushed instead of
 exiting with success

---
 src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..f79792e 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -443,12 +443,14 @@ fn read_binary_input<R: Read>(mut reader: R) -> Result<Vec<u8>> {
 /// Write text output to writer
 fn write_text_output<W: Write>(mut writer: W, content: &str) -> Result<()> {
     writer.write_all(content.as_bytes())?;
+    writer.flush()?;
     Ok(())
 }
 
 /// Write binary output to writer
 fn write_binary_output<W: Write>(mut writer: W, content: &[u8]) -> Result<()> {
     writer.write_all(content)?;
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 0def18b70b0d92d69730b2defdb1e86058abef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:41 +0000
Subject: [PATCH 25/36] fix: reject JSON input with trailing characters

---
 src/json.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..90f5ed3 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,10 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .and_then(|msg| deserializer.end().map(|()| msg))
+        .context("failed to parse JSON as substrait.Plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0


From 7c77e3f51764a499d5531fc1c7d530a2eeca6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:48 +0000
Subject: [PATCH 26/36] fix: reject continuation lines that no relation reads
 instead of dropping them

---
 src/parser/structural.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index d7ac186..183c6cc 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -93,6 +93,29 @@ pub enum LineNode<'a> {
     Addendum(Addendum<'a>),
 }
 
+/// Reject continuation lines that the relation did not consume, rather than
+/// silently dropping them.
+fn check_continuations(
+    message: &'static str,
+    pair: &pest::iterators::Pair<Rule>,
+    line: &str,
+    line_no: i64,
+) -> Result<(), ParseError> {
+    let end = pair.as_span().end();
+    if !line[end..].contains('\n') {
+        return Ok(());
+    }
+    let span = pest::Span::new(line, end, line.len()).expect("Invalid span?!");
+    Err(ParseError::Plan(
+        ParseContext::new(line_no, line.to_string()),
+        MessageParseError::invalid(
+            message,
+            span,
+            "unexpected continuation line; only virtual tables continue on '- ' lines",
+        ),
+    ))
+}
+
 impl<'a> LineNode<'a> {
     pub fn parse(line: &'a str, line_no: i64) -> Result<Self, ParseError> {
         let mut pairs: Pairs<'a, Rule> =
@@ -110,6 +133,7 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
+        check_continuations("planNode", &outer, line, line_no)?;
         let inner = unwrap_single_pair(outer);
 
         Ok(match inner.as_rule() {
@@ -143,6 +167,7 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
+        check_continuations("top_level_relation", &outer, line, line_no)?;
 
         // top_level_relation is either root_relation or planNode.
         // If planNode, unwrap one more level to obtain the specific relation rule.
-- 
2.43.0


From 1944120fea24617332f182ce7c0ddd059db789b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:10 +0000
Subject: [PATCH 27/36] fix: reject leap seconds in time and timestamp literals

'23:59:60':time parsed to 24:00:00, which cannot be formatted, and other
leap seconds were silently read as the following second.
---
 src/parser/expressions.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b57eb27..05a545b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -3,7 +3,7 @@ use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
 use std::str::FromStr;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
 use pest::Parser as PestParser;
 use pest::iterators::Pair;
 use substrait::proto::aggregate_rel::Measure;
@@ -513,6 +513,23 @@ fn check_supported_precision(
     }
 }
 
+/// Reject a leap second (`:60`), which chrono accepts: there is no value that
+/// would represent it, only the second after it.
+fn check_no_leap_second(
+    time: NaiveTime,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    if time.nanosecond() < 1_000_000_000 {
+        return Ok(());
+    }
+    Err(MessageParseError::invalid(
+        "precision_literal_leap_second",
+        span,
+        format!("leap seconds cannot be represented in a {literal_kind} literal"),
+    ))
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -536,6 +553,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_no_leap_second(datetime.time(), literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -565,6 +583,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_no_leap_second(time, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 2a7c1c84c09605dca7381069edfed05d8835579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:39 +0000
Subject: [PATCH 28/36] fix: reject fractions finer than a nanosecond instead
 of truncating them

---
 src/parser/expressions.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 05a545b..7ddd8e1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -513,6 +513,27 @@ fn check_supported_precision(
     }
 }
 
+/// Reject a fraction finer than a nanosecond, which chrono would truncate.
+fn check_no_sub_nanoseconds(
+    text: &str,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let finer = text
+        .rsplit_once('.')
+        .is_some_and(|(_, fraction)| fraction.bytes().skip(9).any(|b| b != b'0'));
+    if !finer {
+        return Ok(());
+    }
+    Err(MessageParseError::invalid(
+        "precision_literal_fractional_truncated",
+        span,
+        format!(
+            "value has a fractional component finer than a nanosecond, which a {literal_kind} literal cannot represent"
+        ),
+    ))
+}
+
 /// Reject a leap second (`:60`), which chrono accepts: there is no value that
 /// would represent it, only the second after it.
 fn check_no_leap_second(
@@ -554,6 +575,7 @@ fn parse_timestamp_to_precision_units(
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
             check_no_leap_second(datetime.time(), literal_kind, span)?;
+            check_no_sub_nanoseconds(timestamp_str, literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -584,6 +606,7 @@ fn parse_time_to_precision_units(
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
             check_no_leap_second(time, literal_kind, span)?;
+            check_no_sub_nanoseconds(time_str, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From e176fd9e8cde7c058dda102de89f8c127eed2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 29/36] fix: reject extension argument floats that overflow to
 infinity

---
 src/parser/extensions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 970d471..9add9ba 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -304,7 +304,15 @@ impl ScopedParsePair for ExtensionValue {
                         ExtensionValue::Integer(value_pair.as_str().parse::<i64>().unwrap())
                     }
                     Rule::float => {
-                        ExtensionValue::Float(value_pair.as_str().parse::<f64>().unwrap())
+                        let value = value_pair.as_str().parse::<f64>().unwrap();
+                        if !value.is_finite() {
+                            return Err(MessageParseError::invalid(
+                                Self::message(),
+                                value_pair.as_span(),
+                                format!("{} is out of range", value_pair.as_str()),
+                            ));
+                        }
+                        ExtensionValue::Float(value)
                     }
                     Rule::boolean => ExtensionValue::Boolean(value_pair.as_str() == "true"),
                     Rule::null => ExtensionValue::Null,
-- 
2.43.0


From 61fd8fd9eb50276a28febe37c323bf67b4f5e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 30/36] fix: create the output file only once the input has
 been read

---
 src/cli.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index f79792e..8ae238c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,8 +82,7 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
+                let writer = get_writer(output);
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
@@ -105,8 +104,7 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
+                let writer = get_writer(output);
                 self.run_validate_with_io(reader, writer, *verbose, registry)
             }
         }
@@ -464,11 +462,51 @@ fn get_reader(path: &str) -> Result<Box<dyn Read>> {
 }
 
 /// Helper function to get writer from file path (or stdout if "-")
-fn get_writer(path: &str) -> Result<Box<dyn Write>> {
+fn get_writer(path: &str) -> Box<dyn Write> {
     if path == "-" {
-        Ok(Box::new(io::stdout()))
+        Box::new(io::stdout())
     } else {
-        Ok(Box::new(fs::File::create(path)?))
+        Box::new(OutputFile {
+            path: path.to_string(),
+            file: None,
+        })
+    }
+}
+
+/// An output file that is only created (or truncated) once there is output for it.
+///
+/// By then the input has been read, so it may be the same file, and a run that
+/// fails to read its input leaves an existing output file as it was.
+struct OutputFile {
+    path: String,
+    file: Option<fs::File>,
+}
+
+impl OutputFile {
+    fn file(&mut self) -> io::Result<&mut fs::File> {
+        match &mut self.file {
+            Some(file) => Ok(file),
+            none => {
+                let file = fs::File::create(&self.path).map_err(|e| {
+                    let path = &self.path;
+                    io::Error::new(
+                        e.kind(),
+                        format!("Failed to create output file: {path}: {e}"),
+                    )
+                })?;
+                Ok(none.insert(file))
+            }
+        }
+    }
+}
+
+impl Write for OutputFile {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.file()?.write(buf)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.file()?.flush()
     }
 }
 
-- 
2.43.0


From e2cb3341eaceeabf4d0838e4f77bcedecdae9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 31/36] fix: reject text after a relation's closing bracket

Anything after the closing bracket of a relation or addendum on the same line
was silently dropped; only a // comment may follow.
---
 src/parser/structural.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 183c6cc..aa4b3b5 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -93,26 +93,28 @@ pub enum LineNode<'a> {
     Addendum(Addendum<'a>),
 }
 
-/// Reject continuation lines that the relation did not consume, rather than
-/// silently dropping them.
-fn check_continuations(
+/// Reject text that the relation or addendum did not consume, rather than
+/// silently dropping it: continuation lines, and anything but a `//` comment
+/// after the closing bracket.
+fn check_trailing(
     message: &'static str,
     pair: &pest::iterators::Pair<Rule>,
     line: &str,
     line_no: i64,
 ) -> Result<(), ParseError> {
     let end = pair.as_span().end();
-    if !line[end..].contains('\n') {
+    let rest = &line[end..];
+    let description = if rest.contains('\n') {
+        "unexpected continuation line; only virtual tables continue on '- ' lines"
+    } else if rest.trim().is_empty() || rest.trim_start().starts_with("//") {
         return Ok(());
-    }
+    } else {
+        "unexpected text after the closing bracket"
+    };
     let span = pest::Span::new(line, end, line.len()).expect("Invalid span?!");
     Err(ParseError::Plan(
         ParseContext::new(line_no, line.to_string()),
-        MessageParseError::invalid(
-            message,
-            span,
-            "unexpected continuation line; only virtual tables continue on '- ' lines",
-        ),
+        MessageParseError::invalid(message, span, description),
     ))
 }
 
@@ -133,7 +135,7 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
-        check_continuations("planNode", &outer, line, line_no)?;
+        check_trailing("planNode", &outer, line, line_no)?;
         let inner = unwrap_single_pair(outer);
 
         Ok(match inner.as_rule() {
@@ -167,7 +169,7 @@ impl<'a> LineNode<'a> {
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
-        check_continuations("top_level_relation", &outer, line, line_no)?;
+        check_trailing("top_level_relation", &outer, line, line_no)?;
 
         // top_level_relation is either root_relation or planNode.
         // If planNode, unwrap one more level to obtain the specific relation rule.
-- 
2.43.0


From 5a4eeb1e2fa0005d107c29871d7bc5b17cd66c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 32/36] fix: check the URN anchor of a function or type
 reference

A reference such as add#10@2 was accepted with a URN anchor that contradicts
the declaration of #10, or is not declared at all.
---
 src/parser/expressions.rs | 27 ++++++++++++++++++++-------
 src/parser/types.rs       | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7ddd8e1..759378d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -22,7 +22,7 @@ use substrait::proto::function_argument::ArgType;
 use substrait::proto::r#type::{Fp64, I64, Kind, Nullability};
 use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
-use super::types::get_and_validate_anchor;
+use super::types::{get_and_validate_anchor, validate_urn_anchor};
 use super::{
     ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
     unescape_string, unwrap_single_pair,
@@ -798,10 +798,11 @@ impl ScopedParsePair for Literal {
     }
 }
 
-/// An unresolved reference to a function: its compound name plus an optional explicit anchor.
+/// An unresolved reference to a function: its compound name plus optional explicit anchors.
 struct FunctionReference {
     name: CompoundName,
     anchor: Option<u32>,
+    urn_anchor: Option<u32>,
 }
 
 impl ParsePair for FunctionReference {
@@ -825,13 +826,17 @@ impl ParsePair for FunctionReference {
             .try_pop(Rule::anchor)
             .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
-        // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor = iter
+        // Optional URN anchor (e.g., @1)
+        let urn_anchor = iter
             .try_pop(Rule::urn_anchor)
             .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
         iter.done();
-        FunctionReference { name, anchor }
+        FunctionReference {
+            name,
+            anchor,
+            urn_anchor,
+        }
     }
 }
 
@@ -843,13 +848,21 @@ impl FunctionReference {
         extensions: &SimpleExtensions,
         span: pest::Span,
     ) -> Result<u32, MessageParseError> {
-        get_and_validate_anchor(
+        let anchor = get_and_validate_anchor(
             extensions,
             ExtensionKind::Function,
             self.anchor,
             self.name.full(),
             span,
-        )
+        )?;
+        validate_urn_anchor(
+            extensions,
+            ExtensionKind::Function,
+            anchor,
+            self.urn_anchor,
+            span,
+        )?;
+        Ok(anchor)
     }
 }
 
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 0404775..db767ae 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -57,6 +57,34 @@ pub(crate) fn get_and_validate_anchor(
     }
 }
 
+/// Check that an explicit URN anchor (`@1`) names the URN that the extension
+/// at `anchor` was declared with.
+pub(crate) fn validate_urn_anchor(
+    extensions: &SimpleExtensions,
+    kind: ExtensionKind,
+    anchor: u32,
+    urn_anchor: Option<u32>,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let Some(urn_anchor) = urn_anchor else {
+        return Ok(());
+    };
+    match extensions.find_by_anchor(kind, anchor) {
+        Ok((declared, _)) if declared == urn_anchor => Ok(()),
+        Ok((declared, name)) => Err(MessageParseError::invalid(
+            kind.name(),
+            span,
+            format!("{name}#{anchor} is declared with URN anchor @{declared}, not @{urn_anchor}"),
+        )),
+        Err(e) => Err(MessageParseError::lookup(
+            kind.name(),
+            e,
+            span,
+            "Error matching URN anchor",
+        )),
+    }
+}
+
 impl ParsePair for Nullability {
     fn rule() -> Rule {
         Rule::nullability
@@ -322,8 +350,7 @@ fn parse_user_defined_type(
         .try_pop(Rule::anchor)
         .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
-    // TODO: Handle urn_anchor; validate that it matches the anchor
-    let _urn_anchor = iter
+    let urn_anchor = iter
         .try_pop(Rule::urn_anchor)
         .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
@@ -335,6 +362,7 @@ fn parse_user_defined_type(
     iter.done();
 
     let anchor = get_and_validate_anchor(extensions, ExtensionKind::Type, anchor, &name, span)?;
+    validate_urn_anchor(extensions, ExtensionKind::Type, anchor, urn_anchor, span)?;
 
     Ok(Type {
         kind: Some(Kind::UserDefined(proto::r#type::UserDefined {
-- 
2.43.0


From c9964dd450a5c51884e776375341287a1275b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 33/36] fix: reject a repeated producer or git_hash line

The later line silently replaced the earlier one.
---
 src/parser/structural.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index aa4b3b5..4e7afdb 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1219,16 +1219,24 @@ impl<'a> Parser<'a> {
             .version
             .as_mut()
             .expect("version is set on entry to the version section");
-        match key.trim() {
-            "producer" => version.producer = value,
-            "git_hash" => version.git_hash = value,
+        let key = key.trim();
+        let field = match key {
+            "producer" => &mut version.producer,
+            "git_hash" => &mut version.git_hash,
             other => {
                 return Err(ParseError::ValidationError(
                     ctx(),
                     format!("unknown version field {other:?}, expected 'producer' or 'git_hash'"),
                 ));
             }
+        };
+        if !field.is_empty() {
+            return Err(ParseError::ValidationError(
+                ctx(),
+                format!("version field {key:?} is given more than once"),
+            ));
         }
+        *field = value;
         Ok(())
     }
 
-- 
2.43.0


From 8f2db0e1142c31e667cffc1c1dc5ce89c134b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 34/36] fix: parse nested list types, conditionals and tuples
 without trying everything twice per level

Each level of nesting was parsed twice (once as the built-in form, once as
the general one), so 30 levels took minutes.
---
 src/parser/expression_grammar.pest | 41 ++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 13246e0..94fff2b 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -110,13 +110,27 @@ simple_type = { simple_type_name ~ nullability }
 // Note that the names here are case-insensitive. In the docs, they are shown as
 // upper-case, but I prefer them lowercase...
 
+// The names `list`, `map` and `struct` may also be those of user-defined types. The following
+// rules tell the two apart by looking at the shape of the parameters alone: trying one after the
+// other would parse the parameters twice at every level of nesting.
+
+// The text of one type parameter.
+parameter_text = _{ (quoted_name | "<" ~ (parameter_text | ",")* ~ ">" | !("<" | ">" | ",") ~ ANY)+ }
+// As above, but for parameters that only user-defined types have.
+type_text      = _{ !(integer | quoted_name) ~ parameter_text }
+built_in_type  = _{
+    ^"list" ~ nullability ~ "<" ~ type_text ~ ">"
+  | ^"map" ~ nullability ~ "<" ~ type_text ~ "," ~ sp ~ type_text ~ ">"
+  | ^"struct" ~ nullability ~ "<"
+}
+
 // A list type expression, composed of a list keyword and a type.
 // Example: list<i64>
-list_type = { ^"list" ~ nullability ~ "<" ~ type ~ ">" }
+list_type = { &built_in_type ~ ^"list" ~ nullability ~ "<" ~ type ~ ">" }
 
 // A map type expression, composed of a map keyword and a key type and a value type.
 // Example: map<i64, string>
-map_type = { ^"map" ~ nullability ~ "<" ~ type ~ "," ~ sp ~ type ~ ">" }
+map_type = { &built_in_type ~ ^"map" ~ nullability ~ "<" ~ type ~ "," ~ sp ~ type ~ ">" }
 
 struct_type = { ^"struct" ~ nullability ~ parameters }
 
@@ -141,7 +155,7 @@ compound_type = { list_type | map_type | struct_type | precision_timestamp_tz_ty
 // Anchor is required when the name is ambiguous across URNs; URN anchor is optional.
 // TODO: Do we need to support quoted names / special characters in type/function names?
 user_defined_type = {
-    "u!"? ~ identifier ~ anchor? ~ urn_anchor? ~ nullability ~ parameters?
+    !built_in_type ~ "u!"? ~ identifier ~ anchor? ~ urn_anchor? ~ nullability ~ parameters?
 }
 
 // A type expression is a simple type, a compound type, or a user-defined type.
@@ -163,16 +177,21 @@ function_reference = { function_signature ~ sp ~ anchor? ~ sp ~ urn_anchor? }
 // - Required output type annotation after closing paren, e.g. :i64
 //   (unambiguous because function_signature is atomic and ends before the opening paren)
 function_call = {
-    function_reference ~ sp ~ argument_list ~ ":" ~ sp ~ type
+    !if_then_start ~ function_reference ~ sp ~ argument_list ~ ":" ~ sp ~ type
 }
 
 if_clause = {
     expression ~ sp ~ "->" ~ sp ~ expression
 }
 
+// A function may be named `if_then`, too. Only the arrow tells the two apart: looking for it first
+// saves parsing the arguments twice at every level of nesting.
+if_then_start = _{ "if_then(" ~ argument_text* ~ "->" }
+argument_text = _{ string_literal | quoted_name | "(" ~ (argument_text | "->")* ~ ")" | !("(" | ")" | "->") ~ ANY }
+
 // For the form: if_then(true || false -> true, _ -> false)
 if_then = {
-    "if_then(" ~ sp ~ (if_clause ~ sp ~ "," ~ sp)+ ~ sp ~ "_" ~ sp ~ "->" ~ sp ~ expression ~ ")"
+    &if_then_start ~ "if_then(" ~ sp ~ (if_clause ~ sp ~ "," ~ sp)+ ~ sp ~ "_" ~ sp ~ "->" ~ sp ~ expression ~ ")"
 }
 
 // Enum value, e.g. &Inner, &CORE, &AscNullsFirst
@@ -393,12 +412,12 @@ parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":
 tuple = {
         // empty tuple (0-tuple)
         "(" ~ sp ~ ")"
-        // Single element (1-tuple) - uses trailing comma to distinguish from expression
-        | "(" ~ sp ~ extension_argument ~ sp ~ "," ~ sp ~ ")"
-        // Multi-element tuple. Trailing comma optional.
-        | "(" ~ sp ~ extension_argument
-              ~ (sp ~ "," ~ sp ~ extension_argument)+
-              ~ (sp ~ ",")? ~ sp ~ ")"
+        // Single element (1-tuple) - uses trailing comma to distinguish from expression;
+        // multi-element tuple - trailing comma optional.
+        | "(" ~ sp ~ extension_argument ~ sp ~ "," ~ sp
+              ~ (extension_argument
+                  ~ (sp ~ "," ~ sp ~ extension_argument)*
+                  ~ (sp ~ ",")? ~ sp)? ~ ")"
         }
 // A name followed by `=` (but not `=>`) is a named argument, even if it is `null`, `true` or `false`.
 extension_argument  = { !(name ~ sp ~ "=" ~ !">") ~ (enum_value | parameter_literal | reference | expression | tuple) }
-- 
2.43.0


From 84d4d3f560ceda5ae45af1d831d77108cc4409e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 35/36] fix: accept calls of functions named true, false or
 null as extension arguments

---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 94fff2b..6eda88e 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -405,7 +405,7 @@ extension_arguments = { extension_argument ~ (sp ~ "," ~ sp ~ extension_argument
 // Ascribed literals (for example, 2:i16 or '2024-01-01':date) fall through to
 // expression parsing so their Substrait type information is preserved. Bare
 // null is a parameter value; ascribed null falls through to expression parsing.
-parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":") }
+parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":" | sp ~ ("(" | "#" | "@")) }
 
 // Tuples follow the Python/Rust trailing-comma convention to disambiguate from parenthesised
 // expressions.
-- 
2.43.0


From a68aa2d3cb1440b8e07a5babf6c79a91d31d2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 36/36] fix: keep the u! prefix of user-defined types named
 like a built-in type

Without it the name reads back as the built-in type.
---
 GRAMMAR.md           |  4 ++--
 src/textify/types.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/GRAMMAR.md b/GRAMMAR.md
index 8e27556..71d0c9e 100644
--- a/GRAMMAR.md
+++ b/GRAMMAR.md
@@ -300,7 +300,7 @@ type := ("u!")? identifier anchor? urn_anchor? nullability? parameters?
 
 Where:
 
-- **`identifier`** - The type name (case-insensitive, lowercase preferred), e.g. `geo_point` or `my_type`. `u!my_type` syntax is accepted, but not recommended; the `u!` will be dropped - e.g. both `u!json` and `json` refer to the same extension.
+- **`identifier`** - The type name (case-insensitive, lowercase preferred), e.g. `geo_point` or `my_type`. `u!my_type` syntax is accepted, but not recommended; the `u!` will be dropped - e.g. both `u!json` and `json` refer to the same extension. Only a type named like a built-in one (e.g. `u!date`) needs and keeps it.
 - **`anchor`**` := "#" integer` - Extension anchor (e.g., `#10`)
 - **`urn_anchor`**` := "@" integer` - URN anchor (e.g., `@1`)
 - **`nullability`**` := "?"` - Optional nullability indicator (defaults to non-nullable)
@@ -430,7 +430,7 @@ User-defined types extend the standard Substrait UDT syntax to support anchors a
 
 - Adds optional `anchor` and `urn_anchor` for extension references
 - The `u!` prefix is accepted in type declarations but normalized at storage time, so `u!json` and `json` in a declaration refer to the same type. It is an error to use `u!` on function or type-variation declarations.
-- In plan references both `u!json` and `json` are accepted and resolve to the same anchor. The canonical output always uses the bare name.
+- In plan references both `u!json` and `json` are accepted and resolve to the same anchor. The canonical output uses the bare name, unless it is also the name of a built-in type (e.g. `u!date`): without the prefix, that name always means the built-in type.
 
 #### Examples
 
diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..23b3c7d 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -361,6 +361,38 @@ impl<'a> Textify for Parameters<'a> {
     }
 }
 
+/// Whether text would read the name of a user-defined type as that of a built-in type.
+fn is_built_in_type(name: &str) -> bool {
+    const SIMPLE: [&str; 15] = [
+        "boolean",
+        "i8",
+        "i16",
+        "i32",
+        "i64",
+        "fp32",
+        "fp64",
+        "string",
+        "binary",
+        "timestamp_tz",
+        "timestamp",
+        "date",
+        "time",
+        "interval_year",
+        "uuid",
+    ];
+    // The names of compound types are case-insensitive.
+    const COMPOUND: [&str; 7] = [
+        "list",
+        "map",
+        "struct",
+        "precisiontimestamptz",
+        "precisiontimestamp",
+        "precisiontime",
+        "interval_day",
+    ];
+    SIMPLE.contains(&name) || COMPOUND.iter().any(|c| c.eq_ignore_ascii_case(name))
+}
+
 impl Textify for ptype::UserDefined {
     fn name() -> &'static str {
         "UserDefined"
@@ -378,9 +410,15 @@ impl Textify for ptype::UserDefined {
                 .collect();
             let params = Parameters(&param_vec);
 
+            // The prefix is left out unless it tells the type from a built-in one.
+            let prefix = match &name_and_anchor.name.0 {
+                Ok(name) if is_built_in_type(name.base()) => "u!",
+                _ => "",
+            };
+
             write!(
                 w,
-                "{name_and_anchor}{null}{var}{params}",
+                "{prefix}{name_and_anchor}{null}{var}{params}",
                 name_and_anchor = ctx.display(&name_and_anchor),
                 null = ctx.display(&self.nullability()),
                 var = ctx.display(&TypeVariation(self.type_variation_reference)),
-- 
2.43.0

