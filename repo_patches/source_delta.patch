From 1e4b5298fa720bb1f6a1aa76d34bfe2e89fb44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:17 +0000
Subject: [PATCH 1/7] fix: keep all digits of the integer operand for integer
 text above 2^53

PluralOperands::try_from("9007199254740993") had i = 9007199254740992, so the
last digit, and with it the category in many locales, was wrong.
---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..75abca6 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // Going through f64 would lose digits above 2^53.
+            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From b646f06fce1d1c4bc60d6071f6d1abda81e61c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:17 +0000
Subject: [PATCH 2/7] fix: refuse text with a doubled sign

Only one sign was stripped before parsing, so "--5" was accepted with n = -5
and i = 0. Parse the whole text instead and take the absolute value.
---
 intl_pluralrules/src/operands.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 75abca6..8a9362a 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -80,7 +80,9 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             &input
         };
 
-        let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
+        let absolute_value = f64::from_str(input)
+            .map_err(|_| "Incorrect number passed!")?
+            .abs();
 
         let integer_digits;
         let num_fraction_digits0;
-- 
2.43.0


From d6a286eead4e6841bbdf03bdcc2db65b9347be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:17 +0000
Subject: [PATCH 3/7] fix: do not truncate i64 input to 32 bits on 32-bit
 targets

Every signed integer went through isize, which silently wraps i64 values
there; i64 holds the values of all signed integer types.
---
 intl_pluralrules/src/operands.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 8a9362a..75a1487 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -50,7 +50,6 @@
 //! ```
 #![cfg_attr(feature = "cargo-clippy", allow(clippy::cast_lossless))]
 use std::convert::TryFrom;
-use std::isize;
 use std::str::FromStr;
 
 /// A full plural operands representation of a number. See [CLDR Plural Rules](https://unicode.org/reports/tr35/tr35-numbers.html#Language_Plural_Rules) for complete operands description.
@@ -150,8 +149,7 @@ macro_rules! impl_signed_integer_type {
         impl TryFrom<$ty> for PluralOperands {
             type Error = &'static str;
             fn try_from(input: $ty) -> Result<Self, Self::Error> {
-                // XXXManishearth converting from i64 to isize may wrap
-                let x = (input as isize).checked_abs().ok_or("Number too big")?;
+                let x = (input as i64).checked_abs().ok_or("Number too big")?;
                 Ok(PluralOperands {
                     n: x as f64,
                     i: x as u64,
-- 
2.43.0


From d6d5e5151b6f282a37978b06526bb1ee3e3b4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:55 +0000
Subject: [PATCH 4/7] fix: reject a relation without any value

"n = " parsed successfully into a relation with an empty range list.
---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..b633c02 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0


From 4e138ad393789c7d4753b0c1900a56f907d980e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:55 +0000
Subject: [PATCH 5/7] fix: do not cut a condition short at text that does not
 parse

parse_plural_condition("n = 1 or x = 2") returned the condition "n = 1".
---
 cldr_pluralrules_parser/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/lib.rs b/cldr_pluralrules_parser/src/lib.rs
index c75f236..4e9661f 100644
--- a/cldr_pluralrules_parser/src/lib.rs
+++ b/cldr_pluralrules_parser/src/lib.rs
@@ -87,7 +87,9 @@ pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String>
 
 pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
     match parser::parse_condition(source.as_ref()) {
-        Ok((_, rule)) => Ok(rule),
+        // Samples may follow the condition; they are not part of it.
+        Ok((left, rule)) if left.trim().is_empty() || left.trim().starts_with('@') => Ok(rule),
+        Ok((left, _)) => Err(format!("Left string: {}", left)),
         _ => Err("Parser failed".to_string()),
     }
 }
-- 
2.43.0


From 42056ce24f5ccf5d78faf683dc2c5e5c1b073d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:55 +0000
Subject: [PATCH 6/7] fix: keep the samples of a rule without a condition

Everything from the first '@' on was discarded unparsed, so such rules (every
"other" rule) had no samples and any text after '@' was accepted.
---
 cldr_pluralrules_parser/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index b633c02..6ae3ea1 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -179,7 +179,7 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     }
 
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i.trim_start(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 469d89144837ce6b7e263cff459ffd691a30d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:13 +0000
Subject: [PATCH 7/7] fix: use the relation's own operand in a within relation
 with a modulus

"f % 10 within 1..2" generated a test of po.i instead of po.f.
---
 make_pluralrules/src/parser/gen_pr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..9c36312 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -101,7 +101,7 @@ fn create_relation(rel: Relation) -> TokenStream {
                 if !mod_check {
                     quote!(po.#l)
                 } else {
-                    quote!(po.i % #m)
+                    quote!(po.#l % #m)
                 },
             )
         };
-- 
2.43.0

