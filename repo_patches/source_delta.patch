From 55c812c586bf536ac3580162a747d08ee3f3d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 01/16] fix: parsing an empty text no longer underflows the
 error position

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..0ba3be4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,7 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From e6ea107ed21797e580f485a3cc331a61836b2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 02/16] fix: a second '!' is not taken for a binary operator

---
 src/token/operator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/token/operator.rs b/src/token/operator.rs
index e7a4d90..b0d7390 100644
--- a/src/token/operator.rs
+++ b/src/token/operator.rs
@@ -23,12 +23,11 @@ pub enum Operator {
 impl TryFrom<u8> for Operator {
     type Error = &'static str;
 
-    /// Attempts to convert a byte value into an [`Operator`].
+    /// Attempts to convert a byte value into a binary [`Operator`].
     /// Returns an error if the byte value does not correspond to a valid operator.
     /// Valid operators are: '+', '-', '*', '/', '^', '%'.
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value {
-            b'!' => Ok(Self::Factorial),
             b'+' => Ok(Self::Plus),
             b'-' => Ok(Self::Minus),
             b'*' => Ok(Self::Times),
-- 
2.43.0


From 65641089895448d91b068531752fca36b3fb7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 03/16] fix: operations on two numbers fold to what evaluating
 them gives

---
 src/element/simplify.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..6a664b8 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,24 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -217,24 +235,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From 02c663a816263810471b58b9742ce7dd038a6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 04/16] fix: 'x % 1' is not always 0

---
 src/element/simplify.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 6a664b8..8a3ba86 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -225,10 +225,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
-- 
2.43.0


From 0e6ef6d3a42fee88e1434e0d1ef571e217e61530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 05/16] fix: '0 ^ x' is 1 when x is 0

---
 src/element/simplify.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 8a3ba86..1ba3a17 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -198,8 +198,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
             BinOp {
                 op: Divide, rhs, ..
-- 
2.43.0


From afba2d3600d2191c6ad2599132fe30297b88b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 06/16] fix: substitution reports the variables that are left

---
 src/xprs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..9351f40 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -144,7 +144,13 @@ impl Xprs<'_> {
         let mut tmp = trust_me!(ptr::read(&self.root));
         tmp = tmp.simplify_for(var);
         trust_me!(ptr::write(&mut self.root, tmp););
-        self.vars.remove(var.0);
+        self.update_vars();
+    }
+
+    /// Recomputes the set of variables, simplification may have removed some.
+    fn update_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -221,9 +227,9 @@ impl Xprs<'_> {
         let mut tmp = trust_me!(ptr::read(&self.root));
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
         trust_me!(ptr::write(&mut self.root, tmp););
+        self.update_vars();
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 7d9d91207e9f6fba118a187a497b18d6fb0e2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 07/16] fix: a panicking function no longer frees a simplified
 expression twice

---
 src/xprs.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 9351f40..4de0dc5 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::fmt;
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -141,9 +138,8 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        // on a copy, user defined functions may panic
+        self.root = self.root.clone().simplify_for(var);
         self.update_vars();
     }
 
@@ -223,12 +219,12 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // rewriting `simplify_for_in_place` to avoid dozens of copies
+        let mut tmp = self.root.clone();
         for &var in vars {
             tmp = tmp.simplify_for(var);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
         self.update_vars();
     }
 
-- 
2.43.0


From ac9362152ffea85943ab2a5513ea9ce3d5ce7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 08/16] fix: binding reports more than 255 missing variables

---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 4de0dc5..7309073 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -749,7 +749,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From 3ff3880906fe6b45baf6b4ae85b8f58972df7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 09/16] fix: displayed expressions keep their order of
 operations

---
 src/element/binop.rs |  9 ++++++++-
 src/element/mod.rs   | 15 +++++++++++++++
 src/element/unop.rs  |  6 ++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..cfedcb0 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,7 +32,14 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        write!(fmt, "(")?;
+        // `-2 ^ x` would read as `-(2 ^ x)`
+        if self.op == Operator::Power {
+            self.lhs.fmt_tight(fmt)?;
+        } else {
+            write!(fmt, "{}", self.lhs)?;
+        }
+        write!(fmt, " {} {})", self.op, self.rhs)
     }
 }
 
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5ac64c3..35913f7 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -72,6 +72,21 @@ impl<'a> From<FunctionCall<'a>> for Element<'a> {
 }
 
 impl<'a> Element<'a> {
+    /// Displays the element as an operand of an operator
+    /// that binds tighter than the sign of a negative number.
+    fn fmt_tight(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match *self {
+            Self::Number(num) if num.is_sign_negative() => {
+                write!(fmt, "({num})")
+            },
+            Self::Number(_)
+            | Self::BinOp(_)
+            | Self::UnOp(_)
+            | Self::Function(_)
+            | Self::Variable(_) => write!(fmt, "{self}"),
+        }
+    }
+
     /// Finds variables in the element and adds them to the provided set.
     pub(crate) fn find_variables(&self, vars: &mut HashSet<&'a str>) {
         match *self {
diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..13506ed 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,12 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        if self.op == Operator::Factorial {
+            write!(fmt, "(")?;
+            // `-2!` would read as `-(2!)`
+            self.operand.fmt_tight(fmt)?;
+            return write!(fmt, "{})", self.op);
+        }
         write!(fmt, "({}{})", self.op, self.operand)
     }
 }
-- 
2.43.0


From bef25b30cb7d723f4418802975393601ff92b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 10/16] fix: parse errors quote non-ASCII characters

---
 src/parser.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ba3be4..58d73f8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -139,8 +139,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
         let root = parser_impl.element(precedence::NO_PRECEDENCE)?;
 
-        if let Some(&tok) = parser_impl.next_trim() {
-            yeet!(ParseError::new_unexpected_token(&parser_impl, tok));
+        if parser_impl.next_trim().is_some() {
+            yeet!(ParseError::new_unexpected_token(&parser_impl));
         }
 
         // TODO: find a better way to get variables
@@ -215,9 +215,9 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
                 el
             },
             /* Errors */
-            b')' => yeet!(ParseError::new_unexpected_token(self, b')')),
-            tok => {
-                yeet!(ParseError::new_illegal_character(self, tok));
+            b')' => yeet!(ParseError::new_unexpected_token(self)),
+            _ => {
+                yeet!(ParseError::new_illegal_character(self));
             },
         };
 
@@ -322,8 +322,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             match self.next_trim() {
                 Some(&b',') => self.cursor += 1,
                 Some(&b')') => break,
-                Some(&tok) => {
-                    yeet!(ParseError::new_unexpected_token(self, tok))
+                Some(_) => {
+                    yeet!(ParseError::new_unexpected_token(self))
                 },
                 None => {
                     yeet!(ParseError::new_unexpected_end_of_expression(self))
@@ -386,6 +386,20 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor)
     }
 
+    /// Returns the current character, to be quoted in an error.
+    /// The cursor only moves over ASCII characters,
+    /// it's always at the start of a character.
+    #[cold]
+    fn current_char(&self) -> char {
+        trust_me!(
+            #[allow(clippy::indexing_slicing)]
+            str::from_utf8_unchecked(&self.input[self.cursor..])
+        )
+        .chars()
+        .next()
+        .unwrap_or_default()
+    }
+
     /// Returns the current character after trimming whitespaces.
     fn next_trim(&mut self) -> Option<&u8> {
         self.skip_while(u8::is_ascii_whitespace);
@@ -573,9 +587,9 @@ impl ParseError {
 
     /// Creates a new [`ParseError`] for an unexpected token.
     #[cold]
-    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
+    fn new_unexpected_token(parser: &ParserImpl) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.current_char()),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -594,9 +608,9 @@ impl ParseError {
 
     /// Creates a new [`ParseError`] for an illegal character.
     #[cold]
-    fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
+    fn new_illegal_character(parser: &ParserImpl) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.current_char()),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From f3d64b91ccd9d5963238159e49a1cb7cc1861ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 11/16] fix: a missing argument is only reported where it is
 missing

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58d73f8..8927922 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -335,13 +335,16 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
     /// Parses a single argument in a function call.
     fn argument(&mut self) -> Result<Element<'input>, ParseError> {
+        let _: Option<&u8> = self.next_trim();
+        let start = self.cursor;
         self.element(precedence::NO_PRECEDENCE).map_err(
             #[cold]
             |err| match err.kind {
-                ErrorKind::UnexpectedToken(_) => {
+                ErrorKind::UnexpectedToken(_) if self.cursor == start => {
                     ParseError::new_missing_argument(self)
                 },
-                ErrorKind::UnexpectedEndOfExpression
+                ErrorKind::UnexpectedToken(_)
+                | ErrorKind::UnexpectedEndOfExpression
                 | ErrorKind::ExpectedToken(_)
                 | ErrorKind::MalformedNumber(_)
                 | ErrorKind::IllegalCharacter(_)
-- 
2.43.0


From 066f2667f6d1ed3cdcfa5296653f4b6c270adab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 12/16] fix: names starting with an upper-case letter are
 multiplied implicitly

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8927922..ae93ee4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -444,7 +444,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if previous atom isn't a number
             b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
-- 
2.43.0


From 015c3b4f2ec66132e24cd1d1f656b9953c19b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 13/16] fix: what is accepted does not depend on optimizations

---
 src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae93ee4..4a0030f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,6 +143,9 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             yeet!(ParseError::new_unexpected_token(&parser_impl));
         }
 
+        #[cfg(feature = "compile-time-optimizations")]
+        let root = root.simplify();
+
         // TODO: find a better way to get variables
         // don't like the fact that we go through the whole tree
         // to find variables
@@ -177,11 +180,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             el = BinOp::new_element(op, el, rhs);
         }
 
-        #[cfg(feature = "compile-time-optimizations")]
-        {
-            el = el.simplify();
-        };
-
         Ok(el)
     }
 
-- 
2.43.0


From 41c8a3b1053294d557f8200517b50bc972819420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 14/16] fix: a digit after a number is an error after any
 operator

---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4a0030f..8685698 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,6 +118,8 @@ struct ParserImpl<'input, 'ctx> {
     cursor: usize,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
+    /// Whether the last atom is a number.
+    after_number: bool,
 }
 
 impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
@@ -127,6 +129,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             input: input.as_bytes(),
             cursor: 0,
             ctx,
+            after_number: false,
         }
     }
 
@@ -170,11 +173,12 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         // Right-associative unary operators
         if self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
+            self.after_number = false;
         }
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -219,6 +223,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             },
         };
 
+        self.after_number = matches!(atom, Element::Number(_));
+
         Ok(atom)
     }
 
@@ -420,7 +426,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -447,7 +452,7 @@ impl ParserImpl<'_, '_> {
             },
             // if it's a number implicit multiplication is
             // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            b'0'..=b'9' if !self.after_number => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
-- 
2.43.0


From 8c5dc05a8ad46471a77c4287899d24349bf216d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 15/16] fix: the REPL ends at the end of its input

---
 src/bin/repl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..dbf4e56 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0


From 356cae893b407624e7e4563c1630116bb07d05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 16/16] fix: the REPL no longer panics on variable values that
 are not numbers

A value that does not parse, or input that ends while values are being
asked for, made the REPL panic. It now asks again for the former and ends
the session for the latter.
---
 src/bin/repl.rs | 51 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index dbf4e56..2411e6f 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -1,7 +1,6 @@
 /* Clippy config */
 //! XPRS REPL
 #![allow(
-    clippy::expect_used,
     clippy::print_stdout,
     clippy::unreachable,
     clippy::use_debug
@@ -34,7 +33,9 @@ fn main() -> Result<(), Box<dyn Error>> {
                     println!("Interpreted as: {ast}");
                     println!("{ast:#?}");
                     println!("Variables: {:?}", ast.vars);
-                    let variables = ask_for_variables(&ast.vars);
+                    let Some(variables) = ask_for_variables(&ast.vars)? else {
+                        break;
+                    };
                     println!(
                         "Evaluated: {:#?}",
                         ast.eval(&variables).unwrap_or_else(|_| unreachable!())
@@ -50,26 +51,36 @@ fn main() -> Result<(), Box<dyn Error>> {
     Ok(())
 }
 
-/// Ask the user for the value of the variables in the given set.
-fn ask_for_variables<'a>(set: &'a HashSet<&str>) -> HashMap<&'a str, f64> {
+/// Ask the user for the value of the variables in the given set,
+/// until each is a number.
+///
+/// Gives [`None`] when the input ends before all of them are known.
+fn ask_for_variables<'a>(
+    set: &HashSet<&'a str>,
+) -> io::Result<Option<HashMap<&'a str, f64>>> {
     if !set.is_empty() {
         println!("Please enter the following variables:");
     }
 
-    set.iter().fold(HashMap::new(), |mut acc, var| {
-        print!("{var}: ");
-        io::stdout().lock().flush().expect("Failed to flush stdout");
-        let mut input = String::new();
-        io::stdin()
-            .read_line(&mut input)
-            .expect("Failed to read line");
-        acc.insert(
-            var,
-            input
-                .trim()
-                .parse()
-                .expect("Failed to parse input as a number"),
-        );
-        acc
-    })
+    let mut variables = HashMap::new();
+    let mut input = String::new();
+    for &var in set {
+        loop {
+            print!("{var}: ");
+            io::stdout().lock().flush()?;
+            input.clear();
+            if io::stdin().read_line(&mut input)? == 0 {
+                return Ok(None);
+            }
+            match input.trim().parse() {
+                Ok(value) => {
+                    variables.insert(var, value);
+                    break;
+                },
+                Err(err) => println!("{err}"),
+            }
+        }
+    }
+
+    Ok(Some(variables))
 }
-- 
2.43.0

