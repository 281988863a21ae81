From de4951370547ce4ffd3b38c6091b7c2a579e8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 01/52] fix: combining `volatile` with `volatile` must stay
 `volatile`

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..ebcd204 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -345,7 +345,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From 90c412b1e6f7fdeac2bc7651a55529424a7a6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 02/52] fix: report a macro as redefined when only the length
 of its body or parameter list changed

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..afdb9be 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -768,7 +768,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -814,11 +814,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From 6389dd7ce80040e4f3eb9fa046f5d63f35dec08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 03/52] fix: do not panic when a variadic macro is called with
 too few arguments

---
 src/macro_set/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index afdb9be..df8db0b 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -539,6 +539,13 @@ impl MacroSet {
           })
         }
       }
+    } else if let Some(args) = args {
+      // Every named parameter needs an argument, only the variable arguments may be omitted.
+      let required = arg_names.len() - 1;
+
+      if args.len() < required {
+        return Err(ExpansionError::FnMacroArgumentError { name: name.to_owned(), required, given: args.len() })
+      }
     }
 
     // Parameter names must be unique.
-- 
2.43.0


From e941ae59247fd93432ac236b4573d4db06786815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 04/52] fix: index of `__VA_ARGS__` must not count comments in
 the parameter list

---
 src/macro_set/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index df8db0b..943b9cf 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -234,7 +234,10 @@ impl<'t> Token<'t> {
   pub fn detokenize(self, arg_names: &[Token<'t>]) -> Result<Option<MacroToken<'t>>, ExpansionError> {
     Ok(Some(match self {
       Self::MacroArg(arg_index) => MacroToken::Arg(MacroArg { index: arg_index }),
-      Self::VarArgs => MacroToken::Arg(MacroArg { index: arg_names.len() - 1 }),
+      // Comments between parameter names are not counted, same as for named arguments.
+      Self::VarArgs => MacroToken::Arg(MacroArg {
+        index: arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).count() - 1,
+      }),
       Self::Identifier(id) => MacroToken::Identifier(id),
       Self::IdentifierContinue(id_cont) => MacroToken::IdentifierContinue(id_cont),
       Self::Literal(lit, _) => MacroToken::Lit(lit),
-- 
2.43.0


From daab0c420f2dacc4a42f1c8495e3f30519b2e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 05/52] fix: do not panic when a comment separates `##` from a
 macro argument

---
 src/macro_set/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 943b9cf..fb42d07 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -724,8 +724,13 @@ impl MacroSet {
     while let Some(token) = it.next() {
       match token {
         Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
+          if !matches!(
+            tokens.iter().rfind(|t| !matches!(t, Token::Comment(_))),
+            Some(&Token::MacroArg(_) | &Token::VarArgs)
+          ) && !matches!(
+            it.clone().find(|t| !matches!(t, Token::Comment(_))),
+            Some(Token::MacroArg(_) | Token::VarArgs)
+          ) =>
         {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
-- 
2.43.0


From 1c3befd9df79e15bf87fb8ec0b345a1c9919ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 06/52] fix: do not panic when a prefix is concatenated with an
 unrepresentable literal

---
 src/macro_set/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index fb42d07..9590cb9 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -292,10 +292,11 @@ impl<'t> Token<'t> {
             if matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") =>
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
-              Cow::Owned(lhs.id.into_owned()),
-            ))
+            return match Lit::try_from(lhs.id.as_ref()).map(|lit| lit.into_static()) {
+              Ok(lit) => Ok(Self::Literal(lit, Cow::Owned(lhs.id.into_owned()))),
+              // Not every literal is representable with every prefix, e.g. `u8"\xff"`.
+              Err(_) => Err(ExpansionError::InvalidConcat),
+            }
           },
           // Strings cannot be prefixed with anything else.
           Lit::String(_) | Lit::Char(_) => (),
-- 
2.43.0


From a78e3b66b0f6240536b80640620b6d04a32c90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 07/52] fix: keep the order of operands when stringifying macro
 arguments together with other tokens

---
 src/macro_set/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9590cb9..5e232bb 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -347,6 +347,11 @@ impl<'t> Token<'t> {
 }
 
 fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
+  fn string_literal<'t>(s: String) -> Token<'t> {
+    let repr = format!("{s:?}");
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(repr))
+  }
+
   let it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
@@ -357,6 +362,15 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   for token in it {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
+        // Keep the order of tokens, i.e. everything before this token must be in front of it.
+        tokens.extend(current_string.take().map(|mut s: String| {
+          if space_before_next {
+            s.push(' ');
+          }
+          string_literal(s)
+        }));
+        space_before_next = true;
+
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
         continue
@@ -377,9 +391,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
-  }));
+  tokens.extend(current_string.take().map(string_literal));
 
   if tokens.is_empty() {
     return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
-- 
2.43.0


From e2440a87a4f9e17222b5f2ab20af73a5dee4869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 08/52] fix: do not macro-expand arguments which are operands
 of `##`

---
 src/macro_set/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5e232bb..01f120a 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -702,9 +702,8 @@ impl MacroSet {
               tokens.pop();
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
+            // Operands of `##` are not macro-expanded.
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -712,8 +711,6 @@ impl MacroSet {
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-- 
2.43.0


From 64ab1975364f099da6cdad21ae97b3c285f6bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 09/52] fix: reject multiple empty arguments for a macro
 without parameters

---
 src/macro_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 01f120a..80ec963 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -546,7 +546,7 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty() && args.len() <= 1 && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
-- 
2.43.0


From 29b58a3df7906be39c1e6e0109e39b8080c6c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 10/52] fix: do not treat `#` and `##` in macro arguments as
 operators

---
 src/macro_set/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 80ec963..c125a58 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -697,6 +697,14 @@ impl MacroSet {
             var_args
           };
 
+          // Only a `#` or `##` in the macro body itself is an operator.
+          let non_operators = |arg: Vec<Token<'t>>| {
+            arg.into_iter().map(|t| match t {
+              Token::Punctuation(Punctuation { punctuation: "#" | "##" }) => Token::NonReplacable(Box::new(t)),
+              t => t,
+            })
+          };
+
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
@@ -707,17 +715,17 @@ impl MacroSet {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                tokens.extend(non_operators(arg));
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                tokens.extend(non_operators(arg));
               }
             },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+            _ => tokens.extend(non_operators(self.expand_macro_body(non_replaced_names.clone(), &arg)?)),
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From 684790785477d643face2aef391281f97f24f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 11/52] fix: concatenation with an empty argument must not make
 a token available for replacement again

---
 src/macro_set/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index c125a58..ab245cc 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -251,10 +251,10 @@ impl<'t> Token<'t> {
 
   pub fn concat(self, other: Self) -> Result<Self, ExpansionError> {
     let new_token = match (self, other) {
-      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
-      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (Self::Placemarker, rhs) => return Ok(rhs),
       (lhs, Self::Placemarker) => return Ok(lhs),
+      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
+      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (
         Self::Identifier(mut lhs),
         Self::Identifier(Identifier { id: rhs }) | Self::IdentifierContinue(IdentifierContinue { id_cont: rhs }),
-- 
2.43.0


From 7f4cb31c6fb0ed145988e6c9d4fb5694f8f4ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 12/52] fix: do not rescan tokens preceding an expanded macro

---
 src/macro_set/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index ab245cc..43a5a13 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -475,9 +475,10 @@ impl MacroSet {
                     Some(&args),
                     &body,
                   )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
+                  // Rescan the expansion along with all following tokens, but not the preceding tokens.
+                  let rest = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>();
+                  tokens.extend(self.expand_macro_body(non_replaced_names, &rest)?);
+                  return Ok(tokens)
                 }
               }
             }
@@ -485,9 +486,11 @@ impl MacroSet {
             // If it's not a macro call, check if it is a variable-like macro.
             if let Some(body) = self.var_macros.get(id.id.as_ref()) {
               let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
+              let expanded_tokens = self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?;
+              // Rescan the expansion along with all following tokens, but not the preceding tokens.
+              let rest = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>();
+              tokens.extend(self.expand_macro_body(non_replaced_names, &rest)?);
+              return Ok(tokens)
             }
 
             tokens.push(token)
-- 
2.43.0


From eda5bd040dc1c4c00a6cb3d4a37a8347d78870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 13/52] fix: variable arguments passed to a stringifying macro
 must not be turned into the string `__VA_ARGS__`

---
 src/macro_set/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 43a5a13..b06165e 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -209,14 +209,7 @@ impl<'t> Token<'t> {
     use StringifyAction::*;
 
     match self {
-      Self::MacroArg(_) => Keep,
-      Self::VarArgs => {
-        if nested {
-          Keep
-        } else {
-          Append("__VA_ARGS__")
-        }
-      },
+      Self::MacroArg(_) | Self::VarArgs => Keep,
       Self::Identifier(id) => match id.id.as_ref() {
         "__LINE__" | "__FILE__" if nested => Keep,
         t => Append(t),
-- 
2.43.0


From 50a8f1d8500e7b76c8bbdfb7a6795f53fee08fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 14/52] fix: do not panic on division by zero in constant
 expressions

---
 src/ast/expr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..bf67286 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -589,11 +589,12 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          // Division by zero cannot be calculated.
+          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs % *rhs));
             self.finish(ctx)
           },
-- 
2.43.0


From 1d82f129fc61aeff01fa2d0d6ceefae20637d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 15/52] fix: hexadecimal escape sequences may have any number
 of digits

---
 src/ast/literal.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..58b5218 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -8,7 +8,7 @@ use nom::{
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -157,12 +157,14 @@ where
     ),
     preceded(
       tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      map_opt(
+        // A hexadecimal escape sequence has no length limit.
+        fold_many1(
+          map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc.and_then(|acc| acc.checked_mul(16)?.checked_add(n)),
+        ),
+        |value| value,
       ),
     ),
   ))(input)
-- 
2.43.0


From 24671a1318aca45de447aca0d98572d27f2b6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 16/52] fix: encode universal characters in string literals as
 UTF-8 or UTF-16

---
 src/ast/literal/string.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..6c6cd79 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, universal_char};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,16 +72,12 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
-              let mut s = [0; 4];
-              Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
-            } else {
-              None
-            }
+          // Universal characters are encoded as UTF-8, all other escape sequences are a single byte.
+          map_opt(preceded(char('\\'), universal_char), |c| {
+            let mut s = [0; 4];
+            Some(Cow::Owned(char::from_u32(c)?.encode_utf8(&mut s).as_bytes().to_vec()))
           }),
+          map_opt(escaped_char, |c| Some(Cow::Owned(vec![u8::try_from(c).ok()?]))),
           map(is_not("\\\"\n"), |b: &str| Cow::Borrowed(b.as_bytes())),
         )),
         || Cow::Borrowed(&[] as &[u8]),
@@ -127,16 +123,12 @@ impl<'t> LitString<'t> {
         char('\"'),
         fold_many0(
           alt((
-            map_opt(escaped_char, |c| {
-              if let Ok(c) = u16::try_from(c) {
-                Some(Part::Vec(vec![c]))
-              } else if let Ok(c) = char::try_from(c) {
-                let mut s = [0; 2];
-                Some(Part::Vec(c.encode_utf16(&mut s).to_vec()))
-              } else {
-                None
-              }
+            // Universal characters are encoded as UTF-16, all other escape sequences are a single code unit.
+            map_opt(preceded(char('\\'), universal_char), |c| {
+              let mut s = [0; 2];
+              Some(Part::Vec(char::from_u32(c)?.encode_utf16(&mut s).to_vec()))
             }),
+            map_opt(escaped_char, |c| Some(Part::Vec(vec![u16::try_from(c).ok()?]))),
             map(is_not("\\\"\n"), |s: &str| Part::String(Cow::Borrowed(s))),
           )),
           || Part::String(Cow::Borrowed("")),
-- 
2.43.0


From f4084ce3abd784fe98a010e36c90e86057cf3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 17/52] fix: do not panic when stringifying variable arguments

---
 src/ast/stringify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..c0197e0 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -67,8 +67,13 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = Ident::new(ctx.arg_name(arg.index()), Span::call_site());
-        Some(quote! { $#id })
+        Some(match ctx.arg_name(arg.index()) {
+          "..." => quote! { $($__VA_ARGS__),* },
+          name => {
+            let id = Ident::new(name, Span::call_site());
+            quote! { $#id }
+          },
+        })
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
         "__LINE__" => {
-- 
2.43.0


From 39337a8b3fff0ee3cd4b14139cc30ff1bc3efcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 18/52] fix: do not generate unary `+`, which does not exist in
 Rust

---
 src/ast/unary_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..ddfe669 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -209,7 +209,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
+      // There is no unary `+` in Rust.
+      UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-- 
2.43.0


From bd5c386bb5e5a3d5e457cf14133d79f262000778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 19/52] fix: convert an integer to the type of the
 floating-point operand instead of always to `float`

---
 src/ast/binary_expr.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..35aaaac 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -223,20 +223,20 @@ impl<'t> BinaryExpr<'t> {
 
     // Cast mixed float and int expression.
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
+      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(float))) => {
+        let f = match float {
+          LitFloat::Float(_) => LitFloat::Float(*lhs as f32),
+          LitFloat::Double(_) => LitFloat::Double(*lhs as f64),
+          LitFloat::LongDouble(_) => LitFloat::LongDouble(*lhs as f64),
         };
         self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
         lhs_ty = self.lhs.finish(ctx)?;
       },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
+      (Expr::Literal(Lit::Float(float)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
+        let f = match float {
+          LitFloat::Float(_) => LitFloat::Float(*rhs as f32),
+          LitFloat::Double(_) => LitFloat::Double(*rhs as f64),
+          LitFloat::LongDouble(_) => LitFloat::LongDouble(*rhs as f64),
         };
         self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
         rhs_ty = self.rhs.finish(ctx)?;
-- 
2.43.0


From 5f6e15b6892cc7dd220b43628d9b4274524590d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 20/52] fix: quote casts followed by `<`, which would be parsed
 as type parameters

---
 src/ast/binary_expr.rs | 15 ++++++++++++---
 src/ast/expr.rs        |  9 +++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 35aaaac..de9cfbd 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -187,6 +187,15 @@ impl<'t> BinaryExpr<'t> {
     self.op.precedence()
   }
 
+  /// Check if the generated code for this expression ends with a type.
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    let (prec, _) = self.precedence();
+    let (rhs_prec, _) = self.rhs.precedence();
+
+    // Otherwise the right side is quoted.
+    rhs_prec < prec && !self.op.is_assignment() && self.rhs.ends_with_cast()
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
@@ -299,9 +308,9 @@ impl<'t> BinaryExpr<'t> {
       (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
     };
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a cast at the end of the left side is quoted when shifting
+    // left or comparing to avoid ambiguous type parameter errors.
+    if matches!(op, BinaryOp::Shl | BinaryOp::Lt) && self.lhs.ends_with_cast() {
       lhs_parens = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index bf67286..dd28eea 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -43,6 +43,15 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if the generated code for this expression ends with a type.
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    match self {
+      Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Binary(expr) => expr.ends_with_cast(),
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
-- 
2.43.0


From f46d7ac3c12181eea0a2ca955e751c359d25acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 21/52] fix: generate a block for all compound assignment
 operators

---
 src/ast/binary_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index de9cfbd..7e03e9e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -318,6 +318,11 @@ impl<'t> BinaryExpr<'t> {
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-- 
2.43.0


From 614ed4407eee0b3bf34c8cf7db272f5920b78522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 22/52] fix: use the correct operator for compound assignments
 through volatile pointers

---
 src/ast/binary_expr.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 7e03e9e..a6a4453 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -109,6 +109,23 @@ impl BinaryOp {
     }
   }
 
+  /// Get the operator which is applied by a compound assignment operator.
+  pub(crate) const fn compound_op(&self) -> Option<Self> {
+    Some(match self {
+      Self::AddAssign => Self::Add,
+      Self::SubAssign => Self::Sub,
+      Self::MulAssign => Self::Mul,
+      Self::DivAssign => Self::Div,
+      Self::RemAssign => Self::Rem,
+      Self::ShlAssign => Self::Shl,
+      Self::ShrAssign => Self::Shr,
+      Self::BitAndAssign => Self::BitAnd,
+      Self::BitXorAssign => Self::BitXor,
+      Self::BitOrAssign => Self::BitOr,
+      _ => return None,
+    })
+  }
+
   pub(crate) const fn is_assignment(&self) -> bool {
     matches!(
       self,
@@ -331,11 +348,15 @@ impl<'t> BinaryExpr<'t> {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.compound_op() {
+                if rhs_prec >= op.precedence().0 {
+                  rhs = quote! { (#rhs) };
+                }
+
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 6e9f81110bce7eb7d614dace6692e74ffe707171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 23/52] fix: parse `(arg) * expr` as a binary operation with
 the correct precedence

---
 src/ast/expr.rs | 49 ++++++++++++++-----------------------------------
 1 file changed, 14 insertions(+), 35 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index dd28eea..2062b5d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt::Debug};
 
 use nom::{
   branch::alt,
-  combinator::{map, map_res, value},
+  combinator::{map, map_res, not, value},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -157,9 +157,21 @@ impl<'t> Expr<'t> {
     )(tokens)
   }
 
+  /// Parse the type of a cast, e.g. `(int)`.
+  fn parse_cast_ty<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+    let (tokens, ty) = parenthesized(Type::parse)(tokens)?;
+
+    // Arguments cannot be resolved as a type, so `(arg) * expr` is a binary operation and not a cast.
+    if matches!(ty, Type::Identifier { name: IdentifierExpr::Arg(_) | IdentifierExpr::Concat(_), is_struct: false }) {
+      not(preceded(meta, alt((punct("+"), punct("-"), punct("*"), punct("&")))))(tokens)?;
+    }
+
+    Ok((tokens, ty))
+  }
+
   fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
-      map(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
+      map(pair(Self::parse_cast_ty, Self::parse_term_prec2), |(ty, term)| {
         Self::Cast(Cast { ty, expr: Box::new(term) })
       }),
       map(
@@ -408,39 +420,6 @@ impl<'t> Expr<'t> {
           },
         };
 
-        // Handle ambiguous cast vs. binary operation, e.g. `(ty)&var` vs `(var1) & var2`.
-        if let (Self::Unary(expr), Type::Identifier { name, is_struct: false }) = (&*cast.expr, &cast.ty) {
-          let treat_as_binop = match name {
-            IdentifierExpr::Arg(_) => {
-              // Arguments cannot be resolved as a type.
-              true
-            },
-            IdentifierExpr::Plain(name) => {
-              // Cannot resolve type.
-              ctx.resolve_ty(name.as_str()).is_none()
-            },
-            IdentifierExpr::Concat(_) => true,
-          };
-
-          if treat_as_binop {
-            let op = match expr.op {
-              UnaryOp::Plus => Some(BinaryOp::Add),
-              UnaryOp::Minus => Some(BinaryOp::Sub),
-              UnaryOp::Deref => Some(BinaryOp::Mul),
-              UnaryOp::AddrOf => Some(BinaryOp::BitAnd),
-              _ => None,
-            };
-
-            if let Some(op) = op {
-              let lhs = name.clone();
-              let rhs = expr.expr.clone();
-
-              *self = Self::Binary(BinaryExpr { lhs: Box::new(Expr::Var(Var { name: lhs })), op, rhs });
-              return self.finish(ctx)
-            }
-          }
-        }
-
         // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
         if matches!(
           (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), Type::Qualified { ty, qualifier })
-- 
2.43.0


From 9474bc9624c640fa35e599d86a174d8651e30eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 24/52] fix: do not parse an octal literal with invalid digits
 as a decimal literal

---
 src/ast/literal/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index dd632a2..4d385e8 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -7,7 +7,7 @@ use std::{
 use nom::{
   branch::alt,
   bytes::complete::{is_a, tag, tag_no_case},
-  character::complete::{digit1, hex_digit1, oct_digit1},
+  character::complete::{digit1, hex_digit1, oct_digit0},
   combinator::{all_consuming, eof, map, map_opt, opt, value},
   sequence::{pair, preceded},
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice,
@@ -121,7 +121,7 @@ impl LitInt {
     let digits = alt((
       map_opt(preceded(tag_no_case("0x"), hex_digit1), Self::parse_i128(16)),
       map_opt(preceded(tag_no_case("0b"), is_a("01")), Self::parse_i128(2)),
-      map_opt(preceded(tag("0"), oct_digit1), Self::parse_i128(8)),
+      map_opt(preceded(tag("0"), oct_digit0), Self::parse_i128(8)),
       map_opt(digit1, Self::parse_i128(10)),
     ));
 
-- 
2.43.0


From b064d0a9de47ad5c3ced2bbd3e6f6b1d2d407bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 25/52] fix: identifiers may contain universal characters at
 any position

---
 src/ast/identifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..1307207 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -44,10 +44,10 @@ impl<'t> Identifier<'t> {
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
       map(
-        recognize(pair(
+        all_consuming(recognize(pair(
           satisfy(is_identifier_start),
           fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
-        )),
+        ))),
         |s| Self { id: Cow::Borrowed(s) },
       ),
       |token| {
@@ -104,7 +104,7 @@ impl<'t> IdentifierContinue<'t> {
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
-      map(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())), |s| Self {
+      map(all_consuming(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()))), |s| Self {
         id_cont: Cow::Borrowed(s),
       }),
       |token| {
-- 
2.43.0


From 7a65b354df602ddc3314f6bae0e9f915ede9012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 26/52] fix: `\\X` is not a hexadecimal escape sequence

---
 src/ast/literal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index 58b5218..c5d645f 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, ops::RangeFrom, str};
 
 use nom::{
   branch::alt,
-  bytes::complete::tag_no_case,
   character::{
     complete::{anychar, char, none_of, one_of},
     is_hex_digit, is_oct_digit,
@@ -156,7 +155,7 @@ where
       |acc, n| acc * 8 + n,
     ),
     preceded(
-      tag_no_case("x"),
+      char('x'),
       map_opt(
         // A hexadecimal escape sequence has no length limit.
         fold_many1(
-- 
2.43.0


From 557b0aae42f77b593826f123a113d72792b2ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 27/52] fix: decode characters of an ordinary string
 concatenated with a wide string

---
 src/ast/literal/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 6c6cd79..c510d69 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -311,7 +311,10 @@ impl<'t> LitString<'t> {
               opt(id("L")),
               map_opt(take_one, |token| match token {
                 MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
+                  Some(Cow::Owned(match str::from_utf8(bytes.as_ref()) {
+                    Ok(s) => s.chars().map(u32::from).collect::<Vec<_>>(),
+                    Err(_) => bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>(),
+                  }))
                 },
                 _ => None,
               }),
-- 
2.43.0


From adbfb3aea456a92cc0cef56058ac13ee05b89d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 28/52] fix: comments between an operator and its parameter do
 not change its operand

---
 src/macro_set/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index b06165e..1326802 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -205,6 +205,10 @@ impl<'t> Token<'t> {
     }
   }
 
+  fn is_comment(&self) -> bool {
+    matches!(self, Self::Comment(_))
+  }
+
   pub fn stringify(&self, nested: bool) -> StringifyAction<'_> {
     use StringifyAction::*;
 
@@ -666,12 +670,12 @@ impl MacroSet {
   where
     's: 't,
   {
-    let mut it = tokens.iter().cloned().peekable();
+    let mut it = tokens.iter().cloned();
     let mut tokens = vec![];
 
     while let Some(token) = it.next() {
       match token {
-        Token::Punctuation(ref p) if p == "#" => match it.peek() {
+        Token::Punctuation(ref p) if p == "#" => match it.clone().find(|t| !t.is_comment()) {
           Some(Token::MacroArg(_) | Token::VarArgs) => {
             tokens.push(token.clone());
           },
@@ -701,9 +705,13 @@ impl MacroSet {
             })
           };
 
-          match tokens.last() {
+          // Ignore comments between an operator and its operand.
+          let last = tokens.iter().rposition(|t: &Token<'_>| !t.is_comment());
+          let next = it.clone().find(|t| !t.is_comment());
+
+          match last.map(|i| &tokens[i]) {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
-              tokens.pop();
+              tokens.truncate(last.unwrap_or(0));
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             // Operands of `##` are not macro-expanded.
@@ -714,7 +722,7 @@ impl MacroSet {
                 tokens.extend(non_operators(arg));
               }
             },
-            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
+            _ if next == Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-- 
2.43.0


From e693823876c29299c09977df7bdcd20f8fd0f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 29/52] fix: an argument consisting only of comments is empty

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 1326802..c0c5ac5 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -546,7 +546,7 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.len() <= 1 && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty() && args.len() <= 1 && args.first().map(|arg| arg.iter().all(|t| t.is_comment())).unwrap_or(true))
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
@@ -716,14 +716,14 @@ impl MacroSet {
             },
             // Operands of `##` are not macro-expanded.
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              if arg.is_empty() {
+              if arg.iter().all(|t| t.is_comment()) {
                 tokens.push(Token::Placemarker);
               } else {
                 tokens.extend(non_operators(arg));
               }
             },
             _ if next == Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              if arg.is_empty() {
+              if arg.iter().all(|t| t.is_comment()) {
                 tokens.push(Token::Placemarker);
               } else {
                 tokens.extend(non_operators(arg));
-- 
2.43.0


From b5d5eaa1251aed20460e19c10c8788dae15bab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 30/52] fix: spell stringified arguments as C string literals

---
 src/macro_set/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index c0c5ac5..86a346f 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -345,7 +345,8 @@ impl<'t> Token<'t> {
 
 fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   fn string_literal<'t>(s: String) -> Token<'t> {
-    let repr = format!("{s:?}");
+    // Spell the literal as in C, e.g. `\u{1}` is not a C escape sequence.
+    let repr = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
     Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(repr))
   }
 
-- 
2.43.0


From 45784830d207a01bd81b419098e7dc9aff3e1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 31/52] fix: a type must be parsed completely

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ebcd204..6d023b9 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,7 +2,7 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
+  combinator::{all_consuming, map, opt, value},
   multi::fold_many0,
   sequence::{pair, preceded, terminated, tuple},
   IResult,
@@ -591,7 +591,7 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) = all_consuming(Type::parse)(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From 38b9fae94bc73689c9c7ceb36b000a3c423d0df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 32/52] fix: quote an incremented pointer with lower precedence
 than the call to its add or sub method

---
 src/ast/unary_expr.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index ddfe669..d4c48f2 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -241,11 +241,17 @@ impl<'t> UnaryExpr<'t> {
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
 
+            let ptr = if expr.precedence().0 > 1 {
+              quote! { (#raw_expr) }
+            } else {
+              quote! { #raw_expr }
+            };
+
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
+              UnaryOp::Inc => return quote! { *{ #raw_expr = #ptr.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #raw_expr = #ptr.sub(1); #raw_expr } },
+              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #ptr.add(1); prev } },
+              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #ptr.sub(1); prev } },
               _ => (),
             }
           },
-- 
2.43.0


From 31ae85c3af095dbb037d2e4d64ff0e6834c0a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 33/52] fix: quote blocks at the beginning of an expression so
 that they are not taken for statements

---
 src/ast/binary_expr.rs |  5 +++++
 src/ast/cast.rs        |  4 +++-
 src/ast/expr.rs        | 12 ++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index a6a4453..4ad24f6 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -331,6 +331,11 @@ impl<'t> BinaryExpr<'t> {
       lhs_parens = true;
     }
 
+    // Ensure that a block on the left side is not taken for a statement.
+    if self.lhs.is_block() && op != BinaryOp::MemberAccess {
+      lhs_parens = true;
+    }
+
     match self.op {
       BinaryOp::Assign
       | BinaryOp::AddAssign
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index cada6d2..fd5c40f 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -52,6 +52,8 @@ impl<'t> Cast<'t> {
         } else {
           let (prec, _) = self.precedence();
           let (expr_prec, _) = expr.precedence();
+          // Ensure that a block is not taken for a statement.
+          let block = expr.is_block();
 
           let expr = match expr {
             // When casting a negative integer, we need to generate it with a suffix, since
@@ -85,7 +87,7 @@ impl<'t> Cast<'t> {
             },
             _ => {
               let mut expr = expr.to_token_stream(ctx);
-              if expr_prec > prec {
+              if expr_prec > prec || block {
                 expr = quote! { (#expr) };
               }
               expr
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2062b5d..63408f4 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -52,6 +52,18 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if the generated code for this expression is a block, which
+  /// is a statement of its own at the beginning of a function body.
+  pub(crate) fn is_block(&self) -> bool {
+    match self {
+      Self::Cast(cast) => cast.ty.is_void(),
+      Self::Unary(expr) => matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+      Self::Binary(expr) => expr.op.is_assignment(),
+      Self::Ternary(_) => true,
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
-- 
2.43.0


From 70e54351c04111ed08d351b8e4bbae021d7527a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 34/52] fix: generate a logical not of anything but a boolean
 as a comparison with zero

---
 src/ast/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 63408f4..d4ea9d6 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -515,7 +515,8 @@ impl<'t> Expr<'t> {
         }
       },
       Self::Unary(op) => {
-        let ty = op.finish(ctx)?;
+        // The generated code for a logical not depends on the type of the operand.
+        let ty = if op.op == UnaryOp::Not { op.expr.finish(ctx)? } else { op.finish(ctx)? };
 
         match (op.op, &*op.expr) {
           (UnaryOp::Plus, expr @ Self::Literal(Lit::Int(_)) | expr @ Self::Literal(Lit::Float(_))) => {
@@ -540,6 +541,7 @@ impl<'t> Expr<'t> {
           },
           (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -550,6 +552,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
@@ -563,6 +566,8 @@ impl<'t> Expr<'t> {
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
+
+            return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
-- 
2.43.0


From 9350eedfd881737b882e43f7f3f17b3b7bddd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 35/52] fix: allow comments after a cast, after sizeof and at
 the end of a macro body

---
 src/ast/expr.rs   | 4 ++--
 src/macro_body.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index d4ea9d6..52fbcf8 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -88,7 +88,7 @@ impl<'t> Expr<'t> {
 
   fn parse_factor<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
-      map(preceded(keyword("sizeof"), parenthesized(Type::parse)), Self::SizeOf),
+      map(preceded(pair(keyword("sizeof"), meta), parenthesized(Type::parse)), Self::SizeOf),
       map(LitChar::parse, |c| Self::Literal(Lit::Char(c))),
       Self::parse_concat_string,
       map(Lit::parse, Self::Literal),
@@ -183,7 +183,7 @@ impl<'t> Expr<'t> {
 
   fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
-      map(pair(Self::parse_cast_ty, Self::parse_term_prec2), |(ty, term)| {
+      map(pair(terminated(Self::parse_cast_ty, meta), Self::parse_term_prec2), |(ty, term)| {
         Self::Cast(Cast { ty, expr: Box::new(term) })
       }),
       map(
diff --git a/src/macro_body.rs b/src/macro_body.rs
index 0b92656..233d895 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -3,6 +3,7 @@ use std::fmt::Debug;
 use nom::{
   branch::alt,
   combinator::{all_consuming, map},
+  sequence::terminated,
   IResult,
 };
 
@@ -45,8 +46,8 @@ impl<'t> MacroBody<'t> {
     }
 
     let (tokens, body) = alt((
-      all_consuming(map(Expr::parse, Self::Expr)),
-      all_consuming(map(Statement::parse, Self::Statement)),
+      all_consuming(map(terminated(Expr::parse, meta), Self::Expr)),
+      all_consuming(map(terminated(Statement::parse, meta), Self::Statement)),
     ))(tokens)?;
 
     Ok((tokens, body))
-- 
2.43.0


From 25979d7dd24e98460f82b6d08357887c9ba35691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 36/52] fix: quote blocks with a unary plus at the beginning of
 an expression

---
 src/ast/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 52fbcf8..eac26b9 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -57,7 +57,12 @@ impl<'t> Expr<'t> {
   pub(crate) fn is_block(&self) -> bool {
     match self {
       Self::Cast(cast) => cast.ty.is_void(),
-      Self::Unary(expr) => matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+      Self::Unary(expr) => match expr.op {
+        UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => true,
+        // There is no unary `+` in Rust.
+        UnaryOp::Plus => expr.expr.is_block(),
+        _ => false,
+      },
       Self::Binary(expr) => expr.op.is_assignment(),
       Self::Ternary(_) => true,
       _ => false,
-- 
2.43.0


From 913dfdd9bf4e86d657b0cb3ffd67d5455b7c2fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 37/52] fix: quote strings at the beginning of an expression

Strings are generated as a block, which is taken for a statement of its
own at the beginning of a function body.
---
 src/ast/expr.rs | 3 +++
 src/ast/var.rs  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index eac26b9..74fca73 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -56,6 +56,9 @@ impl<'t> Expr<'t> {
   /// is a statement of its own at the beginning of a function body.
   pub(crate) fn is_block(&self) -> bool {
     match self {
+      Self::Var(var) => var.is_block(),
+      // Strings are generated as a block containing a constant.
+      Self::Literal(Lit::String(_)) | Self::Stringify(_) | Self::ConcatString(_) => true,
       Self::Cast(cast) => cast.ty.is_void(),
       Self::Unary(expr) => match expr.op {
         UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => true,
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..41016cc 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -16,6 +16,11 @@ pub struct Var<'t> {
 }
 
 impl<'t> Var<'t> {
+  /// Check if the generated code for this variable is a block.
+  pub(crate) fn is_block(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__FILE__")
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From a0f857f17ea74c1b48047c967ba3cac4021c48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 38/52] fix: quote `__LINE__` like the cast it is generated as

---
 src/ast/expr.rs |  6 ++++--
 src/ast/var.rs  | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 74fca73..3d53520 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -30,9 +30,10 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
-      Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
+      Self::Literal(_) => (0, Associativity::None),
+      Self::Var(var) => var.precedence(),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
       Self::Cast(cast) => cast.precedence(),
@@ -47,6 +48,7 @@ impl<'t> Expr<'t> {
   pub(crate) fn ends_with_cast(&self) -> bool {
     match self {
       Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Var(var) => var.is_cast(),
       Self::Binary(expr) => expr.ends_with_cast(),
       _ => false,
     }
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 41016cc..ccf5ae0 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, IdentifierExpr, Type, TypeQualifier};
+use super::{Associativity, BuiltInType, IdentifierExpr, Type, TypeQualifier};
 
 /// A variable.
 ///
@@ -16,6 +16,19 @@ pub struct Var<'t> {
 }
 
 impl<'t> Var<'t> {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
+    if self.is_cast() {
+      (3, Associativity::Left) // Same as `Cast`.
+    } else {
+      (0, Associativity::None)
+    }
+  }
+
+  /// Check if the generated code for this variable is a cast.
+  pub(crate) fn is_cast(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__LINE__")
+  }
+
   /// Check if the generated code for this variable is a block.
   pub(crate) fn is_block(&self) -> bool {
     matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__FILE__")
-- 
2.43.0


From 469f61b0fd348f5185f4104ca116d43154a4802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 39/52] fix: do not recurse for every expanded macro

Expanding a body which uses a few thousand macros overflowed the stack.
---
 src/macro_set/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 86a346f..6799df7 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -452,7 +452,7 @@ impl MacroSet {
     's: 't,
   {
     let mut tokens = vec![];
-    let mut it = body.iter().cloned().peekable();
+    let mut it = body.to_vec().into_iter().peekable();
 
     while let Some(token) = it.next() {
       match token {
@@ -474,9 +474,8 @@ impl MacroSet {
                     &body,
                   )?;
                   // Rescan the expansion along with all following tokens, but not the preceding tokens.
-                  let rest = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>();
-                  tokens.extend(self.expand_macro_body(non_replaced_names, &rest)?);
-                  return Ok(tokens)
+                  it = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>().into_iter().peekable();
+                  continue
                 }
               }
             }
@@ -486,9 +485,8 @@ impl MacroSet {
               let body = tokenize(&[], body);
               let expanded_tokens = self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?;
               // Rescan the expansion along with all following tokens, but not the preceding tokens.
-              let rest = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>();
-              tokens.extend(self.expand_macro_body(non_replaced_names, &rest)?);
-              return Ok(tokens)
+              it = expanded_tokens.into_iter().chain(it).collect::<Vec<_>>().into_iter().peekable();
+              continue
             }
 
             tokens.push(token)
-- 
2.43.0


From b9e4198e04d1458e4afdac824dfb57ef2648b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 40/52] fix: do not rescan calls whose parentheses are the
 result of an expansion

Macros which call each other with a parenthesis coming from another macro
were expanded infinitely.
---
 src/macro_set/mod.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 6799df7..b70e7cc 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -518,7 +518,9 @@ impl MacroSet {
 
     non_replaced_names.insert(name);
 
-    self.expand_macro_body(non_replaced_names, &body)
+    let mut tokens = self.expand_macro_body(non_replaced_names, &body)?;
+    self.exclude_calls(&mut tokens);
+    Ok(tokens)
   }
 
   fn expand_fn_macro_body<'s, 't, 'n>(
@@ -592,7 +594,24 @@ impl MacroSet {
 
     non_replaced_names.insert(name);
 
-    self.expand_macro_body(non_replaced_names, &body)
+    let mut tokens = self.expand_macro_body(non_replaced_names, &body)?;
+    self.exclude_calls(&mut tokens);
+    Ok(tokens)
+  }
+
+  /// Exclude calls in expanded tokens from being expanded when the tokens are rescanned.
+  ///
+  /// These were no calls when the tokens were scanned, since their parentheses are the result of another expansion.
+  fn exclude_calls(&self, tokens: &mut [Token<'_>]) {
+    for i in 0..tokens.len() {
+      if let Token::Identifier(id) = &tokens[i] {
+        if self.fn_macros.contains_key(id.id.as_ref())
+          && self.collect_args(&mut tokens[(i + 1)..].iter().cloned()).is_ok()
+        {
+          tokens[i] = Token::NonReplacable(Box::new(tokens[i].clone()));
+        }
+      }
+    }
   }
 
   fn collect_args<'s, 't, I>(&'s self, it: &mut I) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
-- 
2.43.0


From 883eeaf08670fee1963fde56d9268bd39cbd4707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 41/52] fix: separate adjacent stringified parameters by a
 space

---
 src/macro_set/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index b70e7cc..d0fe6da 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -361,12 +361,10 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
         // Keep the order of tokens, i.e. everything before this token must be in front of it.
-        tokens.extend(current_string.take().map(|mut s: String| {
-          if space_before_next {
-            s.push(' ');
-          }
-          string_literal(s)
-        }));
+        if space_before_next {
+          current_string.get_or_insert(String::new()).push(' ');
+        }
+        tokens.extend(current_string.take().map(string_literal));
         space_before_next = true;
 
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
-- 
2.43.0


From 715e5e38e93b4de8a00c6f6faa932baaf4a2156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 42/52] fix: wide string units above i32::MAX were literals
 which are out of range for a 32-bit wchar_t

---
 src/ast/literal/string.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index c510d69..5610e4c 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -65,6 +65,16 @@ pub enum LitString<'t> {
   Wide(Vec<u32>),
 }
 
+/// A literal for one unit of a wide string.
+fn wchar_literal(c: u32) -> proc_macro2::Literal {
+  // An unsuffixed literal takes the type it is cast to, which may be an `i32`.
+  if c <= i32::MAX as u32 {
+    proc_macro2::Literal::u32_unsuffixed(c)
+  } else {
+    proc_macro2::Literal::u32_suffixed(c)
+  }
+}
+
 impl<'t> LitString<'t> {
   /// Parse
   fn parse_ordinary(input: &str) -> IResult<&str, Cow<'_, [u8]>> {
@@ -474,8 +484,7 @@ impl<'t> LitString<'t> {
         }
       },
       Self::Wide(s) => {
-        let wchars =
-          s.iter().cloned().chain(iter::once(0)).map(proc_macro2::Literal::u32_unsuffixed).collect::<Vec<_>>();
+        let wchars = s.iter().cloned().chain(iter::once(0)).map(wchar_literal).collect::<Vec<_>>();
 
         let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
           Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
-- 
2.43.0


From 600c9d49087b016c55b62dc52aa6c9e66f1d97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 43/52] fix: honor the Rust target for the lifetime of every
 string constant, also in functions

---
 src/ast/literal/string.rs |  8 ++++----
 src/context.rs            | 12 ++++++++++--
 src/var_macro.rs          | 19 -------------------
 3 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 5610e4c..43e7442 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -428,7 +428,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -448,7 +448,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -468,7 +468,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -494,7 +494,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
diff --git a/src/context.rs b/src/context.rs
index 06d43ec..c81b9ea 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,3 +1,5 @@
+use semver::{Version, VersionReq};
+
 use super::*;
 
 /// Type of a macro argument.
@@ -34,13 +36,19 @@ where
   C: CodegenContext,
 {
   pub fn new(cx: &'g C) -> Self {
+    let rust_version = cx.rust_target().and_then(|v| Version::parse(&v).ok());
+    let supports = |req| {
+      let req = VersionReq::parse(req).unwrap();
+      rust_version.as_ref().map(|version| req.matches(version)).unwrap_or(true)
+    };
+
     Self {
       arg_names: Default::default(),
       arg_types: Default::default(),
       export_as_macro: false,
       global_context: cx,
-      generate_cstr: true,
-      static_lifetime_elision: true,
+      generate_cstr: supports(">=1.59"),
+      static_lifetime_elision: supports(">=1.17"),
       is_variable_macro: false,
     }
   }
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..9048887 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, str};
 
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
-use semver::{Version, VersionReq};
 
 use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
 
@@ -54,24 +53,6 @@ impl<'t> VarMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-    ctx.static_lifetime_elision = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.17").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
-    ctx.generate_cstr = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.59").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-- 
2.43.0


From 3b244d9add8c92b9f9992939e8ff6ccc0c83082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 44/52] fix: a do-while statement may end with a semicolon and
 have comments around while

---
 src/ast/statement.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..7dd889b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -70,9 +70,13 @@ impl<'t> Statement<'t> {
           else_branch: else_branch.unwrap_or_default(),
         },
       ),
-      map(preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))), |(block, condition)| {
-        Self::DoWhile { block, condition }
-      }),
+      map(
+        terminated(
+          preceded(terminated(id("do"), meta), pair(block, preceded(delimited(meta, id("while"), meta), condition))),
+          opt(punct(";")),
+        ),
+        |(block, condition)| Self::DoWhile { block, condition },
+      ),
       map(
         delimited(
           terminated(punct("{"), meta),
-- 
2.43.0


From 9adb9fa265a8877bad78ce504480160c8220c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 45/52] fix: comments between the parts of a statement

---
 src/ast/statement.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 7dd889b..86d1c44 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -52,9 +52,13 @@ pub enum Statement<'t> {
 impl<'t> Statement<'t> {
   fn parse_single<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let condition = |input| parenthesized(Expr::parse)(input);
-    let block =
-      |input| map(Self::parse_single, |stmt| if let Self::Block(stmts) = stmt { stmts } else { vec![stmt] })(input);
-    let semicolon_or_eof = |input| alt((value((), punct(";")), value((), eof)))(input);
+    let block = |input| {
+      map(
+        preceded(meta, Self::parse_single),
+        |stmt| if let Self::Block(stmts) = stmt { stmts } else { vec![stmt] },
+      )(input)
+    };
+    let semicolon_or_eof = |input| preceded(meta, alt((value((), punct(";")), value((), eof))))(input);
 
     alt((
       map(terminated(Asm::parse, semicolon_or_eof), Self::Asm),
@@ -73,7 +77,7 @@ impl<'t> Statement<'t> {
       map(
         terminated(
           preceded(terminated(id("do"), meta), pair(block, preceded(delimited(meta, id("while"), meta), condition))),
-          opt(punct(";")),
+          opt(preceded(meta, punct(";"))),
         ),
         |(block, condition)| Self::DoWhile { block, condition },
       ),
-- 
2.43.0


From b78db1c9a0554fe3c3f117546883d0149cb58754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 46/52] fix: empty statements

---
 src/ast/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 86d1c44..04b18d3 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -89,6 +89,7 @@ impl<'t> Statement<'t> {
         ),
         Self::Block,
       ),
+      map(punct(";"), |_| Self::Block(vec![])),
       map(terminated(FunctionDecl::parse, semicolon_or_eof), Self::FunctionDecl),
       map(terminated(VarDecl::parse, semicolon_or_eof), Self::VarDecl),
       map(terminated(Expr::parse, semicolon_or_eof), Self::Expr),
-- 
2.43.0


From b3032a5b0805f5916fb02ab9d140f750cf8a3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:43 +0000
Subject: [PATCH 47/52] fix: a declared function without result returned c_void

---
 src/ast/function_decl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..803e778 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -69,11 +69,16 @@ impl<'t> FunctionDecl<'t> {
         quote! { #arg: #ty }
       })
       .collect::<Vec<_>>();
-    let ret_ty = self.ret_ty.to_token_stream(ctx);
+    let ret_ty = if self.ret_ty.is_void() {
+      None
+    } else {
+      let ret_ty = self.ret_ty.to_token_stream(ctx);
+      Some(quote! { -> #ret_ty })
+    };
 
     tokens.append_all(quote! {
       extern "C" {
-        pub fn #name(#(#args),*) -> #ret_ty;
+        pub fn #name(#(#args),*) #ret_ty;
       }
     })
   }
-- 
2.43.0


From 0a6395b9bdcc1c1ffd38a1138326c500f9dd8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 48/52] fix: macros which increment or point to a parameter are
 no functions

---
 src/ast/binary_expr.rs | 2 +-
 src/ast/expr.rs        | 9 +++++++++
 src/ast/unary_expr.rs  | 9 +++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 4ad24f6..be6237d 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -243,7 +243,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Must export as a macro in order to be able to assign to a macro argument.
-    if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
+    if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3d53520..194344e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -382,6 +382,15 @@ impl<'t> Expr<'t> {
     Self::parse_term_prec14(tokens)
   }
 
+  /// Check if this is a macro argument or a member of one.
+  pub(crate) fn is_arg_place(&self) -> bool {
+    match self {
+      Self::Var(Var { name: IdentifierExpr::Arg(_) }) => true,
+      Self::Binary(BinaryExpr { op: BinaryOp::MemberAccess, lhs, .. }) => lhs.is_arg_place(),
+      _ => false,
+    }
+  }
+
   pub(crate) fn finish_condition<C>(
     &mut self,
     ctx: &mut LocalContext<'_, 't, C>,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index d4c48f2..8744ccf 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,15 @@ impl<'t> UnaryExpr<'t> {
   {
     let ty = self.expr.finish(ctx)?;
 
+    // Must export as a macro in order to be able to change or point to a macro argument.
+    if matches!(
+      self.op,
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf
+    ) && self.expr.is_arg_place()
+    {
+      ctx.export_as_macro = true;
+    }
+
     match self.op {
       UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
-- 
2.43.0


From 63f5900856f725a3766db94185139798fc23cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 49/52] fix: comments in declarations

---
 src/ast/function_decl.rs | 14 ++++++++++----
 src/ast/var_decl.rs      | 10 +++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 803e778..bc0c9cb 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -4,7 +4,7 @@ use nom::{
   branch::permutation,
   combinator::opt,
   multi::separated_list0,
-  sequence::{pair, tuple},
+  sequence::{pair, preceded, tuple},
   IResult,
 };
 use proc_macro2::TokenStream;
@@ -32,9 +32,15 @@ impl<'t> FunctionDecl<'t> {
   /// Parse a function declaration.
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, ((_, ret_ty), name, args)) = tuple((
-      permutation((opt(id("static")), Type::parse)),
-      IdentifierExpr::parse_concat_ident,
-      parenthesized(separated_list0(pair(meta, punct(",")), pair(Type::parse, IdentifierExpr::parse_concat_ident))),
+      permutation((opt(id("static")), preceded(meta, Type::parse))),
+      preceded(meta, IdentifierExpr::parse_concat_ident),
+      preceded(
+        meta,
+        parenthesized(separated_list0(
+          tuple((meta, punct(","), meta)),
+          pair(Type::parse, preceded(meta, IdentifierExpr::parse_concat_ident)),
+        )),
+      ),
     ))(tokens)?;
 
     Ok((tokens, Self { ret_ty, name, args }))
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..f1486cb 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use nom::{branch::permutation, combinator::opt, sequence::tuple, IResult};
+use nom::{branch::permutation, combinator::opt, sequence::{preceded, tuple}, IResult};
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
@@ -25,10 +25,10 @@ impl<'t> VarDecl<'t> {
   /// Parse a variable declaration.
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, ((static_storage, ty), name, _, rhs)) = tuple((
-      permutation((opt(id("static")), Type::parse)),
-      IdentifierExpr::parse_concat_ident,
-      punct("="),
-      Expr::parse,
+      permutation((opt(id("static")), preceded(meta, Type::parse))),
+      preceded(meta, IdentifierExpr::parse_concat_ident),
+      preceded(meta, punct("=")),
+      preceded(meta, Expr::parse),
     ))(tokens)?;
 
     Ok((tokens, Self { ty, name, rhs, is_static: static_storage.is_some() }))
-- 
2.43.0


From e3aacc59aed89a366617427f5411e2391ec5a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 50/52] fix: parameters as declared names

---
 src/ast/function_decl.rs | 8 +++++++-
 src/ast/var_decl.rs      | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index bc0c9cb..d086442 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -51,13 +51,19 @@ impl<'t> FunctionDecl<'t> {
     C: CodegenContext,
   {
     self.ret_ty.finish(ctx)?;
+    self.name.finish(ctx)?;
 
     if let IdentifierExpr::Arg(arg) = &self.name {
       *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
     }
 
-    for (ty, _arg) in self.args.iter_mut() {
+    for (ty, arg) in self.args.iter_mut() {
       ty.finish(ctx)?;
+      arg.finish(ctx)?;
+
+      if let IdentifierExpr::Arg(arg) = arg {
+        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      }
     }
 
     // A declaration has no type.
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1486cb..c20e775 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A variable declaration.
 ///
@@ -40,6 +40,11 @@ impl<'t> VarDecl<'t> {
   {
     self.ty.finish(ctx)?;
     self.name.finish(ctx)?;
+
+    if let IdentifierExpr::Arg(arg) = &self.name {
+      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+    }
+
     self.rhs.finish(ctx)?;
 
     Ok(None)
-- 
2.43.0


From 325f82e3b622a494840751ebaf22e15005ded84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 51/52] fix: parameters as types

---
 src/ast/cast.rs      | 2 +-
 src/ast/stringify.rs | 2 +-
 src/ast/ty.rs        | 9 ++++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index fd5c40f..7641b18 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -28,8 +28,8 @@ impl<'t> Cast<'t> {
   where
     C: CodegenContext,
   {
-    self.ty.finish(ctx)?;
     self.expr.finish(ctx)?;
+    self.ty.finish(ctx)?;
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index c0197e0..a05a6c7 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -44,7 +44,7 @@ impl<'t> Stringify<'t> {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
         let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
+        if matches!(arg_ty, MacroArgType::Known(_) | MacroArgType::Unknown) {
           *arg_ty = MacroArgType::Expr;
         }
       },
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6d023b9..492c180 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A built-in type.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -434,6 +434,13 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
+        if let IdentifierExpr::Arg(arg) = name {
+          let arg_type = ctx.arg_type_mut(arg.index());
+          if *arg_type != MacroArgType::Ident {
+            *arg_type = MacroArgType::Ty;
+          }
+        }
+
         if let IdentifierExpr::Plain(ref id) = name {
           if let Some(ty) = ctx.resolve_ty(id.as_str()) {
             *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
-- 
2.43.0


From f398172be9d4307340a8cc643e15e9ab4b8ba8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 52/52] fix: parameters passed to functions with different
 parameter types

---
 src/ast/function_call.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..6025954 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -81,6 +81,19 @@ impl<'t> FunctionCall<'t> {
     Ok(ty)
   }
 
+  /// Check if the given macro argument has a different type than the parameter it is passed to.
+  fn is_converted<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>, index: usize, arg: &MacroArg) -> bool {
+    if let (IdentifierExpr::Plain(name), MacroArgType::Known(arg_type)) = (&self.name, ctx.arg_type(arg.index())) {
+      if let Some((known_args, _)) = ctx.function(name.as_str()) {
+        if let Some(known_arg_type) = known_args.get(index) {
+          return Type::from_rust_ty(known_arg_type, ctx.ffi_prefix().as_ref()).map_or(false, |ty| ty != *arg_type)
+        }
+      }
+    }
+
+    false
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let (name, args_into) = match &self.name {
       IdentifierExpr::Plain(ref name) if name.as_str() == "__builtin_offsetof" && self.args.len() == 2 => {
@@ -90,7 +103,7 @@ impl<'t> FunctionCall<'t> {
       name => (name.to_token_stream(ctx), true),
     };
 
-    let args = self.args.iter().map(|arg| match arg {
+    let args = self.args.iter().enumerate().map(|(index, arg)| match arg {
       // Calling `.into()` on a null-pointer doesn't work.
       arg @ Expr::Cast(Cast { ty, expr })
         if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>
@@ -107,8 +120,10 @@ impl<'t> FunctionCall<'t> {
         quote! { #arg }
       },
       // Exporting as a function means we inferred the types of the macro arguments,
-      // so no `.into()` is needed in this case.
-      arg @ Expr::Var(Var { name: IdentifierExpr::Arg(_) }) if !ctx.export_as_macro => {
+      // so no `.into()` is needed in this case unless the type was inferred elsewhere.
+      arg @ Expr::Var(Var { name: IdentifierExpr::Arg(arg2) })
+        if !ctx.export_as_macro && !self.is_converted(ctx, index, arg2) =>
+      {
         let arg = arg.to_token_stream(ctx);
         quote! { #arg }
       },
-- 
2.43.0

