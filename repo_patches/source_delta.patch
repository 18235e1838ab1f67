From 491ced65dadd2cfeb0f7b677ca50abe475e8e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 01/46] fix: report a number literal that does not fit 32 bits
 instead of panicking

---
 src/lexer.rs | 85 +++++++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..9b1668d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -311,26 +311,29 @@ fn clean_str(string: &str) -> String {
 
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: fn(&str) -> Option<TokenType>,
 }
 
 impl Matcher {
-    pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
+    pub fn new(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
             convert: convert,
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// The outer `Option` tells whether the text matches, the inner
+    /// one whether the matched text is a valid token.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
                 let convert = &self.convert;
-                let token_type = convert(capture);
-                let new_input = input.update(capture.len());
-                let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(convert(capture).map(|token_type| {
+                    let new_input = input.update(capture.len());
+                    let span = Span::new(input.location(), new_input.location());
+                    (new_input, Token::new(token_type, span))
+                }))
             }
             None => None,
         }
@@ -398,24 +401,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -443,32 +446,32 @@ fn read_token<'a>(
 
             vec![
                 Matcher::new(&macro_ident, |text| {
-                    TokenType::MacroIdent(text.to_lowercase())
+                    Some(TokenType::MacroIdent(text.to_lowercase()))
                 }),
                 Matcher::new(&macro_label, |text| {
-                    TokenType::MacroLabel(text.to_lowercase())
+                    Some(TokenType::MacroLabel(text.to_lowercase()))
                 }),
-                Matcher::new(r"\(", |_| TokenType::LeftParen),
-                Matcher::new(r"\)", |_| TokenType::RightParen),
-                Matcher::new("#", |_| TokenType::Hash),
-                Matcher::new(",", |_| TokenType::Comma),
-                Matcher::new("::", |_| TokenType::DoubleColon),
-                Matcher::new(":", |_| TokenType::Colon),
-                Matcher::new("=", |_| TokenType::Equals),
-                Matcher::new(r"\+", |_| TokenType::Plus),
-                Matcher::new(r"\*", |_| TokenType::Times),
-                Matcher::new("-", |_| TokenType::Minus),
-                Matcher::new("/", |_| TokenType::Divide),
-                Matcher::new("\\&", |_| TokenType::Ampersand),
-                Matcher::new("\\|", |_| TokenType::Pipe),
-                Matcher::new("\\^", |_| TokenType::Caret),
-                Matcher::new(">", |_| TokenType::UpperByte),
-                Matcher::new("<", |_| TokenType::LowerByte),
+                Matcher::new(r"\(", |_| Some(TokenType::LeftParen)),
+                Matcher::new(r"\)", |_| Some(TokenType::RightParen)),
+                Matcher::new("#", |_| Some(TokenType::Hash)),
+                Matcher::new(",", |_| Some(TokenType::Comma)),
+                Matcher::new("::", |_| Some(TokenType::DoubleColon)),
+                Matcher::new(":", |_| Some(TokenType::Colon)),
+                Matcher::new("=", |_| Some(TokenType::Equals)),
+                Matcher::new(r"\+", |_| Some(TokenType::Plus)),
+                Matcher::new(r"\*", |_| Some(TokenType::Times)),
+                Matcher::new("-", |_| Some(TokenType::Minus)),
+                Matcher::new("/", |_| Some(TokenType::Divide)),
+                Matcher::new("\\&", |_| Some(TokenType::Ampersand)),
+                Matcher::new("\\|", |_| Some(TokenType::Pipe)),
+                Matcher::new("\\^", |_| Some(TokenType::Caret)),
+                Matcher::new(">", |_| Some(TokenType::UpperByte)),
+                Matcher::new("<", |_| Some(TokenType::LowerByte)),
                 Matcher::new(r#""(\\.|[^"\\])*""#, |text| {
-                    TokenType::String(clean_str(text))
+                    Some(TokenType::String(clean_str(text)))
                 }),
-                Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
-                Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
+                Matcher::new("@[rR][0123]", |text| Some(to_indr_mode(text))),
+                Matcher::new(ident, |text| Some(TokenType::Name(text.to_lowercase()))),
                 Matcher::new(hex_num, |text| to_hex_num(text, 1)),
                 Matcher::new(oct_num, |text| to_oct_num(text)),
                 Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
@@ -486,7 +489,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(matched) => return matched,
             }
         }
         None
-- 
2.43.0


From b823869df83d4630dc2d1773e4bc1e6857ceb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 02/46] fix: advance past a token that is followed by a
 combining mark

---
 src/input.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..86cf836 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -91,6 +91,12 @@ impl<'b> Input<'b> {
             match graphemes.next() {
                 Some(text) => {
                     if (input.pos - start) + text.len() > num_bytes {
+                        // The advance ends inside of a grapheme
+                        // (e.g. before a combining mark).
+                        if input.pos - start < num_bytes {
+                            input.pos = start + num_bytes;
+                            input.column += 1;
+                        }
                         break;
                     }
                     input.pos += text.len();
-- 
2.43.0


From 8ee7eaefbcd28a8724c0ead1fa055d7dedbb7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 03/46] fix: do not panic when showing an error in a one-byte
 file

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..2c19a66 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1184,8 +1184,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From bb00f840e5ca075c42333ceb3124d7c4faf1d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 04/46] fix: report an unexpected character at its own position

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9b1668d..40c17bf 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -510,7 +510,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From b09c6b9a4da15f9b793fefd84f0aa116a17ca4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 05/46] fix: keep the second copy of a one-line file that is
 included twice in a row

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..ff90465 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -55,6 +55,7 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From 98e2e30a408005011ae482133951ce0af2b02f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 06/46] fix: reject tokens after a C header include instead of
 dropping them

---
 src/asm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..86a8fef 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -98,6 +98,9 @@ fn replace_includes(
                                 cheader::lex_input(&input)?
                             };
                             results.append(&mut new_tokens);
+                            if !stream.is_empty() {
+                                return Err(AssemblyError::UnexpectedToken(stream.next()?));
+                            }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
                             for token in line.iter() {
-- 
2.43.0


From 9f27ce55184d195589f4b03df50093dee640a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 07/46] fix: do not panic on non-ASCII text in a C header
 comment

---
 src/cheader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..92524b7 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -12,10 +12,10 @@ fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let mut skipped = 0;
     if text.starts_with("/*") {
         skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
+        while skipped < text.len() && !text.as_bytes()[skipped..].starts_with(b"*/") {
             skipped = skipped + 1;
         }
-        if text[skipped..].starts_with("*/") {
+        if text.as_bytes()[skipped..].starts_with(b"*/") {
             return input.update(skipped + 2);
         } else {
             return input.update(skipped);
-- 
2.43.0


From 56f0d9c41aab878a9cbdb5a3cc57d6c88c4df2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 08/46] fix: report arithmetic overflow in an expression
 instead of panicking

---
 src/asm.rs        |  2 ++
 src/expression.rs | 26 +++++++++++++++++++++-----
 src/lib.rs        |  6 ++++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 86a8fef..dc0f7e3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -391,6 +391,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    Overflow(Span),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
     NameAlreadyExists(Span, Span, String),
@@ -555,6 +556,7 @@ impl From<EvaluationError> for AssemblyError {
             DivideByZero(span, message) => {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
+            Overflow(span) => AssemblyError::Overflow(span),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..73d13c6 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    Overflow(Span),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
@@ -22,6 +23,7 @@ impl EvaluationError {
         match self {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
+            Overflow(span) => format!("{}: Arithmetic overflow", span),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -479,10 +481,22 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_add(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::Minus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_sub(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::UnaryMinus(_, expr) => expr
+                .eval(name_lookup)?
+                .checked_neg()
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::Times(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_mul(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +506,9 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    left_val
+                        .checked_div(right_val)
+                        .ok_or_else(|| EvaluationError::Overflow(self.span()))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
diff --git a/src/lib.rs b/src/lib.rs
index 2c19a66..df5a8db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.newline();
             highlight_line(&span, "", files, stderr);
         }
+        Overflow(span) => {
+            stderr
+                .writeln("Result does not fit in 32 bits")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         MustBeLiteralNumber(span) => {
             stderr.writeln(" Must be a literal number").newline();
             highlight_line(&span, "", files, stderr);
-- 
2.43.0


From a2c3f1187727d5ba885721122f31444cdff21308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 09/46] fix: handle positions that leave 32 bits and a .cnop
 that moves backwards

---
 src/asm.rs | 22 ++++++++++++++--------
 src/ast.rs |  5 +++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index dc0f7e3..1811709 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -343,7 +343,7 @@ fn generate_bytes(
                         panic!("There should be no .include directives left at this point")
                     }
                     Cnop(_, _add, _multiple) => {
-                        pos += dir.size(pos as i32)? as usize;
+                        pos = (pos as i32 + dir.size(pos as i32)?) as usize;
                     }
                 }
             }
@@ -598,6 +598,12 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+/// The position `size` bytes after `pos`.
+fn advance(pos: i32, size: i32, span: Span) -> Result<i32, AssemblyError> {
+    pos.checked_add(size)
+        .ok_or_else(|| AssemblyError::Overflow(span))
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -607,7 +613,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -626,8 +632,8 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                     current_global = name.to_lowercase();
                 }
             }
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span.clone())?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -654,10 +660,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, _name) => (),
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span.clone())?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
@@ -694,7 +700,7 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
         new_locals.insert(key.to_owned(), new_local);
     }
     Ok((
-        (max_pos + 1) as usize,
+        max_pos as usize + 1,
         Names {
             globals: new_globals,
             locals: new_locals,
diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..c91a358 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -247,6 +247,7 @@ impl Directive {
     }
 
     pub fn eval_cnop(pos: i32, add: &Expr, multiple: &Expr) -> Result<i32, EvaluationError> {
+        let overflow = || EvaluationError::Overflow(multiple.span());
         let add = Directive::eval_cnop_expr(add)?;
         let multiple = Directive::eval_cnop_expr(multiple)?;
         if multiple == 0 {
@@ -257,9 +258,9 @@ impl Directive {
                 if pos <= mult {
                     break;
                 }
-                mult = mult + multiple;
+                mult = i32::checked_add(mult, multiple).ok_or_else(overflow)?;
             }
-            Ok(mult + add)
+            i32::checked_add(mult, add).ok_or_else(overflow)
         }
     }
 
-- 
2.43.0


From 95fec4b037a22f2894f5fc14ed3c8a718da443ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 10/46] fix: reject an expression too deep for the stack
 instead of overflowing it

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ff90465..be0fcc7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -731,6 +731,7 @@ impl Parser {
     }
 
     pub fn parse_expr(&self, tokens: &mut TokenStream) -> Result<Expr, ParseError> {
+        tokens.expr_terms = 0;
         self.expr_parser.parse(tokens, 0)
     }
 
@@ -759,6 +760,7 @@ impl Parser {
 #[derive(Debug, Clone)]
 pub struct TokenStream<'a> {
     pos: usize,
+    expr_terms: usize,
     tokens: &'a [Token],
 }
 
@@ -766,6 +768,7 @@ impl<'a> TokenStream<'a> {
     pub fn from<'b>(tokens: &'b [Token]) -> TokenStream<'b> {
         TokenStream {
             pos: 0,
+            expr_terms: 0,
             tokens: tokens,
         }
     }
@@ -1122,6 +1125,9 @@ enum Precedence {
     Prefix = 6,
 }
 
+/// Bounds the depth of an expression, which is parsed and evaluated recursively.
+const MAX_EXPR_TERMS: usize = 500;
+
 struct ExprParser {
     prefix: HashMap<ExprTokenType, Box<dyn PrefixParselet>>,
     infix: HashMap<ExprTokenType, Box<dyn InfixParselet>>,
@@ -1139,6 +1145,10 @@ impl ExprParser {
     pub fn parse(&self, tokens: &mut TokenStream, precedence: i32) -> Result<Expr, ParseError> {
         let tok = tokens.next()?;
         let loc = tok.span().start().clone();
+        tokens.expr_terms += 1;
+        if tokens.expr_terms > MAX_EXPR_TERMS {
+            return Err(ParseError::InvalidExpression(loc));
+        }
         let typ = expr_tok_type(loc.clone(), &tok)?;
 
         let prefix = self.prefix(loc.clone(), typ)?;
-- 
2.43.0


From 809c1ea88f56d02bec6dec4d7aba52f3d0efc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 11/46] fix: reject a file that includes itself instead of
 overflowing the stack

---
 src/asm.rs | 17 +++++++++++++++--
 src/lib.rs |  8 ++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 1811709..a4eb514 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,7 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
@@ -48,7 +48,7 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        replace_includes(&filename, &parser, &mut files, &tokens, &mut vec![])?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
@@ -60,7 +60,17 @@ fn replace_includes(
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    including: &mut Vec<PathBuf>,
 ) -> Result<Vec<Token>, AssemblyError> {
+    let real_path = filename
+        .canonicalize()
+        .unwrap_or_else(|_| filename.to_path_buf());
+    if including.contains(&real_path) {
+        return Err(AssemblyError::RecursiveInclude(
+            filename.display().to_string(),
+        ));
+    }
+    including.push(real_path);
     let mut results = vec![];
     for line in parser::lines(tokens) {
         let mut stream = parser::TokenStream::from(line);
@@ -83,6 +93,7 @@ fn replace_includes(
                                 parser,
                                 files,
                                 &new_tokens,
+                                including,
                             )?;
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
@@ -131,6 +142,7 @@ fn replace_includes(
             }
         }
     }
+    including.pop();
     Ok(results)
 }
 
@@ -397,6 +409,7 @@ pub enum AssemblyError {
     NameAlreadyExists(Span, Span, String),
     InvalidCodeLocation(Span, i32),
     InvalidPath(Span, Expr),
+    RecursiveInclude(String),
     InvalidIconSize(String, usize, usize),
     InvalidPaletteSize(String, usize, usize),
     SpriteTooWide(Span, String, usize, usize),
diff --git a/src/lib.rs b/src/lib.rs
index df5a8db..260faff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -853,6 +853,14 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .writeln(err)
                 .newline();
         }
+        RecursiveInclude(file) => {
+            stderr
+                .write("File includes itself: ")
+                .cyan()
+                .write(file)
+                .reset()
+                .newline();
+        }
         MacroNameConflictsWithInstruction(span, name) => {
             stderr
                 .write("Cannot name macro ")
-- 
2.43.0


From 5be618c89783b58c89a97681ce692963a69000a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 12/46] fix: reject a macro that calls itself instead of
 overflowing the stack

---
 src/asm.rs | 16 +++++++++++++++-
 src/lib.rs | 10 ++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index a4eb514..c1cc998 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -469,6 +469,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    RecursiveMacro(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -726,7 +727,13 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut stmts = expand(
+                    statements,
+                    span.clone(),
+                    name.to_owned(),
+                    args,
+                    &mut vec![],
+                )?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -799,8 +806,13 @@ fn expand(
     span: Span,
     name: String,
     args: &[Arg],
+    expanding: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
+    if expanding.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span, name));
+    }
+    expanding.push(ident.clone());
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
         None => {
@@ -840,6 +852,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            expanding,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -872,6 +885,7 @@ fn expand(
             }
         }
     }
+    expanding.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 260faff..e2a82fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -957,6 +957,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("Macro ")
+                .cyan()
+                .write(name)
+                .reset()
+                .writeln(" calls itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         InvalidIconSize(path, w, h) => {
             stderr
                 .write("Invalid icon size in ")
-- 
2.43.0


From e230d4d667a0808d3a3d8771f62e816368fde0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 13/46] fix: do not resolve a macro argument in the scope of
 the called macro

---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 73d13c6..52d218c 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -193,8 +193,10 @@ impl Expr {
                         Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
                             span.with_parent(expr.span()),
                         )),
+                        // The argument belongs to the caller: this macro's
+                        // labels and arguments are not visible to it.
                         Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
+                            .replace_macro_args(inv_span.clone(), &HashMap::new(), &HashMap::new())?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
-- 
2.43.0


From 572b1bfd182195d7aca576a1c379ff4650b9cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 14/46] fix: reject a macro without %end instead of dropping
 the rest of the file

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index be0fcc7..1bbecd0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -306,6 +306,7 @@ impl Parser {
                 macro_lines[idx] = true;
                 idx = idx + 1;
                 let mut statements = vec![];
+                let mut ended = false;
                 while idx < lines.len() {
                     let line = lines[idx];
                     let mut tokens = TokenStream::from(line);
@@ -316,6 +317,7 @@ impl Parser {
                             return Err(ParseError::UnexpectedToken(tokens.next()?));
                         } else {
                             idx = idx + 1;
+                            ended = true;
                             break;
                         }
                     } else {
@@ -325,6 +327,9 @@ impl Parser {
                     }
                     idx = idx + 1;
                 }
+                if !ended {
+                    return Err(ParseError::UnexpectedEof);
+                }
                 macros.insert(
                     ident,
                     MacroDefinition::new(nspan.clone(), name.clone(), args, statements),
-- 
2.43.0


From ed5a2b303331ca16f6d0b40032d08b8800f2922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 15/46] fix: print octal numbers with the octal prefix

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 52d218c..e4ef40a 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -412,7 +412,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From fa789eb7cb3e8290efb277c108730063f05b97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 16/46] fix: print strings in the form that the lexer reads
 back

---
 src/ast.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index c91a358..bde8347 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -367,10 +367,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -613,10 +613,10 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
+            // \" and \\
+            b'"' | b'\\' => {
                 escaped.push(0x5C);
-                escaped.push(0x61)
+                escaped.push(current)
             }
 
             // \b
@@ -625,12 +625,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -649,12 +643,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
-- 
2.43.0


From 7d32e248f3c95fd5db51772b1f44106dd45dcdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 17/46] fix: expand an empty bytes include to nothing

---
 src/asm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index c1cc998..d63602e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -167,10 +167,12 @@ fn replace_byte_includes(
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
                     }
-                    results.push(Statement::Directive(Directive::Byte(
-                        span.clone(),
-                        byte_vals,
-                    )));
+                    if !byte_vals.is_empty() {
+                        results.push(Statement::Directive(Directive::Byte(
+                            span.clone(),
+                            byte_vals,
+                        )));
+                    }
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-- 
2.43.0


From 1dfcd0dbf049eecd72a2dc04cf97141207a93843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 18/46] fix: reject a VMS file too short for its header instead
 of panicking

---
 src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e2a82fc..71a3571 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -256,7 +256,7 @@ pub fn run_command(args: &[String]) {
 
         match generate_vmi(input_file, output_file, copyright, offset) {
             Ok(_num_bytes) => {}
-            Err(ref _err) => {
+            Err(ref err) => {
                 stderr
                     .write_error()
                     .space()
@@ -269,7 +269,8 @@ pub fn run_command(args: &[String]) {
                     .red()
                     .write("✘")
                     .reset()
-                    .space();
+                    .space()
+                    .writeln(format!("{:?}", err));
                 //print_error(&mut files, err, &mut stderr);
                 std::process::exit(1);
             }
@@ -378,6 +379,16 @@ fn generate_vmi(
     };
     let filename_bytes = filename.as_bytes();
 
+    if vms_bytes.len() < offset + 0x30 {
+        return Err(DisasmError::NoSuchFile(
+            input_file.to_string(),
+            std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "the file is too short to hold a VMS header",
+            ),
+        ));
+    }
+
     let mut bytes = [0u8; 108];
 
     // Copy description field from VMS file
-- 
2.43.0


From 2f631e3065f331787e1065c8e79f8e8eefa287cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 19/46] fix: report an output file that cannot be written
 instead of panicking

---
 src/asm.rs    |  1 +
 src/disasm.rs |  1 +
 src/lib.rs    | 52 ++++++++++++++++++++++++++++++++++++---------------
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index d63602e..4d02a7c 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -459,6 +459,7 @@ pub enum AssemblyError {
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..84ede3a 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -11,6 +11,7 @@ pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
     UnknownFileType(String),
+    WriteFailure(String, std::io::Error),
 }
 
 pub fn disassemble(
diff --git a/src/lib.rs b/src/lib.rs
index 71a3571..7e2f46a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,8 +237,17 @@ pub fn run_command(args: &[String]) {
 
         match matches.value_of("OUTPUT") {
             Some(output) => {
-                let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                if let Err(err) = write_file(output, serialized.as_bytes()) {
+                    stderr
+                        .write("Error writing file ")
+                        .cyan()
+                        .write(output)
+                        .reset()
+                        .write(": ")
+                        .writeln(err)
+                        .newline();
+                    std::process::exit(1);
+                }
             }
             None => {
                 println!("{}", serialized);
@@ -478,10 +487,8 @@ fn generate_vmi(
         Weekday::Sat => 6,
     };
 
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
-
-    Ok(())
+    write_file(output_file, &bytes)
+        .map_err(|e| DisasmError::WriteFailure(output_file.to_string(), e))
 }
 
 fn disassemble_cmd(
@@ -517,23 +524,28 @@ fn disassemble_cmd(
     };
     let statements = disasm::disassemble(arrived_from, &entry_points, &bytes)?;
 
-    let mut outfile = File::create(output_file).unwrap();
+    let mut text = String::new();
     for dstmt in statements.to_vec() {
         if positions {
             if let Some(pos) = dstmt.pos() {
-                write!(outfile, "{:04X}| ", pos).unwrap();
+                text.push_str(&format!("{:04X}| ", pos));
             } else {
-                write!(outfile, "    | ").unwrap();
+                text.push_str("    | ");
             }
         }
-        write!(outfile, "{}", dstmt.statement()).unwrap();
+        text.push_str(&format!("{}", dstmt.statement()));
         if let Some(comment) = dstmt.cmt() {
-            write!(outfile, " ; {}", comment).unwrap();
+            text.push_str(&format!(" ; {}", comment));
         }
-        writeln!(outfile, "").unwrap();
+        text.push('\n');
     }
+    write_file(output_file, text.as_bytes())
+        .map_err(|e| DisasmError::WriteFailure(output_file.to_string(), e))
+}
 
-    Ok(())
+fn write_file(path: &str, bytes: &[u8]) -> std::io::Result<()> {
+    let mut outfile = File::create(path)?;
+    outfile.write_all(bytes)
 }
 
 fn expand_cmd(
@@ -552,8 +564,8 @@ fn assemble_cmd(
     let input_file = matches.value_of("INPUT").unwrap();
     let bytes = asm::assemble_file(&mut files, input_file)?;
     let output_file = matches.value_of("OUTPUT").unwrap();
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    write_file(output_file, &bytes)
+        .map_err(|e| AssemblyError::FileWriteFailure(output_file.to_string(), e))?;
 
     stderr
         .write_ok()
@@ -854,6 +866,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .writeln(err)
                 .newline();
         }
+        FileWriteFailure(file, err) => {
+            stderr
+                .write("Error writing file ")
+                .cyan()
+                .write(file)
+                .reset()
+                .write(": ")
+                .writeln(err)
+                .newline();
+        }
         FileUtf8Error(file, err) => {
             stderr
                 .write("UTF-8 Error loading file ")
-- 
2.43.0


From dfa6c8461b1eb7c9d6fd78904042679becf8d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 20/46] fix: report an image that cannot be loaded instead of
 panicking

---
 src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e2f46a..296073f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,29 @@ pub fn run_command(args: &[String]) {
         let input_file = matches.value_of("INPUT").unwrap();
         let format = img::ImageFormat::from(matches.value_of("format").unwrap_or(""))
             .unwrap_or(img::ImageFormat::Asm1Bit);
-        let image = img::load_image(input_file).unwrap();
+        let image = match img::load_image(input_file) {
+            Ok(image) => image,
+            Err(err) => {
+                let (action, filename, err) = match err {
+                    img::ImageLoadError::FileLoadFailure(filename, err) => {
+                        ("loading file ", filename, format!("{}", err))
+                    }
+                    img::ImageLoadError::ImageParseError(filename, err) => {
+                        ("parsing image ", filename, format!("{}", err))
+                    }
+                };
+                stderr
+                    .write("Error ")
+                    .write(action)
+                    .cyan()
+                    .write(filename)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+        };
 
         use img::ImageFormat;
         let serialized = match format {
-- 
2.43.0


From dd150bd32428948d4194e390dc6ed5d19c19d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 21/46] fix: report an invalid icon speed instead of panicking

---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 296073f..982618e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,7 +159,20 @@ pub fn run_command(args: &[String]) {
     } else if let Some(matches) = matches.subcommand_matches("icon") {
         use img::IconError;
         let input_file = matches.value_of("INPUT").unwrap();
-        let animation_speed = matches.value_of("SPEED").map(|s| s.parse::<u16>().unwrap());
+        let animation_speed = matches.value_of("SPEED").map(|s| {
+            s.parse::<u16>().unwrap_or_else(|err| {
+                stderr
+                    .write_error()
+                    .space()
+                    .write("Invalid speed ")
+                    .cyan()
+                    .write(s)
+                    .reset()
+                    .write(": ")
+                    .writeln(err);
+                std::process::exit(1);
+            })
+        });
         let eyecatch_file = matches.value_of("EYECATCH");
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
-- 
2.43.0


From adb6359ecd09330cfa9f766aa98fdca049fb8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 22/46] fix: reject an icon speed that does not fit a word
 instead of truncating it

---
 src/asm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 4d02a7c..db907f8 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -176,7 +176,16 @@ fn replace_byte_includes(
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-                        Some(expr) => Some(expr.eval(&HashMap::new())? as u16),
+                        Some(expr) => {
+                            let value = expr.eval(&HashMap::new())?;
+                            if value < (std::i16::MIN as i32) || value > (std::u16::MAX as i32) {
+                                return Err(AssemblyError::WordOutOfRange {
+                                    span: expr.span(),
+                                    value: value,
+                                });
+                            }
+                            Some(value as u16)
+                        }
                         None => None,
                     };
                     let eyecatch = match eyecatch_opt {
-- 
2.43.0


From 8c1b9a82a2e39f59ed73f63473cc8ba01e0b9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 23/46] fix: resolve an eyecatch path in an included file
 relative to that file

---
 src/asm.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index db907f8..1d79c92 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -114,7 +114,23 @@ fn replace_includes(
                             }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
+                            let eyecatch = match typ {
+                                IncludeType::Icon(_, Some(ByteValue::String(span, value))) => {
+                                    Some((span, String::from_utf8(value).unwrap()))
+                                }
+                                _ => None,
+                            };
                             for token in line.iter() {
+                                if let Some((ref span, ref eyecatch_path)) = eyecatch {
+                                    if token.span() == span {
+                                        let path = files.path(Some(filename), eyecatch_path);
+                                        results.push(Token::new(
+                                            TokenType::String(path.display().to_string()),
+                                            token.span().clone(),
+                                        ));
+                                        continue;
+                                    }
+                                }
                                 if let TokenType::String(string) = token.token_type() {
                                     if string == &original_path {
                                         results.push(Token::new(
-- 
2.43.0


From ba4837d4f1d968e83ca4ec3ea842fe2fac6fd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 24/46] fix: pad a disassembly to the size of the input

---
 src/disasm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 84ede3a..4012d8f 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -119,8 +119,10 @@ pub fn disassemble(
         }
     }
 
-    stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    if !bytes.is_empty() {
+        stmts.push_comment("\nPad size of binary");
+        stmts.push_cnop(0, bytes.len());
+    }
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
-- 
2.43.0


From e36ac5ecc5b43c0f653ba832676f42f021f2b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 25/46] fix: do not use a label that the disassembly does not
 define

---
 src/disasm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index 4012d8f..5ecd488 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -207,6 +207,8 @@ fn build_names(graph: &InstructionGraph<i32, u8>) -> Names {
     compute_bit_aliases(&mut names);
     compute_aliases(&mut names);
     compute_labels(graph, &mut names);
+    // Labels are only written in front of instructions.
+    names.labels.retain(|pos, _| graph.contains_instr(*pos));
     names
 }
 
-- 
2.43.0


From 8d2732709957f66316b6c1cfaed91c363ae37287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 26/46] fix: set the position of overlapping instructions in a
 disassembly

---
 src/disasm.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 5ecd488..55d1f1d 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -33,7 +33,8 @@ pub fn disassemble(
     };
 
     let mask = build_byte_mask(bytes, &graph);
-    let mut written_mask = vec![false; bytes.len()];
+    // Where the assembler will be after the statements so far.
+    let mut asm_pos = 0;
 
     let mut stmts = DStatements::new();
     let mut pos = 0;
@@ -42,15 +43,18 @@ pub fn disassemble(
             stmts.push_comment("");
             stmts.push_comment("Entry point");
             stmts.push_org(pos);
+            asm_pos = pos;
         }
 
         if let Some(instr) = graph.instrs().get(&pos) {
             if pos > 0 && !mask[pos - 1] && !entry_points.contains(&pos) {
                 stmts.push_comment("");
-                if !written_mask[pos - 1] {
-                    stmts.push_org(pos);
-                }
             }
+            // Instructions can overlap, so this can be a step back.
+            if asm_pos != pos {
+                stmts.push_org(pos);
+            }
+            asm_pos = pos + instr.size();
             if names.contains_label(pos) {
                 stmts.push_label(names.label(pos).unwrap());
             }
@@ -102,15 +106,12 @@ pub fn disassemble(
                     if pos > 0 && mask[pos - 1] {
                         stmts.push_comment("");
                     }
-                    if pos > 0 && !written_mask[pos - 1] && !mask[pos - 1] {
+                    if asm_pos != pos {
                         stmts.push_comment("");
                         stmts.push_org(pos);
                     }
                     stmts.push_bytes(pos, chunk);
-                    for (idx, _) in chunk.iter().enumerate() {
-                        written_mask[pos + idx] = true;
-                    }
-                } else {
+                    asm_pos = pos + chunk.len();
                 }
                 pos = pos + chunk.len();
             } else {
-- 
2.43.0


From ded176ef9abe5c09ca3db6fd00afb0813eb208b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 27/46] fix: disassemble a branch out of the address space as
 bytes

---
 src/disasm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index 55d1f1d..9889f18 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -93,7 +93,13 @@ pub fn disassemble(
             } else {
                 None
             };
+            let next = pos + instr.size();
+            let leaves_address_space = graph.jump_to.get(&pos).map_or(false, |targets| {
+                targets.iter().any(|&to| to != next && to > 0xFFFF)
+            });
             match comment {
+                // The assembler has no way to write such a target.
+                _ if leaves_address_space => stmts.push_bytes(pos, &bytes[pos..next]),
                 Some(cmt) => stmts.push_instr_cmt(pos, instr.clone(), cmt),
                 None => stmts.push_instr(pos, instr.clone()),
             }
-- 
2.43.0


From 73f86dfdd0d39701325cb6f9136a90d2f88187cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 28/46] fix: report an overlap with an instruction that starts
 two bytes before

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 9889f18..a3ca4e6 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1079,7 +1079,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0


From f203d151071409a801de00f8c0c2c41a3f5b0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:34 +0000
Subject: [PATCH 29/46] fix: reject an image without frames instead of
 panicking

---
 src/img.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index 13e5a48..768ad81 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -448,7 +448,7 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    match path.extension().and_then(OsStr::to_str) {
+    let image = match path.extension().and_then(OsStr::to_str) {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
         _ => {
@@ -456,7 +456,16 @@ pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
                 .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
             Ok(to_image(&image))
         }
+    }?;
+    if image.frames.is_empty() {
+        return Err(ImageLoadError::ImageParseError(
+            path.display().to_string(),
+            image::ImageError::Parameter(image::error::ParameterError::from_kind(
+                image::error::ParameterErrorKind::NoMoreData,
+            )),
+        ));
     }
+    Ok(image)
 }
 
 fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
-- 
2.43.0


From aee29ea4b5309c534f33081394d7d61531dc37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 30/46] fix: accept a local macro label without colon at the
 end of a file

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1bbecd0..6eaa80c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -787,7 +787,10 @@ impl<'a> TokenStream<'a> {
     }
 
     pub fn len(&self) -> usize {
-        self.tokens.len() - self.pos
+        self.tokens[self.pos..]
+            .iter()
+            .filter(|tok| !tok.is_eof())
+            .count()
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From f814c9fadedecb13888d2d00727cb8e8b4ed5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 31/46] fix: disassembler decodes each position once instead of
 revisiting it exponentially often

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index a3ca4e6..4d04670 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -941,7 +941,7 @@ fn build_instruction_graph(
         locs.append(&mut positions);
 
         for pos in locs.iter() {
-            if *pos == bytes.len() {
+            if *pos == bytes.len() || graph.contains_instr(*pos) {
                 continue;
             }
             if *pos > bytes.len() {
-- 
2.43.0


From ab2f62de6c19473cccf8fb958fd841079643caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 32/46] fix: reject includes nested too deep for the stack
 instead of overflowing it

---
 src/asm.rs | 9 +++++++++
 src/lib.rs | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 1d79c92..29aed61 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -55,6 +55,9 @@ fn read_statements(
     Ok(stmts)
 }
 
+/// Bounds the depth of nested includes, which are read recursively.
+const MAX_INCLUDE_DEPTH: usize = 200;
+
 fn replace_includes(
     filename: &Path,
     parser: &Parser,
@@ -70,6 +73,11 @@ fn replace_includes(
             filename.display().to_string(),
         ));
     }
+    if including.len() >= MAX_INCLUDE_DEPTH {
+        return Err(AssemblyError::IncludesTooDeep(
+            filename.display().to_string(),
+        ));
+    }
     including.push(real_path);
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -437,6 +445,7 @@ pub enum AssemblyError {
     InvalidCodeLocation(Span, i32),
     InvalidPath(Span, Expr),
     RecursiveInclude(String),
+    IncludesTooDeep(String),
     InvalidIconSize(String, usize, usize),
     InvalidPaletteSize(String, usize, usize),
     SpriteTooWide(Span, String, usize, usize),
diff --git a/src/lib.rs b/src/lib.rs
index 982618e..58b84e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -929,6 +929,14 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .reset()
                 .newline();
         }
+        IncludesTooDeep(file) => {
+            stderr
+                .write("Includes are nested too deeply: ")
+                .cyan()
+                .write(file)
+                .reset()
+                .newline();
+        }
         MacroNameConflictsWithInstruction(span, name) => {
             stderr
                 .write("Cannot name macro ")
-- 
2.43.0


From ef038ab08d6c71b776bfb9a080320ec3dd70731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 33/46] fix: reject macro calls nested too deep for the stack
 instead of overflowing it

---
 src/asm.rs |  7 +++++++
 src/lib.rs | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 29aed61..fb7c810 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -507,6 +507,7 @@ pub enum AssemblyError {
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
     RecursiveMacro(Span, String),
+    MacrosTooDeep(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -838,6 +839,9 @@ fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>,
     Ok(map)
 }
 
+/// Bounds the depth of nested macro calls, which are expanded recursively.
+const MAX_MACRO_DEPTH: usize = 200;
+
 fn expand(
     stmts: &Statements,
     span: Span,
@@ -849,6 +853,9 @@ fn expand(
     if expanding.contains(&ident) {
         return Err(AssemblyError::RecursiveMacro(span, name));
     }
+    if expanding.len() >= MAX_MACRO_DEPTH {
+        return Err(AssemblyError::MacrosTooDeep(span, name));
+    }
     expanding.push(ident.clone());
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
diff --git a/src/lib.rs b/src/lib.rs
index 58b84e9..e5da65c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1033,6 +1033,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        MacrosTooDeep(span, name) => {
+            stderr
+                .write("Macro calls are nested too deeply: ")
+                .cyan()
+                .write(name)
+                .reset()
+                .newline()
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         RecursiveMacro(span, name) => {
             stderr
                 .write("Macro ")
-- 
2.43.0


From ef71259e720c85e4432d510e8e31817ca276b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 34/46] fix: reject a macro argument that grows too deep for
 the stack instead of overflowing it

---
 src/asm.rs        | 30 ++++++++++++++++++++----------
 src/expression.rs | 16 ++++++++++++++++
 src/parser.rs     |  2 +-
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fb7c810..47eecf3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -798,17 +798,15 @@ fn replace_args(
                 None => return Err(AssemblyError::InvalidMacroArg(aspan.clone())),
             },
             Arg::Imm(expr) => {
-                new_args.push(Arg::Imm(expr.replace_macro_args(
-                    inv_span.clone(),
-                    labels,
-                    argmap,
-                )?));
+                let expr = expr.replace_macro_args(inv_span.clone(), labels, argmap)?;
+                check_terms(&expr)?;
+                new_args.push(Arg::Imm(expr));
+            }
+            Arg::Ex(expr) => {
+                let expr = expr.replace_macro_args(inv_span.clone(), labels, argmap)?;
+                check_terms(&expr)?;
+                new_args.push(Arg::Ex(expr));
             }
-            Arg::Ex(expr) => new_args.push(Arg::Ex(expr.replace_macro_args(
-                inv_span.clone(),
-                labels,
-                argmap,
-            )?)),
             _ => {
                 new_args.push(arg.clone());
             }
@@ -817,6 +815,18 @@ fn replace_args(
     Ok(new_args)
 }
 
+/// Arguments that are built from arguments must not outgrow what the
+/// parser accepts in one expression.
+fn check_terms(expr: &Expr) -> Result<(), AssemblyError> {
+    if expr.terms() > parser::MAX_EXPR_TERMS {
+        Err(AssemblyError::InvalidExpression(
+            expr.span().start().clone(),
+        ))
+    } else {
+        Ok(())
+    }
+}
+
 fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>, AssemblyError> {
     let mut map = HashMap::new();
     for stmt in statements.iter() {
diff --git a/src/expression.rs b/src/expression.rs
index e4ef40a..4ee3115 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -118,6 +118,22 @@ impl Expr {
         }
     }
 
+    /// The number of operands and prefix operators.
+    pub fn terms(&self) -> usize {
+        use crate::expression::Expr::*;
+        match self {
+            BitwiseXor(_, left, right)
+            | BitwiseAnd(_, left, right)
+            | BitwiseOr(_, left, right)
+            | Plus(_, left, right)
+            | Minus(_, left, right)
+            | Times(_, left, right)
+            | Divide(_, left, right) => left.terms() + right.terms(),
+            UnaryMinus(_, expr) | UpperByte(_, expr) | LowerByte(_, expr) => 1 + expr.terms(),
+            Name(_, _) | Number(_, _, _) | MacroLabel(_, _) | MacroArg(_, _) => 1,
+        }
+    }
+
     pub fn replace_macro_args(
         &self,
         inv_span: Span,
diff --git a/src/parser.rs b/src/parser.rs
index 6eaa80c..7b919b7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1134,7 +1134,7 @@ enum Precedence {
 }
 
 /// Bounds the depth of an expression, which is parsed and evaluated recursively.
-const MAX_EXPR_TERMS: usize = 500;
+pub const MAX_EXPR_TERMS: usize = 500;
 
 struct ExprParser {
     prefix: HashMap<ExprTokenType, Box<dyn PrefixParselet>>,
-- 
2.43.0


From a4249a4c2ae3d138197321528e64c4611696118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:09 +0000
Subject: [PATCH 35/46] fix: keep macro argument substitution within the stack

---
 src/asm.rs        |  2 +-
 src/expression.rs | 87 ++++++++++++++++++++++-------------------------
 2 files changed, 41 insertions(+), 48 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 47eecf3..7003e3e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -850,7 +850,7 @@ fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>,
 }
 
 /// Bounds the depth of nested macro calls, which are expanded recursively.
-const MAX_MACRO_DEPTH: usize = 200;
+const MAX_MACRO_DEPTH: usize = 100;
 
 fn expand(
     stmts: &Statements,
diff --git a/src/expression.rs b/src/expression.rs
index 4ee3115..91a6c77 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -139,62 +139,54 @@ impl Expr {
         inv_span: Span,
         labels: &HashMap<String, String>,
         args: &HashMap<String, Arg>,
+    ) -> Result<Expr, EvaluationError> {
+        use crate::expression::Expr::*;
+        // The recursive calls stand in closures of their own, which
+        // keeps the stack frame of this function small.
+        let unary = |make: fn(Span, Box<Expr>) -> Expr, span: &Span, expr: &Expr| {
+            let expr = Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?);
+            Ok(make(span.with_parent(inv_span.clone()), expr))
+        };
+        let binary = |make: fn(Span, Box<Expr>, Box<Expr>) -> Expr,
+                      span: &Span,
+                      left: &Expr,
+                      right: &Expr| {
+            let left = Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?);
+            let right = Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?);
+            Ok(make(span.with_parent(inv_span.clone()), left, right))
+        };
+        match self {
+            BitwiseXor(span, left, right) => binary(BitwiseXor, span, left, right),
+            BitwiseAnd(span, left, right) => binary(BitwiseAnd, span, left, right),
+            BitwiseOr(span, left, right) => binary(BitwiseOr, span, left, right),
+            Plus(span, left, right) => binary(Plus, span, left, right),
+            Minus(span, left, right) => binary(Minus, span, left, right),
+            Times(span, left, right) => binary(Times, span, left, right),
+            Divide(span, left, right) => binary(Divide, span, left, right),
+            UnaryMinus(span, expr) => unary(UnaryMinus, span, expr),
+            UpperByte(span, expr) => unary(UpperByte, span, expr),
+            LowerByte(span, expr) => unary(LowerByte, span, expr),
+            Name(_, _) | Number(_, _, _) | MacroLabel(_, _) | MacroArg(_, _) => {
+                self.replace_macro_arg(inv_span, labels, args)
+            }
+        }
+    }
+
+    /// An expression without subexpressions.
+    fn replace_macro_arg(
+        &self,
+        inv_span: Span,
+        labels: &HashMap<String, String>,
+        args: &HashMap<String, Arg>,
     ) -> Result<Expr, EvaluationError> {
         use crate::expression::Expr::*;
         match self {
-            BitwiseXor(span, left, right) => Ok(Expr::BitwiseXor(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            BitwiseAnd(span, left, right) => Ok(Expr::BitwiseAnd(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            BitwiseOr(span, left, right) => Ok(Expr::BitwiseOr(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
             Name(span, name) => Ok(Expr::Name(span.with_parent(inv_span.clone()), name.clone())),
-            Plus(span, left, right) => Ok(Expr::Plus(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            Minus(span, left, right) => Ok(Expr::Minus(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            UnaryMinus(span, expr) => Ok(Expr::UnaryMinus(
-                span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            Times(span, left, right) => Ok(Expr::Times(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            Divide(span, left, right) => Ok(Expr::Divide(
-                span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
             Number(span, num, radix) => Ok(Expr::Number(
                 span.with_parent(inv_span.clone()).clone(),
                 *num,
                 *radix,
             )),
-            UpperByte(span, expr) => Ok(Expr::UpperByte(
-                span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
-            LowerByte(span, expr) => Ok(Expr::LowerByte(
-                span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
-            )),
             MacroLabel(span, name) => match labels.get(name) {
                 Some(label) => Ok(Expr::Name(
                     span.with_parent(inv_span.clone()).clone(),
@@ -224,6 +216,7 @@ impl Expr {
                     None => Err(EvaluationError::InvalidMacroArg(span.clone())),
                 }
             }
+            _ => self.replace_macro_args(inv_span, labels, args),
         }
     }
 }
-- 
2.43.0


From 53ca160fa3c078c47bb8d7b334d9ac0ccbcbe9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 36/46] fix: say where a line or macro definition ends too
 early

---
 src/asm.rs    |  4 ++++
 src/lib.rs    |  8 ++++++++
 src/parser.rs | 16 +++++++++++++---
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 7003e3e..cc36b98 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -491,6 +491,8 @@ pub enum AssemblyError {
     UnknownDirective(Token),
     UnknownInstruction(Span),
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
+    UnexpectedEndOfLine(Location),
+    MissingMacroEnd(Span),
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
     FileWriteFailure(String, std::io::Error),
@@ -565,6 +567,8 @@ impl From<ParseError> for AssemblyError {
             DuplicateMacroArg(span) => AssemblyError::DuplicateMacroArg(span),
             InvalidMacroArg(span) => AssemblyError::InvalidMacroArg(span),
             InvalidSpriteType(span, typ) => AssemblyError::InvalidSpriteType(span, typ),
+            UnexpectedEndOfLine(loc) => AssemblyError::UnexpectedEndOfLine(loc),
+            MissingMacroEnd(span) => AssemblyError::MissingMacroEnd(span),
             UnexpectedEof => AssemblyError::UnexpectedEof,
             InvalidSpriteHeader(span, string) => AssemblyError::InvalidSpriteHeader(span, string),
         }
diff --git a/src/lib.rs b/src/lib.rs
index e5da65c..6365a89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -888,6 +888,14 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             }
             stderr.newline();
         }
+        UnexpectedEndOfLine(loc) => {
+            stderr.writeln("Unexpected end of line").newline();
+            highlight_line(&loc.to_span(), "", files, stderr);
+        }
+        MissingMacroEnd(span) => {
+            stderr.writeln("Macro has no %end").newline();
+            highlight_line(span, "", files, stderr);
+        }
         UnexpectedEof => {
             stderr.writeln("Unexpected EOF").newline();
         }
diff --git a/src/parser.rs b/src/parser.rs
index 7b919b7..b529128 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -28,6 +28,8 @@ pub enum ParseError {
     InvalidMacroArg(Span),
     InvalidSpriteType(Span, String),
     InvalidSpriteHeader(Span, String),
+    UnexpectedEndOfLine(Location),
+    MissingMacroEnd(Span),
     UnexpectedEof,
 }
 
@@ -328,7 +330,7 @@ impl Parser {
                     idx = idx + 1;
                 }
                 if !ended {
-                    return Err(ParseError::UnexpectedEof);
+                    return Err(ParseError::MissingMacroEnd(nspan));
                 }
                 macros.insert(
                     ident,
@@ -878,7 +880,15 @@ impl<'a> TokenStream<'a> {
     pub fn current(&self) -> Result<Token, ParseError> {
         match self.peek() {
             Some(tok) => Ok(tok.clone()),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_end()),
+        }
+    }
+
+    /// There is no token left on the line.
+    fn unexpected_end(&self) -> ParseError {
+        match self.tokens.last() {
+            Some(tok) => ParseError::UnexpectedEndOfLine(tok.span().end().clone()),
+            None => ParseError::UnexpectedEof,
         }
     }
 
@@ -921,7 +931,7 @@ impl<'a> TokenStream<'a> {
                 token_type.name(),
                 tok.clone(),
             )),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_end()),
         }
     }
 }
-- 
2.43.0


From db0d3ba069807c5c791ea7cba84c09bb7a6b39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 37/46] fix: say which macro call a duplicate label comes from

---
 src/asm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index cc36b98..79a4659 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -934,12 +934,14 @@ fn expand(
                     }
                 }
             }
-            Label(span, string) => {
-                statements.push(Statement::Label(span.clone(), string.clone()));
+            Label(lspan, string) => {
+                let lspan = lspan.with_parent(span.clone());
+                statements.push(Statement::Label(lspan, string.clone()));
             }
-            MacroLabel(span, name) => {
+            MacroLabel(lspan, name) => {
+                let lspan = lspan.with_parent(span.clone());
                 let label_name = labels[name].clone();
-                statements.push(Statement::Label(span.clone(), label_name));
+                statements.push(Statement::Label(lspan, label_name));
             }
         }
     }
-- 
2.43.0


From d238b6bc150a61ebeca75a85ffde845c8d6e9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 38/46] fix: read every frame of a GIF whose extension is in
 upper case

---
 src/img.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index 768ad81..5fdb43a 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -448,7 +448,11 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    let image = match path.extension().and_then(OsStr::to_str) {
+    let extension = path
+        .extension()
+        .and_then(OsStr::to_str)
+        .map(str::to_ascii_lowercase);
+    let image = match extension.as_deref() {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
         _ => {
-- 
2.43.0


From c492ffded8c00379cddd4bfdc1670da9576c0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:54 +0000
Subject: [PATCH 39/46] fix: do not take a stale PWD for the working directory

---
 src/files.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index 7374d1b..a6794fc 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -75,18 +75,24 @@ pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
     Ok(text)
 }
 
+fn is_same_path(a: &Path, b: &Path) -> bool {
+    match (a.canonicalize(), b.canonicalize()) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false,
+    }
+}
+
 impl SourceFiles {
     pub fn new() -> SourceFiles {
-        let working_dir = match std::env::var_os("PWD") {
-            Some(pwd) => PathBuf::from(pwd),
-            None => std::env::current_dir().unwrap(),
+        let current_dir = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."));
+        // PWD names the directory as the user reached it, which is nicer in messages, but it is
+        // only a hint: a program may change directory without updating it.
+        let working_dir = match std::env::var_os("PWD").map(PathBuf::from) {
+            Some(pwd) if pwd.is_absolute() && is_same_path(&pwd, &current_dir) => pwd,
+            _ => current_dir,
         };
         SourceFiles {
-            working_dir: if working_dir.is_absolute() {
-                working_dir
-            } else {
-                working_dir.canonicalize().unwrap()
-            },
+            working_dir,
             files: vec![],
         }
     }
-- 
2.43.0


From 615d79dffc154a8a740e7dab41f2d7088cad47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 40/46] fix: report an argument that is not valid UTF-8 instead
 of panicking

---
 libwaterbear/src/lib.rs | 14 ++++++++++----
 src/main.rs             | 10 ++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libwaterbear/src/lib.rs b/libwaterbear/src/lib.rs
index 8bf8f8e..a4a4784 100644
--- a/libwaterbear/src/lib.rs
+++ b/libwaterbear/src/lib.rs
@@ -7,10 +7,16 @@ use std::slice;
 
 #[no_mangle]
 pub extern "C" fn waterbear_invoke_command_line(len: usize, ptr: *const *const c_char) {
-    let args: Vec<String> = unsafe { slice::from_raw_parts(ptr, len) }.into_iter()
-        .into_iter()
-        .map(|c_char: &*const c_char| unsafe { CStr::from_ptr(*c_char) }.to_str().unwrap().to_owned() )
+    let args: Result<Vec<String>, &CStr> = unsafe { slice::from_raw_parts(ptr, len) }.into_iter()
+        .map(|c_char: &*const c_char| unsafe { CStr::from_ptr(*c_char) })
+        .map(|arg| arg.to_str().map(|arg| arg.to_owned()).map_err(|_| arg))
         .collect();
-    waterbear::run_command(&args)
+    match args {
+        Ok(args) => waterbear::run_command(&args),
+        Err(arg) => {
+            eprintln!("[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            std::process::exit(1);
+        }
+    }
 }
 
diff --git a/src/main.rs b/src/main.rs
index ca1e0af..85c20fc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,12 @@ extern crate waterbear;
 use std::env;
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
-    waterbear::run_command(&args);
+    let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
+    match args {
+        Ok(args) => waterbear::run_command(&args),
+        Err(arg) => {
+            eprintln!("[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            std::process::exit(1);
+        }
+    }
 }
-- 
2.43.0


From da3bbbdbe2bf667a917a805ae0f0a563d390b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 41/46] fix: keep a comment on one line when a file name in it
 has a line break

---
 src/ast.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index bde8347..f8867bc 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -491,6 +491,11 @@ impl Positioned for Statement {
     }
 }
 
+/// The text of a comment, which ends at the end of its line.
+fn one_line(text: &str) -> String {
+    text.replace(|c| c == '\n' || c == '\r', " ")
+}
+
 impl fmt::Display for Statement {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
@@ -512,9 +517,9 @@ impl fmt::Display for Statement {
                     write!(f, "{}", comment)
                 } else if comment.starts_with("\n") {
                     writeln!(f, "")?;
-                    write!(f, "  ;; {}", &comment[1..comment.len()])
+                    write!(f, "  ;; {}", one_line(&comment[1..comment.len()]))
                 } else {
-                    write!(f, "  ;; {}", comment)
+                    write!(f, "  ;; {}", one_line(comment))
                 }
             }
             Statement::MacroCall(_, name, args) => {
-- 
2.43.0


From 30a899f6a0fbacb31425055f2c7d7a2eadcacbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 42/46] fix: find included resources below a directory whose
 name is not valid UTF-8

---
 src/asm.rs | 49 ++++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 79a4659..259838e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -10,7 +10,7 @@ use crate::files::{FileLoadError, SourceFiles};
 use crate::img::{self, ImageLoadError};
 use crate::input::Input;
 use crate::instruction::EncodingError;
-use crate::lexer::{self, TokenType};
+use crate::lexer;
 use crate::lexer::{LexerError, Token};
 use crate::location::{Location, Positioned, Span};
 use crate::parser;
@@ -51,7 +51,7 @@ fn read_statements(
         replace_includes(&filename, &parser, &mut files, &tokens, &mut vec![])?
     };
     let stmts = parser.parse(&tokens)?;
-    let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
+    let stmts = replace_byte_includes(&mut files, &stmts)?;
     Ok(stmts)
 }
 
@@ -84,11 +84,7 @@ fn replace_includes(
         let mut stream = parser::TokenStream::from(line);
         match parser.parse_directive(&mut stream) {
             Ok(Some(stmt)) => {
-                let original_path = stmt
-                    .path()
-                    .map(|path| path.to_string_lossy().to_string())
-                    .unwrap_or(String::new());
-                match stmt.fixup_paths(files, Some(filename)) {
+                match stmt {
                     Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
                         IncludeType::Asm => {
                             let file = files.load(Some(filename), &path)?;
@@ -122,32 +118,9 @@ fn replace_includes(
                             }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
-                            let eyecatch = match typ {
-                                IncludeType::Icon(_, Some(ByteValue::String(span, value))) => {
-                                    Some((span, String::from_utf8(value).unwrap()))
-                                }
-                                _ => None,
-                            };
+                            // Their paths are resolved against the file that the span of the
+                            // directive names, in replace_byte_includes.
                             for token in line.iter() {
-                                if let Some((ref span, ref eyecatch_path)) = eyecatch {
-                                    if token.span() == span {
-                                        let path = files.path(Some(filename), eyecatch_path);
-                                        results.push(Token::new(
-                                            TokenType::String(path.display().to_string()),
-                                            token.span().clone(),
-                                        ));
-                                        continue;
-                                    }
-                                }
-                                if let TokenType::String(string) = token.token_type() {
-                                    if string == &original_path {
-                                        results.push(Token::new(
-                                            TokenType::String(path.display().to_string()),
-                                            token.span().clone(),
-                                        ));
-                                        continue;
-                                    }
-                                }
                                 results.push(token.clone());
                             }
                         }
@@ -171,13 +144,15 @@ fn replace_includes(
 }
 
 fn replace_byte_includes(
-    filename: &Path,
     files: &mut SourceFiles,
     statements: &Statements,
 ) -> Result<Statements, AssemblyError> {
     let mut results = vec![];
     for statement in statements.iter() {
         if let Statement::Directive(Directive::Include(span, typ, path)) = statement {
+            let filename = files
+                .for_id(span.start().file())
+                .map(|file| file.name().to_path_buf());
             match typ {
                 IncludeType::Asm => {
                     panic!("There should be no ASM .includes at this stage.");
@@ -186,7 +161,7 @@ fn replace_byte_includes(
                     panic!("There should be no C Header .includes at this stage.");
                 }
                 IncludeType::Bytes => {
-                    let bytes = files::load_bytes(&files.path(Some(filename), &path))?;
+                    let bytes = files::load_bytes(&files.path(filename.as_ref(), &path))?;
                     let mut byte_vals = vec![];
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
@@ -224,15 +199,15 @@ fn replace_byte_includes(
                             ));
                         }
                     };
-                    let path = files.path(Some(filename), path);
-                    let eyecatch = eyecatch.map(|eyecatch| files.path(Some(filename), eyecatch));
+                    let path = files.path(filename.as_ref(), path);
+                    let eyecatch = eyecatch.map(|eyecatch| files.path(filename.as_ref(), eyecatch));
                     let stmts = img::to_icon(&path, speed.map(|v| v as u16), eyecatch)?;
                     for stmt in stmts.as_slice() {
                         results.push(stmt.clone());
                     }
                 }
                 IncludeType::Sprite(ref typ, ref include_header) => {
-                    let path = files.path(Some(filename), path);
+                    let path = files.path(filename.as_ref(), path);
                     let image = img::load_image(&path)?;
                     if include_header.is_yes() {
                         let max_byte = usize::from(u8::MAX);
-- 
2.43.0


From 3b0cb3f250b7a1953b7514fcdb52f2920af9326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:00 +0000
Subject: [PATCH 43/46] fix: disassemble a branch to just past the address
 space as bytes

A branch at the very end whose target is the following address was still
listed as an instruction, which does not assemble; an arrival note on
such a branch was dropped.
---
 src/disasm.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 4d04670..a52c72b 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -19,10 +19,11 @@ pub fn disassemble(
     entry_points: &[usize],
     bytes: &[u8],
 ) -> Result<DStatements, DisasmError> {
-    let (graph, names) = {
+    let (graph, names, leaving) = {
         let graph = build_instruction_graph(entry_points, bytes)?;
         let names = build_names(&graph);
-        (graph.lift_instrs(lift_instr, &names), names)
+        let leaving = find_leaving_branches(&graph);
+        (graph.lift_instrs(lift_instr, &names), names, leaving)
     };
     let entry_points = {
         let mut results: HashSet<usize> = HashSet::new();
@@ -94,12 +95,11 @@ pub fn disassemble(
                 None
             };
             let next = pos + instr.size();
-            let leaves_address_space = graph.jump_to.get(&pos).map_or(false, |targets| {
-                targets.iter().any(|&to| to != next && to > 0xFFFF)
-            });
             match comment {
                 // The assembler has no way to write such a target.
-                _ if leaves_address_space => stmts.push_bytes(pos, &bytes[pos..next]),
+                comment if leaving.contains(&pos) => {
+                    stmts.push_bytes_cmt(pos, &bytes[pos..next], comment)
+                }
                 Some(cmt) => stmts.push_instr_cmt(pos, instr.clone(), cmt),
                 None => stmts.push_instr(pos, instr.clone()),
             }
@@ -755,6 +755,38 @@ fn rel8(rel: i32, next: usize) -> usize {
     (rel + (next as i32)) as usize
 }
 
+/// The positions of the relative branches and calls to an
+/// address outside of the address space.
+fn find_leaving_branches(graph: &InstructionGraph<i32, u8>) -> HashSet<usize> {
+    use crate::instruction::Instr::*;
+    let mut results = HashSet::new();
+    for (pos, instr) in graph.instrs() {
+        let next = pos + instr.size();
+        let address = match instr {
+            Br(rel)
+            | Bz(rel)
+            | Bnz(rel)
+            | Bp(_, _, rel)
+            | Bpc(_, _, rel)
+            | Bn(_, _, rel)
+            | Dbnz_d9(_, rel)
+            | Dbnz_Ri(_, rel)
+            | Be_i8(_, rel)
+            | Be_d9(_, rel)
+            | Be_Rj(_, _, rel)
+            | Bne_i8(_, rel)
+            | Bne_d9(_, rel)
+            | Bne_Rj(_, _, rel) => rel8(*rel, next),
+            Brf(rel) | Callr(rel) => rel16(*rel, next),
+            _ => continue,
+        };
+        if address > 0xFFFF {
+            results.insert(*pos);
+        }
+    }
+    results
+}
+
 fn targets(pos: usize, instr: &Instr<i32, u8>, graph: &InstructionGraph<i32, u8>) -> Vec<usize> {
     let next = pos + instr.size();
     use crate::instruction::Instr::*;
@@ -1148,6 +1180,13 @@ impl DStatements {
         self.statements.push(DStatement::bytes(pos, bytes))
     }
 
+    pub fn push_bytes_cmt(&mut self, pos: usize, bytes: &[u8], comment: Option<String>) {
+        self.statements.push(DStatement {
+            comment,
+            ..DStatement::bytes(pos, bytes)
+        })
+    }
+
     pub fn push_cnop(&mut self, add: usize, multiple: usize) {
         self.statements.push(DStatement::cnop(add, multiple));
     }
-- 
2.43.0


From bc5195f6cc8b488a0120d2917988e416bd6a70e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:10 +0000
Subject: [PATCH 44/46] fix: report a printed result that cannot be written to
 standard output

expand and image panicked, and icon exited with status 0 having printed
nothing.
---
 src/asm.rs |  7 +++++--
 src/lib.rs | 32 ++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 259838e..9b9a38c 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,6 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
@@ -29,8 +30,10 @@ pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>,
 pub fn expand_file(files: &mut SourceFiles, filename: &str) -> Result<(), AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
-    println!("{}", statements);
-    Ok(())
+    let mut stdout = std::io::stdout();
+    writeln!(stdout, "{}", statements)
+        .and_then(|_| stdout.flush())
+        .map_err(|e| AssemblyError::FileWriteFailure("standard output".to_string(), e))
 }
 
 fn read_statements(
diff --git a/src/lib.rs b/src/lib.rs
index 6365a89..b707817 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -177,15 +177,11 @@ pub fn run_command(args: &[String]) {
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
             Ok(stmts) => {
-                stdout
-                    .write(ast::Statement::comment(
-                        "NOTE: This file was generated by the waterbear assembler:",
-                    ))
-                    .write("\n");
-                stdout
-                    .write(ast::Statement::comment(&format!("{}", args.join(" "))))
-                    .write("\n");
-                stdout.write(stmts).write("\n");
+                let note = ast::Statement::comment(
+                    "NOTE: This file was generated by the waterbear assembler:",
+                );
+                let command = ast::Statement::comment(&format!("{}", args.join(" ")));
+                print_result(&format!("{}\n{}\n{}", note, command, stmts), &mut stderr);
             }
             Err(IconError::InvalidPaletteSize(p, psize, expected)) => {
                 stderr
@@ -285,7 +281,7 @@ pub fn run_command(args: &[String]) {
                 }
             }
             None => {
-                println!("{}", serialized);
+                print_result(&serialized, &mut stderr);
             }
         }
     } else if let Some(matches) = matches.subcommand_matches("vmi") {
@@ -390,6 +386,22 @@ pub fn run_command(args: &[String]) {
     }
 }
 
+/// Print the result of a command, and exit if it can't all be written.
+fn print_result(text: &str, stderr: &mut ColorWriter) {
+    let mut stdout = std::io::stdout();
+    if let Err(err) = writeln!(stdout, "{}", text).and_then(|_| stdout.flush()) {
+        stderr
+            .write("Error writing file ")
+            .cyan()
+            .write("standard output")
+            .reset()
+            .write(": ")
+            .writeln(err)
+            .newline();
+        std::process::exit(1);
+    }
+}
+
 fn generate_vmi(
     input_file: &str,
     output_file: &str,
-- 
2.43.0


From 6e6de9452df7aefc37517150ae9aa140191d6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:44 +0000
Subject: [PATCH 45/46] fix: a message that cannot be shown does not end the
 program

The exit status became 101, and a warning kept a program from being assembled.
---
 libwaterbear/src/lib.rs |  3 ++-
 src/disasm.rs           |  8 +++++++-
 src/files.rs            | 12 ++++++++----
 src/lib.rs              |  4 ++--
 src/main.rs             |  3 ++-
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/libwaterbear/src/lib.rs b/libwaterbear/src/lib.rs
index a4a4784..298440d 100644
--- a/libwaterbear/src/lib.rs
+++ b/libwaterbear/src/lib.rs
@@ -2,6 +2,7 @@
 extern crate waterbear;
 
 use std::ffi::CStr;
+use std::io::{stderr, Write};
 use std::os::raw::c_char;
 use std::slice;
 
@@ -14,7 +15,7 @@ pub extern "C" fn waterbear_invoke_command_line(len: usize, ptr: *const *const c
     match args {
         Ok(args) => waterbear::run_command(&args),
         Err(arg) => {
-            eprintln!("[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            writeln!(stderr(), "[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy()).ok();
             std::process::exit(1);
         }
     }
diff --git a/src/disasm.rs b/src/disasm.rs
index a52c72b..66b2fcf 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -5,6 +5,7 @@ use crate::location::Span;
 use std;
 use std::collections::HashMap;
 use std::collections::HashSet;
+use std::io::Write;
 
 #[derive(Debug)]
 pub enum DisasmError {
@@ -977,7 +978,12 @@ fn build_instruction_graph(
                 continue;
             }
             if *pos > bytes.len() {
-                eprintln!("Invalid instruction position found: {}", pos);
+                writeln!(
+                    std::io::stderr(),
+                    "Invalid instruction position found: {}",
+                    pos
+                )
+                .ok();
                 continue;
             }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
diff --git a/src/files.rs b/src/files.rs
index a6794fc..5ec0a92 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -2,7 +2,7 @@ use std;
 use std::fmt;
 
 use std::fs::File;
-use std::io::Read;
+use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
 
 #[derive(Debug)]
@@ -147,12 +147,16 @@ impl SourceFiles {
             if correct_path.is_file() || !filename.is_file() {
                 correct_path
             } else {
-                eprintln!(
+                // That the warning can't be shown is no reason to stop.
+                let mut stderr = std::io::stderr();
+                writeln!(
+                    stderr,
                     "WARNING: Path \"{}\" not found. Falling back to \"{}\"",
                     correct_path.display(),
                     filename.display()
-                );
-                eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
+                )
+                .ok();
+                writeln!(stderr, "         Please change the path to be relative to the source file, instead of relative to your working directory.").ok();
                 filename.to_path_buf()
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index b707817..a74cbbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,7 +152,7 @@ pub fn run_command(args: &[String]) {
         match disassemble_cmd(positions, arrived_from, file_type, input_file, output_file) {
             Ok(_) => {}
             Err(ref err) => {
-                eprintln!("ERROR: {:?}", err);
+                stderr.writeln(format!("ERROR: {:?}", err));
                 std::process::exit(1);
             }
         }
@@ -381,7 +381,7 @@ pub fn run_command(args: &[String]) {
             .reset()
             .newline();
     } else {
-        eprintln!("No subcommand specified");
+        stderr.writeln("No subcommand specified");
         std::process::exit(1);
     }
 }
diff --git a/src/main.rs b/src/main.rs
index 85c20fc..05765a6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,13 +1,14 @@
 extern crate waterbear;
 
 use std::env;
+use std::io::{stderr, Write};
 
 fn main() {
     let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
     match args {
         Ok(args) => waterbear::run_command(&args),
         Err(arg) => {
-            eprintln!("[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            writeln!(stderr(), "[ERROR] Argument is not valid UTF-8: {}", arg.to_string_lossy()).ok();
             std::process::exit(1);
         }
     }
-- 
2.43.0


From 979d460ddbd4ecbed8b6581b1f5c983d5a0f8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:00 +0000
Subject: [PATCH 46/46] fix: lexing took time proportional to the square of the
 length of the file

---
 src/input.rs | 4 ++--
 src/lexer.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 86cf836..3d0770e 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -74,8 +74,8 @@ impl<'b> Input<'b> {
             static ref RE: Regex = Regex::new(r"^\s+").unwrap();
         }
         let mut skipped: usize = 0;
-        match RE.captures_iter(&self.text[self.pos..]).next() {
-            Some(cap) => skipped += cap[0].len(),
+        match RE.find(&self.text[self.pos..]) {
+            Some(found) => skipped += found.as_str().len(),
             None => (),
         }
         self.update(skipped)
diff --git a/src/lexer.rs b/src/lexer.rs
index 40c17bf..83960db 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -325,9 +325,10 @@ impl Matcher {
     /// The outer `Option` tells whether the text matches, the inner
     /// one whether the matched text is a valid token.
     pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
-        match self.regex.captures_iter(input.as_str()).next() {
-            Some(cap) => {
-                let capture: &str = &cap[0];
+        // Not captures: matching those may look at all of the remaining text.
+        match self.regex.find(input.as_str()) {
+            Some(found) => {
+                let capture: &str = found.as_str();
                 let convert = &self.convert;
                 Some(convert(capture).map(|token_type| {
                     let new_input = input.update(capture.len());
-- 
2.43.0

