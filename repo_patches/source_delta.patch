From ea362c2404113a30f7c585435f17690bfcf3c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 01/42] sim: name the token vocabulary under cfg(jsparse_sim)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..e40f149 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,10 @@ pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
 pub mod parser;
+
+// Names the token vocabulary so that a simulator can implement `Tokenizer`
+// outside of this crate. Only present when built with `--cfg jsparse_sim`.
+#[cfg(jsparse_sim)]
+pub mod sim_seam {
+    pub use tokenizer::{Hint, Position, TokenRange, tokens};
+}
-- 
2.43.0


From 4c362ecf5b976afa3caa7009fb6c4c76d5d35e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 02/42] fix: implement Clone for SliceTokenizer instead of
 panicking

---
 src/tokenizer/slice.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..f0ad210 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -10,18 +10,12 @@ static NS_PS: &'static str = "\u{2029}";
 static WS_NBSP: &'static str = "\u{00A0}";
 static WS_ZWNBSP: &'static str = "\u{FEFF}";
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct SliceTokenizer<'code> {
     code: &'code str,
     position: Position,
 }
 
-impl<'code> Clone for SliceTokenizer<'code> {
-    fn clone(&self) -> Self {
-        unimplemented!()
-    }
-}
-
 fn eat_whitespace(code: &str, pos: &mut Position) {
     let mut index = pos.offset;
 
-- 
2.43.0


From 0023dc360eee25447be0578013b722958f78f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 03/42] fix: treat every whitespace character as one column of
 whitespace

---
 src/tokenizer/slice.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index f0ad210..80fa157 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -17,25 +17,17 @@ pub struct SliceTokenizer<'code> {
 }
 
 fn eat_whitespace(code: &str, pos: &mut Position) {
-    let mut index = pos.offset;
-
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
-            b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
-                index += 1;
-            }
-            b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
-            }
-            b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+    for c in code[pos.offset..].chars() {
+        match c {
+            '\u{0009}' | '\u{000B}' | '\u{000C}' | '\u{0020}' | '\u{00A0}' | '\u{FEFF}' |
+            // The remaining characters of the "Space_Separator" category.
+            '\u{1680}' | '\u{2000}'...'\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}' => {
+                pos.offset += c.len_utf8();
+                pos.column += 1;
             }
             _ => break,
         }
     }
-
-    pos.column += index - pos.offset;
-    pos.offset = index;
 }
 
 fn increment_position(code: &str, size: usize, pos: &mut Position) {
-- 
2.43.0


From 40a0cd78422ba12b23c4c669245e84b63062e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 04/42] fix: count lines from 1 and deliver CR LF as a single
 line terminator

---
 src/tokenizer/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 80fa157..15b563b 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -88,7 +88,7 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position { line: 1, ..Default::default() },
         }
     }
 }
@@ -303,6 +303,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From a4a95cd9e8bbdcdf4cd781b3f3c7b2c355016fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 05/42] fix: fail on unknown characters and unterminated
 strings instead of producing empty tokens

---
 src/tokenizer/slice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 15b563b..bf4f61b 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -361,6 +361,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        panic!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
@@ -780,6 +784,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        panic!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From 069b2d806e8ae756344bc73c2cdf1329db158638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 06/42] fix: require digits after a radix prefix, decode hex
 letters, saturate exponents

---
 src/tokenizer/slice.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index bf4f61b..c9c0ab3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -428,12 +428,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -444,11 +444,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
@@ -456,13 +456,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("missing digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -480,13 +484,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("missing digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -504,6 +512,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                panic!("missing digits");
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
@@ -857,7 +869,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         _ => return (0, 0),
     };
 
-    let mut value = 0;
+    let mut value = 0i32;
 
     let mut i = offset;
     while i < bytes.len() {
@@ -865,8 +877,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = value.saturating_mul(10).saturating_add(val);
                 }
             }
             _ => break,
-- 
2.43.0


From b43a1abb3a97ea4c996d96bd190b9ec529b400dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 07/42] fix: request each token under the goal of its own
 position

---
 src/parser/expressions.rs | 20 +++++++++++++++-----
 src/parser/mod.rs         | 21 +++++++++++++++++----
 src/parser/module.rs      |  1 +
 src/parser/statements.rs  |  8 ++++++--
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..50c6815 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -13,7 +13,6 @@ where
     pub fn parse_expression(&mut self) -> OptResult<()> {
         try_value!(self.parse_assignment_expression()?);
 
-        self.expect_expression();
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
@@ -126,10 +125,13 @@ where
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
         self.expect_expression();
 
-        Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
-        ))
+        if let TokenResult::Some(_) = self.parse_block_statement()? {
+            // A block body ends the expression, so an operator cannot follow.
+            self.expect_expression();
+            Ok(TokenResult::Some(()))
+        } else {
+            self.parse_assignment_expression()
+        }
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
@@ -144,6 +146,7 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
@@ -385,6 +388,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -425,6 +429,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -452,6 +457,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
@@ -684,7 +690,10 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
+        self.expect_expression();
+
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -702,6 +711,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..beb456c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // If a token has already been read, it is too late to affect how it was read,
+        // and the flag must not affect the token after it.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
@@ -194,6 +198,9 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         self.semicolon_inner(true)
     }
     fn semicolon_inner(&mut self, was_do_while: bool) -> TokenResult<()> {
+        // If nothing has been read yet, an operator cannot follow.
+        self.expect_expression();
+
         let exists = {
             let (line, token) = self.token_and_line();
 
@@ -214,8 +221,6 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         // println!("Performing ASI");
         if exists {
             self.pop();
-        } else {
-            self.expect_expression();
         }
         TokenResult::Some(())
     }
@@ -304,7 +309,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                !is_binding_identifier(&flags, name) && !is_operand_keyword(name)
             } else {
                 return None;
             };
@@ -535,6 +540,14 @@ where
     }
 }
 
+// Keywords that are operands themselves, so an operator may follow them.
+fn is_operand_keyword(s: &str) -> bool {
+    match s {
+        "this" | "super" | "null" | "true" | "false" => true,
+        _ => false,
+    }
+}
+
 fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     // TODO: In strict mode specifically, 'arguments' and 'eval' aren't allowed as binding names,
     // just labels and references.
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..1bdf126 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -61,6 +61,7 @@ where
         try_value!(self.keyword("export"));
 
         if let TokenResult::Some(_) = self.keyword("default") {
+            self.expect_expression();
             let mut parser = self.with(Flag::Default);
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..b7e7457 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -310,6 +310,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -602,6 +603,7 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -613,6 +615,7 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
@@ -624,8 +627,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -671,8 +674,8 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -696,6 +699,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From 5883b9cef0693a7d9d373fd9ccbe0aaae3df701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 08/42] fix: await is never an identifier in a module

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index beb456c..db73e08 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -555,7 +555,8 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+        // Reserved in modules, even where it is not an operator.
+        "await" => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
-- 
2.43.0


From da31038c44a3f4bcb50691463062e06e87ceb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 09/42] fix: parse the name, heritage and body of class
 expressions

---
 src/parser/classes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..a1a9399 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,12 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+
+        opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 1cc584de5fe8b81648c18ac9e4491e2112292996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 10/42] fix: only an identifier can be a label, 'default' is
 not one

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b7e7457..9f39683 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -661,7 +661,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From 07159b6d64e0b1f45d3ce1df6f0c4e547c557cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 11/42] fix: allow 'in' wherever the grammar does

---
 src/parser/declarations.rs | 10 +++++-----
 src/parser/expressions.rs  |  9 ++++++---
 src/parser/functions.rs    |  4 ++--
 src/parser/statements.rs   |  4 ++--
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..65ba79f 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -44,10 +44,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -57,10 +57,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 50c6815..01db7ce 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -637,7 +637,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
-            if let TokenResult::Some(_) = self.parse_array_item()? {
+            if let TokenResult::Some(_) = self.with(Flag::In).parse_array_item()? {
             }
 
             if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
@@ -651,6 +651,7 @@ where
     }
     fn parse_object_literal_expression(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.with(Flag::In);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
@@ -710,6 +711,7 @@ where
 
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
+            let mut parser = parser.with(Flag::In);
             loop {
                 parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
@@ -729,7 +731,8 @@ where
 
         self.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
+        let first = opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        if let Some(_) = first {
             while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                 self.expect_expression();
                 if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
@@ -738,7 +741,7 @@ where
                         eat_value!(self.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(self.with(Flag::In).parse_assignment_expression()?)
                 }
             }
         } else {
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..2efcbc2 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -110,9 +110,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9f39683..fd483c2 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -505,12 +505,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
-- 
2.43.0


From 69f4b981f79f2f64e57d4d87f0091628818b9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 12/42] fix: a throw statement needs an operand on its line and
 ends like other statements

---
 src/parser/statements.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fd483c2..0d2021a 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -675,9 +675,12 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From 3e544a837e9ef52c82e58bfaa79d093657a9334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 13/42] fix: a try statement needs a catch or finally block

---
 src/parser/statements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 0d2021a..2bb4fb0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -690,7 +690,9 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        let mut handled = false;
         if let TokenResult::Some(_) = self.keyword("catch") {
+            handled = true;
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -705,6 +707,8 @@ where
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
+        } else if !handled {
+            bail!("Expected catch or finally after try");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From e7f12e543016fd38cb3c3fd3a9d1d54857d381a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 14/42] fix: an exported declaration already ends with its own
 semicolon

---
 src/parser/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 1bdf126..24fdfc5 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -82,6 +82,7 @@ where
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
+                eat_value!(self.semicolon());
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
@@ -98,9 +99,8 @@ where
                 } else {
                     // TODO: Validate BindingIdentifier for local specifiers
                 }
+                eat_value!(self.semicolon());
             }
-
-            eat_value!(self.semicolon());
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 0c487b099faa28142adbff510562cd472556e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 15/42] fix: a comma in an object literal follows a property, a
 computed name has an expression

---
 src/parser/expressions.rs | 3 ++-
 src/parser/statements.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 01db7ce..e4efc9b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -655,7 +655,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 2bb4fb0..e6cd8e0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -228,7 +228,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From 52b9e65af1bd95575beb75192475b850f968e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 16/42] fix: an identifier may be followed by a function on the
 next line

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e4efc9b..dd568db 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -586,7 +586,7 @@ where
         if let Some(ahead) = self.ident_lookahead() {
             match ahead.token {
                 tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
+                    if name == "function" && !ahead.line {
                         return Ok(TokenResult::None);
                     }
                 }
-- 
2.43.0


From 8f4bcdadcf06d9bfbba3d3e0bb015059cebf2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 17/42] fix: an arrow needs parameters before it, on its line,
 and parameters need an arrow

---
 src/parser/expressions.rs | 41 +++++++++++++++++++++++++++++++++++----
 src/parser/mod.rs         | 20 +++++++++++++++++++
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index dd568db..17ac307 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
+use parser::{Parser, Flag, LookaheadResult, ArrowHead, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -59,6 +59,7 @@ where
 
         // TODO: Alternatively this can kick off the cover lookahead here then skip reify
 
+        let start = self.popped;
         let left = try_value!(self.parse_conditional_expression()?);
 
         #[derive(Debug)]
@@ -79,6 +80,9 @@ where
             StarStarEq,
         }
 
+        let line = !self.no_line_terminator();
+        let is_arrow_head = self.arrow_head.start == start && self.arrow_head.end == self.popped;
+
         let t = match *self.token() {
             tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => Reify::Arrow,
             tokens::Token::Punctuator(tokens::PunctuatorToken::Eq) => Reify::Eq,
@@ -101,7 +105,10 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
+                if line || !is_arrow_head {
+                    bail!("Unexpected arrow");
+                }
+
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
                 self.reify_arrow(left)?
             }
@@ -425,7 +432,16 @@ where
                     // eat_value!(self.punc(tokens::PunctuatorToken::Period));
                     eat_value!(self.with(Flag::In).identifier());
                 }
-                LeftType::Call if allow_call => eat_value!(self.parse_call_arguments()?),
+                LeftType::Call if allow_call => {
+                    let head = self.arrow_head;
+                    let is_async = head.is_async && head.end == self.popped;
+
+                    eat_value!(self.parse_call_arguments()?);
+
+                    if is_async {
+                        self.arrow_head = ArrowHead { start: head.start, end: self.popped, is_async: false };
+                    }
+                }
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
@@ -595,7 +611,9 @@ where
 
         }
 
-        try_value!(self.reference_identifier());
+        let start = self.popped;
+        let ident = try_value!(self.reference_identifier());
+        self.arrow_head = ArrowHead { start, end: self.popped, is_async: ident.name == "async" };
 
         Ok(TokenResult::Some(()))
     }
@@ -728,10 +746,14 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
+        let start = self.popped;
         try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
         self.expect_expression();
 
+        // If this can only be the parameters of an arrow function.
+        let mut only_params = false;
+
         let first = opt_value!(self.with(Flag::In).parse_assignment_expression()?);
         if let Some(_) = first {
             while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
@@ -741,11 +763,14 @@ where
                     } else {
                         eat_value!(self.binding_identifier());
                     }
+                    only_params = true;
+                    break;
                 } else {
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?)
                 }
             }
         } else {
+            only_params = true;
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
                 if let TokenResult::Some(_) = self.parse_binding_pattern()? {
                 } else {
@@ -755,6 +780,14 @@ where
         }
 
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        self.arrow_head = ArrowHead { start, end: self.popped, is_async: false };
+
+        if only_params {
+            match *self.token() {
+                tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => {}
+                _ => bail!("Expected an arrow after parameters"),
+            }
+        }
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index db73e08..35c3f65 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -40,6 +40,8 @@ impl FromTokenizer for Test {
             tokens: Default::default(),
             index: 0,
             count: 0,
+            popped: 0,
+            arrow_head: Default::default(),
         };
 
         p.parse_module().unwrap();
@@ -60,6 +62,8 @@ impl FromTokenizer for () {
             tokens: Default::default(),
             index: 0,
             count: 0,
+            popped: 0,
+            arrow_head: Default::default(),
         };
 
         println!("starting");
@@ -158,6 +162,15 @@ struct GrammarFlags {
     expect_template: bool,
 }
 
+// The most recent identifier or parenthesized expression,
+// as the number of tokens consumed before and after it.
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
+struct ArrowHead {
+    start: usize,
+    end: usize,
+    is_async: bool,
+}
+
 #[derive(Debug)]
 pub struct Parser<'code, T: 'code>
 where
@@ -171,6 +184,12 @@ where
     index: u8,
     count: u8,
 
+    // Number of tokens consumed so far.
+    popped: usize,
+
+    // What may be an arrow function's parameters.
+    arrow_head: ArrowHead,
+
     // Track first location of non-object-literal single-name assignment
     // { foo = 4 } = {} -> allowed in patterns, not objects
     // cover_pattern
@@ -274,6 +293,7 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
 
         self.index = (self.index + 1) % 2;
         self.count -= 1;
+        self.popped += 1;
 
         // println!("{:?} {} {} => {:?}", tok, self.count, self.index, self.tokens);
 
-- 
2.43.0


From 6159e9c75735e9828aba28a1e7959f05703e3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 18/42] fix: yield takes one assignment expression, yield*
 requires it

---
 src/parser/expressions.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 17ac307..304fcac 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -156,10 +156,14 @@ where
         self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
+            let star = opt_value!(self.punc(tokens::PunctuatorToken::Star));
 
             self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let Some(_) = star {
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From a58e10f7e27f0a3767892c38219d495be4175e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 19/42] fix: await is an operator in the body of an async arrow
 function

---
 src/parser/expressions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 304fcac..3db2838 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -51,7 +51,7 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.with(Flag::Await).reify_arrow(())?);
 
                 return Ok(TokenResult::Some(()));
             }
@@ -82,6 +82,7 @@ where
 
         let line = !self.no_line_terminator();
         let is_arrow_head = self.arrow_head.start == start && self.arrow_head.end == self.popped;
+        let is_async_head = self.arrow_head.is_async && self.arrow_head.end != start + 1;
 
         let t = match *self.token() {
             tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => Reify::Arrow,
@@ -109,8 +110,11 @@ where
                     bail!("Unexpected arrow");
                 }
 
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                if is_async_head {
+                    self.with(Flag::Await).reify_arrow(left)?
+                } else {
+                    self.reify_arrow(left)?
+                }
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -438,12 +442,12 @@ where
                 }
                 LeftType::Call if allow_call => {
                     let head = self.arrow_head;
-                    let is_async = head.is_async && head.end == self.popped;
+                    let is_async = head.is_async && head.end == self.popped && head.end == head.start + 1;
 
                     eat_value!(self.parse_call_arguments()?);
 
                     if is_async {
-                        self.arrow_head = ArrowHead { start: head.start, end: self.popped, is_async: false };
+                        self.arrow_head = ArrowHead { start: head.start, end: self.popped, is_async: true };
                     }
                 }
                 LeftType::Computed => {
-- 
2.43.0


From 72989e3272e130a818262ea17f4432c6eae66552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 20/42] fix: 'let' declarators in a for head need no
 initializer

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e6cd8e0..34c5522 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -454,7 +454,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
-- 
2.43.0


From 2a2a48320be7c36161d628f4c8623a0db3967844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 21/42] fix: refuse modifiers without a method, and lone
 property names that are no identifiers, in object literals

---
 src/parser/classes.rs     | 29 +++++++++++++++++++++++++----
 src/parser/expressions.rs | 11 +++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index a1a9399..39135c8 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -81,7 +81,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -97,17 +97,32 @@ where
             opt_value!(self.punc(tokens::PunctuatorToken::Star))
         };
 
-        let is_ident = false;
+        // A name without any modifier may be followed by a colon, and if it is an identifier by nothing.
+        let mut is_plain = match (&stat, &kind, &star) {
+            (&None, &MethodKind::None, &None) => !async,
+            _ => false,
+        };
+        let flags = self.flags;
+        let mut is_ident = is_plain && match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
+                is_plain = stat.is_none();
+                is_ident = is_plain;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
+                is_plain = stat.is_none();
+                is_ident = is_plain;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -115,15 +130,19 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_plain = stat.is_none();
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_plain = stat.is_none();
                     },
                     (&Some(_), _, _) => {
                         stat = None;
+                        is_plain = true;
                     }
                     _ => return Ok(TokenResult::None),
                 }
+                is_ident = is_plain;
             }
         };
 
@@ -131,6 +150,7 @@ where
 
         Ok(TokenResult::Some(MethodHead {
             kind,
+            is_plain,
             is_ident,
             generator: star.is_some(),
             async,
@@ -192,7 +212,8 @@ pub enum MethodKind {
 #[derive(Debug)]
 pub struct MethodHead {
     kind: MethodKind,
-    is_ident: bool,
+    pub is_plain: bool,
+    pub is_ident: bool,
     generator: bool,
     async: bool,
 }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3db2838..d8a86d0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -706,13 +706,16 @@ where
         // TODO: Disallow static
         let head = try_value!(self.parse_method_head(true)?);
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+        let (is_plain, is_ident) = (head.is_plain, head.is_ident);
+
+        let has_value = is_plain && opt_value!(self.punc(tokens::PunctuatorToken::Colon)).is_some();
+        if has_value {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
-        } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
+        } else if is_ident {
             opt_value!(self.parse_method_tail(head)?);
+        } else {
+            eat_value!(self.parse_method_tail(head)?);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From d7ad781377aaf0756ca7ab7fba6bab68568f5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 22/42] fix: refuse static methods in object literals

---
 src/parser/expressions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d8a86d0..f25f7b7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -703,8 +703,7 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
 
         let (is_plain, is_ident) = (head.is_plain, head.is_ident);
 
-- 
2.43.0


From 4fccf129e2b8cd42fcdecfeb44de151ea6d8da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 23/42] fix: require a colon after property names in patterns
 that are no identifiers

---
 src/parser/statements.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 34c5522..5952fd8 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -195,10 +195,17 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let is_ident = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
+        } else if !is_ident {
+            bail!("Expected a colon after property name");
         } else {
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
-- 
2.43.0


From c5087706d92299e19499d8a751b3e1be2777046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 24/42] fix: require an expression before in or of in a for
 head

---
 src/parser/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5952fd8..9f694b5 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -478,9 +478,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left = opt_value!(self.without(Flag::In).parse_expression()?);
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left.is_some() /* tmp */)
             }
         };
 
-- 
2.43.0


From e475808d2d0cbe541154afd21b0bf9661216c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 25/42] fix: refuse a star after get and set

---
 src/parser/classes.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 39135c8..c833696 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -91,10 +91,9 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
         // A name without any modifier may be followed by a colon, and if it is an identifier by nothing.
-- 
2.43.0


From 67b36b1f518c54ab7fd69a88b4ef3f8c201ffa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 26/42] fix: only the exported declaration itself may go
 without a name

---
 src/parser/statements.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9f694b5..a18fa45 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -126,6 +126,7 @@ where
 
     pub fn parse_block_statement(&mut self) -> OptResult<()> {
         let mut parser = self.without(Flag::Template);
+        let mut parser = parser.without(Flag::Default);
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         let mut body = vec![];
-- 
2.43.0


From 65e5bfc02b37c58dd8fbefdc3b73f0db311ead59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 27/42] fix: an exported default is a single assignment
 expression

---
 src/parser/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 24fdfc5..f4f90fb 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -69,7 +69,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From 08d45f34ed5382bffd8a8f63baedb34f5a348253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 28/42] fix: 'in' in a for head takes a whole expression

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index a18fa45..bd98abe 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -531,7 +531,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From 7fad9ca21cce966610567b4e7a35310f1bf9b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 29/42] fix: the end of a template substitution is no operand
 of yield

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f25f7b7..ea6bd7f 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -558,7 +558,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From 795e241ed078681cd6b28f3a0d98af85ce6ee334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 30/42] fix: a setter's parameter may have a default value

---
 src/parser/classes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index c833696..ed48cb9 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -170,6 +170,7 @@ where
                 if let TokenResult::None = self.parse_binding_pattern()? {
                     eat_value!(self.binding_identifier());
                 }
+                opt_value!(self.with(Flag::In).parse_initializer()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
-- 
2.43.0


From 819ba36b36991a850e4cae0126c153a3eaa967d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 31/42] fix: a let declaration in a for head may declare 'of'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index bd98abe..1477792 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -431,7 +431,7 @@ where
         } else {
             let (maybe_decl, bracket) = if let Some(&LookaheadResult { line: _line, ref token }) = self.ident_lookahead() {
                 match *token {
-                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in" && name != "of", false),
+                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in", false),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => (true, true),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),
                     _ => (false, false),
-- 
2.43.0


From 324985e5c9c45459c30365cda55b347d792dc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 32/42] fix: new.target was never reached behind 'new'

---
 src/parser/expressions.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ea6bd7f..16c2b66 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -404,11 +404,14 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
+                eat_value!(self.keyword("target"));
+            } else {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-                self.parse_meta_property_expression()?,
                 self.parse_super_expression()?,
             ) {
                 return Ok(TokenResult::None);
@@ -502,13 +505,6 @@ where
         Ok(TokenResult::Some(()))
     }
 
-    fn parse_meta_property_expression(&mut self) -> OptResult<()> {
-        try_value!(self.keyword("new"));
-        eat_value!(self.punc(tokens::PunctuatorToken::Period));
-        eat_value!(self.keyword("target"));
-
-        Ok(TokenResult::Some(()))
-    }
     fn parse_super_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("super"));
 
-- 
2.43.0


From 3727f8c84418c3794dab4e60320a4532102278c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 33/42] fix: functions and classes can be exported like other
 declarations

---
 src/parser/module.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index f4f90fb..643974f 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -75,9 +75,7 @@ where
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
 
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
 
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
-- 
2.43.0


From e55ba27dfa37c295d8f69e48745b83b8ecf1b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 34/42] fix: arrow parameters may end with a comma

---
 src/parser/expressions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 16c2b66..8b9e259 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -772,8 +772,10 @@ where
                     }
                     only_params = true;
                     break;
-                } else {
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?)
+                } else if let TokenResult::None = self.with(Flag::In).parse_assignment_expression()? {
+                    // a trailing comma
+                    only_params = true;
+                    break;
                 }
             }
         } else {
-- 
2.43.0


From 102e683dd91800b3cbac0fae445a6d704a3d1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:36 +0000
Subject: [PATCH 35/42] fix: escaped characters do not end a piece of a
 template

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index c9c0ab3..0c50108 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -376,9 +376,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -654,9 +662,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From 88be6f271534caaa74eb4cb01ede77a0bcee965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:36 +0000
Subject: [PATCH 36/42] fix: a string may escape characters that need no escape

---
 src/tokenizer/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0c50108..a15f8f9 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -750,7 +750,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    // any other character stands for itself
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 84d983bb8175ec720292906a334640365789adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 37/42] fix: '-->' is a decrement and a comparison in a module

---
 src/tokenizer/slice.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a15f8f9..0d3c287 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -220,11 +220,8 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                // A module has no HTML-like comments, so '-->' is nothing special.
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From a2bceb134aab34114dec76b9a0c42b851a020ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 38/42] fix: require digits in an exponent

---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0d3c287..6af7a84 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -901,6 +901,10 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         i += 1;
     }
 
+    if i == offset {
+        panic!("missing digits");
+    }
+
     (sign * value, i)
 }
 
-- 
2.43.0


From 8ea848c5dde41fd59a9a0c59a28ea8c372a1a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 39/42] fix: read the exponent behind a zero

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 6af7a84..77fceb9 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -547,7 +547,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From f37513bf2b85d6cf169396a0fa2cdf34cfee6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 40/42] fix: only the line feed that belongs to an escaped line
 break may stand in a string

---
 src/tokenizer/slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 77fceb9..d2817ea 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -714,6 +714,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         // TODO: Build state transition tables for parsing escapes
 
+        let after_cr = ignore_nl;
+        ignore_nl = false;
+
         if in_escape == 1 {
             match b {
                 b'\r' => {
@@ -796,7 +799,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if after_cr => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From 642876da127662873c415d6d3e36c6ed0178e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:10 +0000
Subject: [PATCH 41/42] fix: a regular expression ends on its line

---
 src/tokenizer/slice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index d2817ea..9db8fc3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -607,9 +607,16 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    // Invalid regex
+                    panic!("regex with newlines")
+                }
+                b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
+                    // Invalid regex
+                    panic!("regex with newlines")
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From 0031a4788c2c5ac9f27f16f8ae8ffbf6f4d6e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:33 +0000
Subject: [PATCH 42/42] fix: accept file names that are not valid Unicode

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf44c77..25fa7b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -29,7 +29,7 @@ impl Drop for Framer {
 use std::fs::File;
 
 fn main() {
-    let mut it = std::env::args();
+    let mut it = std::env::args_os();
     let _name = it.next().unwrap();
     let filename = it.next().unwrap();
 
-- 
2.43.0

