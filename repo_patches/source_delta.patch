From f4c717b956ebada1ae150f44863c6fec2a807c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 01/38] sim: stream entry points for the deterministic
 simulator, behind cfg(giron_sim)

---
 giron/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/giron/src/lib.rs b/giron/src/lib.rs
index 7a5a7d2..38dc510 100644
--- a/giron/src/lib.rs
+++ b/giron/src/lib.rs
@@ -32,6 +32,25 @@ pub fn parse_script(source: String) -> Result<Node> {
     parser.parse_script()
 }
 
+/// Entry points for the deterministic simulator (built with `--cfg giron_sim`
+/// only): the source is a character stream that the simulator controls.
+#[cfg(giron_sim)]
+pub mod sim {
+    use crate::errors::result::Result;
+    use crate::estree::estree::Node;
+    use crate::parser::parser::Parser;
+
+    /// `parse_module`, reading from a character stream.
+    pub fn parse_module_from(source: &mut dyn Iterator<Item = char>) -> Result<Node> {
+        Parser::new(source).parse_module()
+    }
+
+    /// `parse_script`, reading from a character stream.
+    pub fn parse_script_from(source: &mut dyn Iterator<Item = char>) -> Result<Node> {
+        Parser::new(source).parse_script()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     #[test]
-- 
2.43.0


From bbd383689143a5767b17723987d61d377183b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/38] fix: return an error in the first token instead of
 panicking

---
 giron/src/parser/parser.rs   | 17 ++++++++++++++++-
 giron/src/scanner/scanner.rs | 18 ++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..feaa5f0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,7 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    first_token_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -83,7 +84,11 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        // An error in the very first token is reported when parsing starts.
+        let (current, first_token_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (scanner.eof_token(), Some(error)),
+        };
 
         Parser {
             scanner,
@@ -99,6 +104,14 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            first_token_error,
+        }
+    }
+
+    fn check_first_token(&mut self) -> Result<()> {
+        match self.first_token_error.take() {
+            Some(error) => Err(error),
+            None => Ok(()),
         }
     }
 
@@ -110,6 +123,7 @@ where
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
         self.goal = SyntaxGoal::Script;
+        self.check_first_token()?;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
         body.extend(self.parse_until_eof(&mut Self::parse_stmt_list_item)?);
@@ -124,6 +138,7 @@ where
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
         self.goal = SyntaxGoal::Module;
+        self.check_first_token()?;
         self.start_span();
         self.ctx.strict = true;
         let mut body = self.with_params(
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..8c9d495 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -981,6 +981,24 @@ where
         mem::replace(&mut self.raw_string, String::with_capacity(8))
     }
 
+    /// The token that stands for the end of the source.
+    pub fn eof_token(&self) -> Token {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num: self.line,
+            col: self.col,
+            start: self.start,
+            end: self.current,
+        }
+    }
+
     fn token(
         &mut self,
         tokentype: TokenType,
-- 
2.43.0


From cab1e4caba36a54f0f9040449ea2568d71f1de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 03/38] fix: no underflow when the source is empty

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8c9d495..4b622f5 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1022,7 +1022,7 @@ where
             line_num: self.line,
             col: self.col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current.saturating_sub(1),
         })
     }
 
-- 
2.43.0


From 7875eb65c65cacc5d300932289069072caa8bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/38] fix: parse import declarations without specifiers
 instead of panicking

---
 giron/src/parser/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index feaa5f0..1eaa6b5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -250,7 +250,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From eff3c2aa13227b05bc79a0b57a854f4dcb3e3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/38] fix: an unterminated template literal is an error, not
 a panic

---
 giron/src/scanner/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 4b622f5..946f347 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -654,7 +654,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
@@ -689,7 +689,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
-- 
2.43.0


From 6597ea0b3d8a063000fa8a3a0a29c0c1f29eb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 06/38] fix: no overflow on a code point escape that is out of
 range

---
 giron/src/scanner/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 946f347..e5c01b2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -209,10 +209,14 @@ where
                     })
                 })?
                 .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+                .fold(Some(0u32), |value, cp| {
+                    value?
+                        .checked_mul(16)?
+                        .checked_add(cp.to_digit(16).unwrap())
+                });
             // consume "}"
             self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
+            value.and_then(char::from_u32).ok_or(Error {
                 line: self.line,
                 col: self.col,
                 errortype: ErrorType::InvalidUnicodeEscapeSequence,
-- 
2.43.0


From 892dadf4ab0743ac1a85cedd255f8c2f908a2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 07/38] fix: no panic on a number or end of input where strict
 code needs a name

---
 giron/src/parser/syntax.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..db7c401 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -217,8 +217,11 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match &self.value {
+            Value::Str(s) => match &s[..] {
+                "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From 1f4cc6eb3532c60a3c463203df0139b44b9b4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 08/38] fix: a computed key without a value in a binding
 pattern is an error, not a panic

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1eaa6b5..4906f82 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2985,7 +2985,7 @@ where
                     }
                 }
             }
-            _ => panic!(),
+            _ => self.unexpected_current(),
         }
     }
 
-- 
2.43.0


From 324574a586aaf6d81881fc72bdf8046404609d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 09/38] fix: no underflow on an empty array pattern in arrow
 parameters

---
 giron/src/estree/estree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..9918ceb 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1262,7 +1262,7 @@ impl Node {
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let last_idx = elements.len().saturating_sub(1);
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-- 
2.43.0


From d6242e7170129177709d2471ecf40f9f57757b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 10/38] fix: a class as assignment target is an error, not a
 panic

---
 giron/src/estree/estree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 9918ceb..7ff6a0e 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -931,6 +931,7 @@ impl Node {
             Node::LogicalExpression { span, .. } => span,
             Node::CallExpression { span, .. } => span,
             Node::ClassExpression { span, .. } => span,
+            Node::ClassDeclaration { span, .. } => span,
             Node::ComputedMemberExpression { span, .. } => span,
             Node::ConditionalExpression { span, .. } => span,
             Node::Identifier { span, .. } => span,
-- 
2.43.0


From 12178292b93d1541ba707744bbdc39f5655e5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/38] fix: pop the span marker of a new expression only once

---
 giron/src/parser/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4906f82..82f9b0a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2481,7 +2481,8 @@ where
                     callee,
                     arguments,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    // the marker is popped by the call below
+                    span: self.peek_span(),
                 };
                 self.parse_call_expr_tail(callee)
             }
-- 
2.43.0


From dfec52d88f8baaf698f78be4d4f50c729b6269e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 12/38] fix: push a span marker for each nested binary
 expression

---
 giron/src/parser/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 82f9b0a..7a0dd92 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2119,10 +2119,13 @@ where
     fn precedence_climbing(&mut self, mut lhs: Node, prec: usize) -> Result<Node> {
         while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
             let op = self.advance(LexGoal::RegExp)?;
+            let rhs_start = self.current_marker();
             let mut rhs = self.parse_exponentiation_expr()?;
             while self.current.is_bin_op()
                 && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
             {
+                // the marker is popped by the recursive call
+                self.marker_stack.push(rhs_start.clone());
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
             lhs = Node::BinaryExpression {
@@ -4093,12 +4096,17 @@ where
         self.params = self.params_stack.pop().unwrap();
     }
 
-    fn start_span(&mut self) {
-        self.marker_stack.push(Marker {
+    fn current_marker(&self) -> Marker {
+        Marker {
             line: self.current.line_num,
             col: self.current.col,
             idx: self.current.start,
-        });
+        }
+    }
+
+    fn start_span(&mut self) {
+        let marker = self.current_marker();
+        self.marker_stack.push(marker);
     }
 
     fn end_span(&mut self) -> Span {
-- 
2.43.0


From 5ab48c9eff0d3178cfd70949b6ca52bbedfcb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 13/38] fix: an unterminated block comment is an error

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e5c01b2..3fb0250 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -71,7 +71,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -91,7 +91,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -105,8 +105,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -125,7 +125,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -133,12 +133,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
     }
-- 
2.43.0


From f47562c5eaeab8885d2252e83f60d572c74dddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 14/38] fix: no panic on a punctuator after async

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7a0dd92..4269887 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3754,7 +3754,7 @@ where
                 TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
                 TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
                 TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
+                TokenType::Template => Ok(id),
                 TokenType::Punctuator if self.current.matches_punc("(") => {
                     self.parse_async_call_or_arrow(Box::from(id))
                 }
-- 
2.43.0


From d0c22071d36595622dc3a852e0d2d469f099a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 15/38] fix: keep line and brace state of a token scanned ahead

---
 giron/src/scanner/scanner.rs | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 3fb0250..9872924 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -40,7 +40,7 @@ pub struct Scanner<I> {
     record_raw: bool,
     raw_string: String,
     curly_stack: Vec<Brace>,
-    unscanned: Option<Token>,
+    unscanned: Option<(Token, ScannerState)>,
     state: Option<ScannerState>,
 }
 
@@ -65,9 +65,9 @@ where
     }
 
     pub fn next(&mut self, goal: LexGoal) -> Result<Token> {
-        if let Some(_) = self.unscanned {
-            let token = mem::replace(&mut self.unscanned, None);
-            return Ok(token.unwrap());
+        if let Some((token, state)) = self.unscanned.take() {
+            self.set_state(state);
+            return Ok(token);
         }
 
         self.newline = false;
@@ -1058,34 +1058,44 @@ where
         //     raw_string: String,
         //     curly_stack: Vec<Brace>,
         // }
-        self.state = Some(ScannerState {
-            start: self.start,
-            current: self.current,
-            line: self.line,
-            col: self.col,
-            newline: self.newline,
-            raw_string: self.raw_string.clone(),
-            curly_stack: self.curly_stack.clone(),
-        });
+        self.state = Some(self.current_state());
     }
 
     pub fn restore_state(&mut self, token: Token) {
         let state = mem::replace(&mut self.state, None);
         match state {
             Some(state) => {
-                self.start = state.start;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
-                self.unscanned = Some(token);
+                // The effects of scanning the token (lines, braces) apply again
+                // once the token is handed out.
+                self.unscanned = Some((token, self.current_state()));
+                self.set_state(state);
             }
             None => panic!("Trying to restore an unsaved state."),
         }
     }
 
+    fn current_state(&self) -> ScannerState {
+        ScannerState {
+            start: self.start,
+            current: self.current,
+            line: self.line,
+            col: self.col,
+            newline: self.newline,
+            raw_string: self.raw_string.clone(),
+            curly_stack: self.curly_stack.clone(),
+        }
+    }
+
+    fn set_state(&mut self, state: ScannerState) {
+        self.start = state.start;
+        self.current = state.current;
+        self.line = state.line;
+        self.col = state.col;
+        self.newline = state.newline;
+        self.raw_string = state.raw_string;
+        self.curly_stack = state.curly_stack;
+    }
+
     fn error<T>(&self, errortype: ErrorType) -> Result<T> {
         Err(Error {
             line: self.line,
-- 
2.43.0


From eb7185b9d9cc2b5fa2e49a6a0f46c5c52da3baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 16/38] fix: a line continuation before the closing quote does
 not swallow the quote

---
 giron/src/scanner/scanner.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9872924..4e178e3 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -420,11 +420,25 @@ where
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
         }
 
-        let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
-            let (res, is_octal) = this.scan_string_literal_cp();
-            octal = octal || is_octal;
-            res
-        })?;
+        let mut value = String::new();
+        loop {
+            match self.peek2() {
+                (Some(cp), _) if cp == quote => break,
+                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+                    self.consume(); // consume "\"
+                    if let (Some('\r'), Some('\n')) = self.peek2() {
+                        self.consume(); // consume "\r" if <CR><LF>
+                    }
+                    self.consume(); // consume line terminator
+                }
+                (Some(_), _) => {
+                    let (res, is_octal) = self.scan_string_literal_cp();
+                    octal = octal || is_octal;
+                    value.push(res?);
+                }
+                (None, _) => break,
+            }
+        }
 
         self.expect(quote)?;
         self.token(
@@ -451,13 +465,6 @@ where
                     });
                     return (val, false);
                 }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
-                }
                 (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
                 (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
                 (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-- 
2.43.0


From f3415e0fda701d87d708a95951dc4883e0cf75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 17/38] fix: white space is what ECMAScript says, the byte
 order mark included

char::is_whitespace took precedence over the CodePoint method of the same
name, so U+FEFF was an error everywhere (also at the start of a source)
and U+0085 was skipped.
---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 4e178e3..f479c4e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -94,7 +94,7 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From d85c0c9a717039224eef0af35b8066a9de7a26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 18/38] fix: line terminators inside a token are not in front
 of it

A template or string token that spans lines was treated as preceded by a
line terminator, so e.g. a template after `throw` or `return` ended
the statement.
---
 giron/src/parser/parser.rs   | 3 +--
 giron/src/scanner/scanner.rs | 7 +++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4269887..d3029de 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4045,9 +4045,8 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.scanner.newline;
         Ok(token)
     }
 
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index f479c4e..f5d540f 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -73,7 +73,14 @@ where
         self.newline = false;
         self.scan_comments()?;
         self.start_new_token();
+        // Line terminators inside the token are not in front of it.
+        let newline = self.newline;
+        let token = self.scan_token(goal);
+        self.newline = newline;
+        token
+    }
 
+    fn scan_token(&mut self, goal: LexGoal) -> Result<Token> {
         match self.peek2() {
             (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
-- 
2.43.0


From dfaf5aecd80f839dd53eb10782235e396930d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 19/38] fix: an error at the current token is reported as such

Reporting one first scanned the following token, with the regular
expression goal, and when that failed its error was returned instead.
---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d3029de..03f3aea 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -4151,7 +4151,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4166,7 +4166,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
-- 
2.43.0


From 90eef6e8a692e91bd35206759f37f6e510ffaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 20/38] fix: a span reaches from the first to the last token of
 its node

Markers of sub-expressions stayed on the stack, so spans began at a token
inside of the node or in another one, member and nested binary expressions
began at their operator, and all spans ended after the token that follows.
---
 giron/src/parser/parser.rs | 125 +++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 48 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 03f3aea..5c7c707 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -74,6 +74,8 @@ pub struct Parser<I> {
     params: Params,
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
+    // where the token before the current one ends
+    prev_end: Marker,
     goal: SyntaxGoal,
     first_token_error: Option<Error>,
 }
@@ -103,6 +105,11 @@ where
             current,
             params_stack: vec![],
             marker_stack: vec![],
+            prev_end: Marker {
+                line: 1,
+                col: 1,
+                idx: 0,
+            },
             goal: SyntaxGoal::Ambiguous,
             first_token_error,
         }
@@ -753,8 +760,8 @@ where
 
     fn parse_expression_stmt(&mut self, expression: Box<Node>) -> Result<Node> {
         log!("parse_expression_stmt");
-        let span = self.end_span();
         self.consume_semicolon(LexGoal::RegExp)?;
+        let span = self.end_span();
         Ok(Node::ExpressionStatement { expression, span })
     }
 
@@ -865,10 +872,12 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
+                        self.end_span(); // not needed
                         self.parse_for_of_stmt(Box::from(id.to_node()?))
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // "var" (BindingIdentifier | BindingPattern) "in"
+                        self.end_span(); // not needed
                         self.parse_for_in_stmt(Box::from(id.to_node()?))
                     }
                     _ => {
@@ -947,10 +956,12 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // LetOrConst Binding "in" ...
+                        self.end_span(); // not needed
                         self.parse_for_in_stmt(Box::from(id.to_node()?))
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // LetOrConst Binding "of" ...
+                        self.end_span(); // not needed
                         self.parse_for_of_stmt(Box::from(id.to_node()?))
                     }
                     _ => {
@@ -990,13 +1001,13 @@ where
                 //     Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
                 // for "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of"
                 //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                self.start_span();
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(";") => {
                         return self.parse_for_classic_stmt(None)
                     }
                     _ => (),
                 }
+                self.start_span();
                 let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
@@ -1954,6 +1965,7 @@ where
                 span: self.end_span(),
             })
         } else {
+            self.end_span();
             Ok(expr)
         }
     }
@@ -1976,6 +1988,9 @@ where
         if let Node::Identifier { name, .. } = &lhs {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("=>") => {
+                    // the marker is popped by the call below
+                    let start = self.peek_span().start;
+                    self.marker_stack.push(start);
                     lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
                 }
                 _ => (),
@@ -2104,6 +2119,7 @@ where
                 span: self.end_span(),
             })
         } else {
+            self.end_span();
             Ok(expr)
         }
     }
@@ -2133,9 +2149,8 @@ where
                 left: Box::from(lhs),
                 right: Box::from(rhs),
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.peek_span(),
             };
-            self.start_span();
         }
         self.end_span();
         Ok(lhs)
@@ -2241,6 +2256,7 @@ where
                     span: self.end_span(),
                 })
             } else {
+                self.end_span();
                 Ok(expr)
             }
         }
@@ -2259,6 +2275,7 @@ where
         // CallExpression:
         //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
         //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
+        let start = self.current_marker();
         self.start_span();
         let callee = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
@@ -2273,10 +2290,10 @@ where
                         })
                     }
                     TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
+                        self.parse_computed_member_expr(object, start)
                     }
                     TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
+                        self.parse_static_member_expr(object, start)
                     }
                     _ => self.unexpected_current(),
                 }
@@ -2287,6 +2304,7 @@ where
     }
 
     fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
+        let start = self.peek_span().start;
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("(") => {
@@ -2298,10 +2316,10 @@ where
                     };
                 }
                 TokenType::Punctuator if self.current.matches_punc("[") => {
-                    callee = self.parse_computed_member_expr(callee)?;
+                    callee = self.parse_computed_member_expr(callee, start.clone())?;
                 }
                 TokenType::Punctuator if self.current.matches_punc(".") => {
-                    callee = self.parse_static_member_expr(callee)?;
+                    callee = self.parse_static_member_expr(callee, start.clone())?;
                 }
                 TokenType::Template if self.current.head == Some(true) => {
                     match self.parse_template_literal()? {
@@ -2317,7 +2335,10 @@ where
                                     quasis,
                                     expressions,
                                 },
-                                span,
+                                span: Span {
+                                    start: start.clone(),
+                                    end: span.end,
+                                },
                             };
                         }
                         _ => unreachable!(),
@@ -2339,15 +2360,16 @@ where
         // SuperProperty[Yield, Await]:
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
+        let start = self.current_marker();
         let mut expr = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
+                        self.parse_computed_member_expr(object, start.clone())
                     }
                     TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
+                        self.parse_static_member_expr(object, start.clone())
                     }
                     _ => self.unexpected_current(),
                 }
@@ -2357,10 +2379,10 @@ where
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
-                    expr = self.parse_computed_member_expr(expr)?
+                    expr = self.parse_computed_member_expr(expr, start.clone())?
                 }
                 TokenType::Punctuator if self.current.matches_punc(".") => {
-                    expr = self.parse_static_member_expr(expr)?
+                    expr = self.parse_static_member_expr(expr, start.clone())?
                 }
                 TokenType::Template if self.current.head == Some(true) => {
                     match self.parse_template_literal()? {
@@ -2376,7 +2398,10 @@ where
                                     quasis,
                                     expressions,
                                 },
-                                span,
+                                span: Span {
+                                    start: start.clone(),
+                                    end: span.end,
+                                },
                             };
                         }
                         _ => unreachable!(),
@@ -2388,24 +2413,24 @@ where
         Ok(expr)
     }
 
-    fn parse_computed_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_computed_member_expr(&mut self, object: Node, start: Marker) -> Result<Node> {
         log!("parse_computed_member_expr");
-        self.start_span();
         self.consume("[", LexGoal::RegExp)?;
-        let member_expr = Node::ComputedMemberExpression {
+        let property = Box::from(self.with_in(true, &mut Self::parse_expression)?);
+        self.consume("]", LexGoal::Div)?;
+        self.marker_stack.push(start);
+        Ok(Node::ComputedMemberExpression {
             computed: true,
             object: Box::from(object),
-            property: Box::from(self.with_in(true, &mut Self::parse_expression)?),
+            property,
             assign_target_type: "simple",
             span: self.end_span(),
-        };
-        self.consume("]", LexGoal::Div)?;
-        Ok(member_expr)
+        })
     }
 
-    fn parse_static_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_static_member_expr(&mut self, object: Node, start: Marker) -> Result<Node> {
         log!("parse_static_member_expr");
-        self.start_span();
+        self.marker_stack.push(start);
         self.consume(".", LexGoal::RegExp)?;
         self.start_span();
         let name = self.parse_id_name(LexGoal::Div)?;
@@ -2447,10 +2472,11 @@ where
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("target") => {
+                        self.start_span();
                         let property = Box::from(Node::Identifier {
                             name: self.advance(LexGoal::Div)?.value.string().unwrap(),
                             assign_target_type: "invalid",
-                            span: span.clone(),
+                            span: self.end_span(),
                         });
                         Ok(Node::MetaProperty {
                             meta: Box::from(Node::Identifier {
@@ -3751,10 +3777,18 @@ where
         let id = self.parse_id_reference()?;
         if !self.has_line_terminator {
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Template => Ok(id),
+                TokenType::Punctuator
+                    if self.current.matches_punc(";")
+                        || self.current.matches_punc(".")
+                        || self.current.matches_punc("[") =>
+                {
+                    self.end_span();
+                    Ok(id)
+                }
+                TokenType::Template => {
+                    self.end_span();
+                    Ok(id)
+                }
                 TokenType::Punctuator if self.current.matches_punc("(") => {
                     self.parse_async_call_or_arrow(Box::from(id))
                 }
@@ -4045,6 +4079,11 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
+        self.prev_end = Marker {
+            line: self.scanner.line,
+            col: self.scanner.col,
+            idx: self.scanner.current,
+        };
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
         self.has_line_terminator = self.scanner.newline;
         Ok(token)
@@ -4109,18 +4148,9 @@ where
     }
 
     fn end_span(&mut self) -> Span {
-        let start = match self.marker_stack.pop() {
-            Some(marker) => marker,
-            _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
-        };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
-        }
+        let span = self.peek_span();
+        self.marker_stack.pop();
+        span
     }
 
     fn peek_span(&mut self) -> Span {
@@ -4128,14 +4158,13 @@ where
             Some(marker) => marker.clone(),
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
-        }
+        // without any token, the span is empty
+        let end = if self.prev_end.idx < start.idx {
+            start.clone()
+        } else {
+            self.prev_end.clone()
+        };
+        Span { start, end }
     }
 
     // *******************************************************************
-- 
2.43.0


From 9bdc10d4c1ded74e3c819865082829aeee38061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 21/38] fix: columns count from the start of the line, and
 tokens stand where they begin

The column was set to 1 at the start of each token and the position of a token
was taken after it, so errors and spans named a column (and, for tokens over
several lines, a line) at which the token is not.
---
 giron/src/scanner/scanner.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index f5d540f..5c1cae6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -36,6 +36,9 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    // where the token begins
+    start_line: usize,
+    start_col: usize,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -55,6 +58,8 @@ where
             line: 1,
             col: 1,
             newline: false,
+            start_line: 1,
+            start_col: 1,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -986,8 +991,9 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
+        self.start_col = self.col;
     }
 
     fn start_recording(&mut self) {
@@ -1010,8 +1016,8 @@ where
             cooked: None,
             head: None,
             tail: None,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.start_line,
+            col: self.start_col,
             start: self.start,
             end: self.current,
         }
@@ -1037,8 +1043,8 @@ where
             cooked,
             head,
             tail,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.start_line,
+            col: self.start_col,
             start: self.start,
             end: self.current.saturating_sub(1),
         })
-- 
2.43.0


From 3c33464186dfaa9e2223d71f5828f00ef0684750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 22/38] fix: raw text of regular expressions and property keys,
 literal class member names

The raw text was that of the token that follows, and string and number names
of class members were not consumed, so that such classes were rejected.
---
 giron/src/parser/parser.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5c7c707..8562bb7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2591,13 +2591,12 @@ where
             TokenType::RegularExpression => {
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
+                let (pattern, flags) = (token.pattern.unwrap(), token.flags.unwrap());
+                let raw = format!("/{}/{}", pattern, flags.iter().collect::<String>());
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
-                    regex: Regex {
-                        pattern: token.pattern.unwrap(),
-                        flags: token.flags.unwrap(),
-                    },
+                    value: raw.clone(),
+                    raw,
+                    regex: Regex { pattern, flags },
                     assign_target_type: "invalid",
                     span: self.end_span(),
                 })
@@ -3488,9 +3487,8 @@ where
                     this.start_span();
                     let value = this.advance(LexGoal::RegExp)?.value;
                     Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
+                        raw: String::from(&value),
                         value,
-                        raw: String::from(&this.current.value),
                         span: this.end_span(),
                     }))
                 }
@@ -3573,10 +3571,11 @@ where
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let value = self.advance(LexGoal::Div)?.value;
                 Ok((
                     PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                        raw: String::from(&value),
+                        value,
                         span: self.end_span(),
                     }),
                     false,
-- 
2.43.0


From 924cc062e268b5232836291ba182bddacb67174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 23/38] fix: the span of a spread element ends before the comma

---
 giron/src/parser/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8562bb7..f470fea 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3746,12 +3746,13 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let span = this.end_span();
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
-                    span: this.end_span(),
+                    span,
                 })))
             }
             _ => {
-- 
2.43.0


From 057f6e29b70bcef4ffb0683644570067d2d876be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 24/38] fix: no line terminator may stand before the arrow of
 an arrow function

---
 giron/src/parser/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f470fea..3a36516 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2084,7 +2084,7 @@ where
 
     fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
-        self.consume("=>", LexGoal::RegExp)?;
+        self.consume_arrow()?;
         let (body, expression) = self.parse_arrow_body()?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
@@ -2612,7 +2612,7 @@ where
         let arguments = self.parse_arguments()?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=>") => {
-                self.advance(LexGoal::RegExp)?;
+                self.consume_arrow()?;
                 let (body, expression) = self.parse_arrow_body()?;
                 let params = self.arguments_to_params(arguments)?;
                 Ok(Node::AsyncArrowFunctionExpression {
@@ -2769,7 +2769,7 @@ where
     fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
-        self.consume("=>", LexGoal::RegExp)?;
+        self.consume_arrow()?;
         let (body, expression) = self.parse_arrow_body()?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
@@ -4111,6 +4111,15 @@ where
         }
     }
 
+    fn consume_arrow(&mut self) -> Result<()> {
+        // `no LineTerminator here` "=>"
+        if self.has_line_terminator {
+            return self.unexpected_current();
+        }
+        self.consume("=>", LexGoal::RegExp)?;
+        Ok(())
+    }
+
     fn consume_semicolon(&mut self, goal: LexGoal) -> Result<()> {
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(";") => {
-- 
2.43.0


From 28a5f3364bf0ebbf7004c1e0028133d394ee54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 25/38] fix: a return statement without operand may end before
 a closing brace

---
 giron/src/parser/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3a36516..4a0106b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1317,7 +1317,11 @@ where
         self.start_span();
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator
+                if self.current.matches_punc(";") || self.current.matches_punc("}") =>
+            {
+                None
+            }
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From 41c5a7fbaa8a6b0dba5cab546a282bdbc4d8f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:23 +0000
Subject: [PATCH 26/38] fix: the semicolon after a do-while statement may be
 left out before any token

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4a0106b..d064bcc 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1175,7 +1175,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // the semicolon of this statement is optional whatever follows
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
-- 
2.43.0


From 6ee9813313fdf4c6309805047491e325c557aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:35 +0000
Subject: [PATCH 27/38] fix: yield may stand without an operand on the same
 line

---
 giron/src/parser/parser.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d064bcc..4272c5d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2070,6 +2070,12 @@ where
                 TokenType::Punctuator if self.current.matches_punc("=>") => {
                     self.parse_single_param_arrow_function_expr(String::from("yield"))
                 }
+                _ if self.ends_expression() => Ok(Node::YieldExpression {
+                    argument: None,
+                    delegate: false,
+                    assign_target_type: "invalid",
+                    span: self.end_span(),
+                }),
                 _ => Ok(Node::YieldExpression {
                     argument: Some(Box::from(
                         self.with_yield(true, &mut Self::parse_assignment_expr)?,
@@ -2089,6 +2095,19 @@ where
         }
     }
 
+    /// Is the current token one that no expression starts with, but that may follow one?
+    fn ends_expression(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Eof => true,
+            TokenType::Punctuator => [";", ")", "]", "}", ",", ":"]
+                .iter()
+                .any(|punc| self.current.matches_punc(punc)),
+            TokenType::Keyword => self.current.matches_str("in"),
+            TokenType::Template => self.current.head != Some(true),
+            _ => false,
+        }
+    }
+
     fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume_arrow()?;
-- 
2.43.0


From 243823227447049dda6f5ca77a7ae76105216794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:54 +0000
Subject: [PATCH 28/38] fix: empty parentheses are no expression

---
 giron/src/parser/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 4272c5d..ab431bf 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2776,6 +2776,8 @@ where
                 }
             })?;
         self.consume(")", LexGoal::Div)?;
+        // "()" is no expression
+        definitely_arrow = definitely_arrow || expressions.is_empty();
         let assign_target_type = if expressions.len() == 1 {
             (&expressions[0]).assign_target_type()
         } else {
-- 
2.43.0


From 85822895c2bccf11f9da3d85ab55daffe966a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 29/38] fix: the remainder operator binds as tightly as * and /

---
 giron/src/parser/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index db7c401..b94cb58 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -162,7 +162,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
-- 
2.43.0


From 2869462ee421538ffc7ae3fa8745565f623ec120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:33 +0000
Subject: [PATCH 30/38] fix: a slash after a postfix operator, an object,
 function or class expression divides

---
 giron/src/parser/parser.rs   | 25 +++++++++++++++----------
 giron/src/scanner/scanner.rs |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ab431bf..5dee1a2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1598,14 +1598,19 @@ where
     }
 
     fn parse_function_body(&mut self) -> Result<Node> {
+        self.parse_function_body_before(LexGoal::RegExp)
+    }
+
+    // `goal` is the goal for the token that follows the body
+    fn parse_function_body_before(&mut self, goal: LexGoal) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
-        let res = self.with_return(true, &mut Self::parse_function_body_block);
+        let res = self.with_return(true, &mut |this| this.parse_function_body_block(goal));
         self.ctx.in_function = prev_in_function;
         res
     }
 
-    fn parse_function_body_block(&mut self) -> Result<Node> {
+    fn parse_function_body_block(&mut self, goal: LexGoal) -> Result<Node> {
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
@@ -1615,7 +1620,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", goal)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1638,12 +1643,12 @@ where
             }
             _ => unreachable!(),
         }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+        let res = self.parse_class_tail(Some(Box::from(id)), LexGoal::RegExp)?;
         self.ctx.strict = prev_strict;
         Ok(res)
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self, id: Option<Box<Node>>, goal: LexGoal) -> Result<Node> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
@@ -1663,7 +1668,7 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", goal)?;
         Ok(Node::ClassDeclaration {
             id,
             super_class,
@@ -2275,7 +2280,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
@@ -3222,7 +3227,7 @@ where
             _ if self.params.has_default => None,
             _ => return self.unexpected_current(),
         };
-        let res = self.parse_class_tail(id)?;
+        let res = self.parse_class_tail(id, LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(res)
     }
@@ -3262,7 +3267,7 @@ where
         Ok(Node::FunctionExpression {
             id,
             params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            body: Box::from(self.parse_function_body_before(LexGoal::Div)?),
             generator,
             expression: false,
             r#async,
@@ -3576,7 +3581,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 5c1cae6..e764dcc 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -8,7 +8,7 @@ use crate::token::value::Value;
 use std::char;
 use std::mem;
 
-#[derive(PartialEq)]
+#[derive(Clone, Copy, PartialEq)]
 pub enum LexGoal {
     Div,
     RegExp,
-- 
2.43.0


From 1dc78f472f0b904fb9d517d520d50753cfb0a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 31/38] fix: tails of new.target, and arguments of nested new

---
 giron/src/parser/parser.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5dee1a2..73e7fe6 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2392,7 +2392,7 @@ where
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
         let start = self.current_marker();
-        let mut expr = match self.current.tokentype {
+        let expr = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
                 match self.current.tokentype {
@@ -2407,6 +2407,10 @@ where
             }
             _ => self.parse_primary_expr(),
         }?;
+        self.parse_member_expr_tail(expr, start)
+    }
+
+    fn parse_member_expr_tail(&mut self, mut expr: Node, start: Marker) -> Result<Node> {
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
@@ -2495,6 +2499,13 @@ where
         //     callee: Box<Node>, // Expression
         //     arguments: Vec<ArgumentListElement>,
         // },
+        self.start_span();
+        let expr = self.parse_new_member_expr()?;
+        // the marker is popped by the call below
+        self.parse_call_expr_tail(expr)
+    }
+
+    fn parse_new_member_expr(&mut self) -> Result<Node> {
         self.start_span();
         let id = self.consume_kw("new", LexGoal::RegExp)?;
         let span = self.peek_span();
@@ -2523,28 +2534,27 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
-                let callee = Box::from(self.parse_member_expr()?);
+                let start = self.current_marker();
+                let callee = match self.current.tokentype {
+                    TokenType::Keyword if self.current.matches_str("new") => {
+                        let expr = self.parse_new_member_expr()?;
+                        self.parse_member_expr_tail(expr, start)?
+                    }
+                    _ => self.parse_member_expr()?,
+                };
                 let arguments = match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("(") => {
                         self.parse_arguments()?
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
-                    callee,
+                Ok(Node::NewExpression {
+                    callee: Box::from(callee),
                     arguments,
                     assign_target_type: "invalid",
-                    // the marker is popped by the call below
-                    span: self.peek_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                    span: self.end_span(),
+                })
             }
         }
     }
-- 
2.43.0


From 7bc48ae97752fee35b9d8642c75d5b8e8572c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 32/38] fix: a regular expression may begin a template
 substitution

---
 giron/src/parser/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 73e7fe6..bc0c4f4 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3174,7 +3174,7 @@ where
         match self.current.tokentype {
             TokenType::Template => match &self.current.head {
                 Some(true) => {
-                    let token = self.advance(LexGoal::Div)?;
+                    let token = self.advance_template()?;
                     Ok(TemplateElement {
                         value: TemplateElementValue {
                             cooked: token.cooked.unwrap(),
@@ -3189,11 +3189,19 @@ where
         }
     }
 
+    // an expression follows unless this is the last part of the template
+    fn advance_template(&mut self) -> Result<Token> {
+        match self.current.tail {
+            Some(true) => self.advance(LexGoal::Div),
+            _ => self.advance(LexGoal::RegExp),
+        }
+    }
+
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
             TokenType::Template => {
-                let token = self.advance(LexGoal::Div)?;
+                let token = self.advance_template()?;
                 Ok(TemplateElement {
                     value: TemplateElementValue {
                         cooked: token.cooked.unwrap(),
-- 
2.43.0


From 2a2b8cea9601c2c878840fc3cafe30ef7ed4db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:18 +0000
Subject: [PATCH 33/38] fix: a string or template that reads yield is not a
 yield expression

---
 giron/src/parser/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index bc0c4f4..e5b7cb0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1991,8 +1991,11 @@ where
         //     AsyncArrowFunction[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] "=" AssignmentExpression[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] AssignmentOperator AssignmentExpression[?In, ?Yield, ?Await]
-        if self.params.has_yield && self.current.matches_str("yield") {
-            return self.parse_yield_expr();
+        match self.current.tokentype {
+            TokenType::Keyword if self.params.has_yield && self.current.matches_str("yield") => {
+                return self.parse_yield_expr();
+            }
+            _ => (),
         }
         self.start_span();
         let mut lhs = self.parse_conditional_expr()?;
-- 
2.43.0


From e885746f2e7897bcf318f5ad8b11afe8e1334f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:18 +0000
Subject: [PATCH 34/38] fix: an expression that begins with a string may use
 the in operator

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e5b7cb0..81ecc25 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -171,7 +171,7 @@ where
             match self.current.tokentype {
                 TokenType::StringLiteral => {
                     self.start_span();
-                    let expr = self.parse_expression()?;
+                    let expr = self.with_in(true, &mut Self::parse_expression)?;
                     match &expr {
                         Node::Literal { value, .. }
                             if value == &Value::Str(String::from("use strict")) =>
-- 
2.43.0


From 56ac4af09e5c7f7e76a7243effb52331cda131af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:42 +0000
Subject: [PATCH 35/38] fix: names may hold ZWNJ and ZWJ

---
 giron/src/codepoint/codepoint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..8f89b91 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -43,6 +43,8 @@ impl CodePoint for char {
     fn is_identifier_continue(self) -> bool {
         match self {
             '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            // <ZWNJ> | <ZWJ>
+            '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
-- 
2.43.0


From 58c5165b45ccaea7f7401ddfff570ad1af9ab140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:44 +0000
Subject: [PATCH 36/38] fix: LS and PS may stand in a string

---
 giron/src/scanner/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e764dcc..2e743d0 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -492,7 +492,8 @@ where
                         false,
                     )
                 }
-                (Some(cp), _) if cp.is_line_terminator() => {
+                // <LS> and <PS> may stand in a string
+                (Some('\n'), _) | (Some('\r'), _) => {
                     return (
                         Err(Error {
                             line: self.line,
-- 
2.43.0


From 7daf7ac12c8ad10e8baa91cabb07d196fc2136c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:45 +0000
Subject: [PATCH 37/38] fix: a regular expression ends with its line

---
 giron/src/scanner/scanner.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2e743d0..5829c48 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -600,14 +600,21 @@ where
         let mut value = String::from("");
         loop {
             match self.peek() {
+                // a regular expression ends with its line
+                Some(cp) if cp.is_line_terminator() => {
+                    return self.error(ErrorType::InvalidOrUnexpectedToken)
+                }
                 Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
+                    let group = self.scan_until_with(
+                        |cp| cp == ']' || cp.is_line_terminator(),
+                        &mut |this| {
+                            this.consume().ok_or(Error {
+                                line: this.line,
+                                col: this.col,
+                                errortype: ErrorType::UnexpectedEOS,
+                            })
+                        },
+                    )?;
                     value.push_str(&group);
                 }
                 Some('\\') => {
@@ -616,6 +623,9 @@ where
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
+                    if self.peek().map_or(false, |cp| cp.is_line_terminator()) {
+                        return self.error(ErrorType::InvalidOrUnexpectedToken);
+                    }
                     value.push(self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
-- 
2.43.0


From 45f8da90acc13f8ed6ff11ff9155c3756c673436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:47 +0000
Subject: [PATCH 38/38] fix: an escaped bracket does not end a class of a
 regular expression

---
 giron/src/scanner/scanner.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 5829c48..4eeb29a 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -598,25 +598,13 @@ where
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
         let mut value = String::from("");
+        let mut in_class = false;
         loop {
             match self.peek() {
                 // a regular expression ends with its line
                 Some(cp) if cp.is_line_terminator() => {
                     return self.error(ErrorType::InvalidOrUnexpectedToken)
                 }
-                Some('[') => {
-                    let group = self.scan_until_with(
-                        |cp| cp == ']' || cp.is_line_terminator(),
-                        &mut |this| {
-                            this.consume().ok_or(Error {
-                                line: this.line,
-                                col: this.col,
-                                errortype: ErrorType::UnexpectedEOS,
-                            })
-                        },
-                    )?;
-                    value.push_str(&group);
-                }
                 Some('\\') => {
                     value.push(self.consume().ok_or(Error {
                         line: self.line,
@@ -632,13 +620,18 @@ where
                         errortype: ErrorType::UnexpectedEOS,
                     })?);
                 }
-                Some(cp) if cp == '/' => break,
+                Some(cp) if cp == '/' && !in_class => break,
                 Some(_) => {
                     let res = self.consume().ok_or(Error {
                         line: self.line,
                         col: self.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })?;
+                    match res {
+                        '[' => in_class = true,
+                        ']' => in_class = false,
+                        _ => (),
+                    }
                     value.push(res);
                 }
                 None => break,
-- 
2.43.0

