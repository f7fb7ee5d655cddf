From cd37c425fe5d3356d6d3f1ac41a3949e3c568dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 01/31] fix: do not panic on a heredoc body ending in a
 backslash at EOF

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..7299991 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1321,7 +1321,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special
+                        || (delim_close.is_some() && self.iter.peek() == delim_close.as_ref())
+                    {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 1018f7872450ee2260db787e900cb3c347738b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/31] fix: only strip leading tabs from <<- heredoc lines

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7299991..3f74c11 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1001,7 +1001,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
             'line: loop {
-                if strip_tabs {
+                // Only leading tabs are ever stripped, any tabs which
+                // come after some other text are part of the body.
+                if strip_tabs && line.is_empty() {
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-- 
2.43.0


From b09aa727590ed4e398028c4933204ab1318fb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/31] fix: account for peeked tokens in the upper bound of
 Lexer::size_hint

---
 src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..1746a60 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,12 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        let (low, num_peeked) = match self.peeked {
+            // An escape is yielded as two separate tokens
+            Some(Escaped(Some(_))) => (1, 2),
+            Some(_) => (1, 1),
+            None => (0, 0),
+        };
+        (low, hi.and_then(|hi| hi.checked_add(num_peeked)))
     }
 }
-- 
2.43.0


From 020a9b83a3ab9a3b6c3fa47358ff0f191077b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 04/31] fix: recognize -++x and +--x as a sign applied to an
 increment/decrement

---
 src/parse.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3f74c11..62d0f96 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2795,12 +2795,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
                     Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
@@ -2808,12 +2802,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             Dash  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
                     Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
-- 
2.43.0


From bd442f8d958304ef0d8908e6559ea1ea6988434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 05/31] fix: do not treat a word like +2 as a redirect's file
 descriptor

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 62d0f96..adeb911 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -721,7 +721,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,11 +733,20 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
 
+        // NB: `from_str_radix` on its own would also accept a leading `+`
+        fn parse_fd(s: &str) -> Option<u16> {
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         let (src_fd, src_fd_as_word) = match self.word_preserve_trailing_whitespace_raw()? {
             None => (None, None),
             Some(w) => match as_num(&w) {
-- 
2.43.0


From f43cf79affb61a27d47387a6e146add7ecfdda9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 06/31] fix: treat a # right after the = of an assignment as
 part of its value

---
 src/parse.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index adeb911..abb502f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -606,10 +606,14 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    let value = match self.iter.peek() {
+                        Some(&Whitespace(_)) => None,
+                        // A `#` here is in the middle of a word and does not start a comment
+                        Some(&Pound) => match self.word_fragments_raw(None)? {
+                            Some(w) => Some(self.builder.word(w)?),
+                            None => None,
+                        },
+                        _ => self.word()?,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1160,6 +1164,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_fragments_raw(delim)
+    }
+
+    /// Identical to `Parser::word_preserve_trailing_whitespace_raw_with_delim()` but
+    /// assumes that a word has already been started, i.e. a `#` will become a literal.
+    fn word_fragments_raw(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From d46c74e8dc4fa71f5ef57361975f8f1c48fb4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 07/31] fix: allow unbalanced quotes in a comment following a
 heredoc operator

---
 src/parse.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index abb502f..198f8bd 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -996,6 +996,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
+        let mut at_word_start = true;
+        let mut in_comment = false;
         while self.iter.peek().is_some() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
@@ -1003,9 +1005,23 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 break;
             }
 
+            // Quotes inside of a comment need not be balanced
+            in_comment |= at_word_start && self.iter.peek() == Some(&Pound);
+            if in_comment {
+                saved_tokens.extend(self.iter.next());
+                continue;
+            }
+
+            let start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            at_word_start = match saved_tokens.get(start) {
+                Some(&Backslash) => saved_tokens.last() == Some(&Newline),
+                Some(t) => t.is_word_delimiter(),
+                None => false,
+            };
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From fa630a1c0a842d0b45352f98c40b44da432836bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 08/31] fix: do not require parens within double quotes or ${}
 to be balanced

---
 src/parse/iter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..bca8dfe 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -449,6 +449,8 @@ pub struct Balanced<I> {
     stack: Vec<(Token, SourcePos)>,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
+    /// Indicates if the last yielded token was a `$` right before a paren.
+    after_dollar: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
     done: bool,
     /// The current position of the iterator.
@@ -470,6 +472,7 @@ impl<I: PositionIterator> Balanced<I> {
             escaped: None,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
+            after_dollar: false,
             done: false,
             pos: iter.pos(),
             iter,
@@ -555,7 +558,12 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                let after_dollar = mem::replace(&mut self.after_dollar, false);
+                match self.stack.last() {
+                    // Parens are not special here unless they start a substitution
+                    Some(&(DoubleQuote, _)) | Some(&(CurlyClose, _)) if !after_dollar => {}
+                    _ => self.stack.push((ParenClose, cur_pos)),
+                }
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +571,8 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    // Already handled by paren case above
+                    Some(&ParenOpen) => self.after_dollar = true,
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From c5abdb93e7bf934fac9487818ee5d3d9cb2fa9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/31] fix: reject a second ! even if it is preceded by
 whitespace

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 198f8bd..fef8b5a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -551,6 +551,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
+            self.skip_whitespace();
             if let Some(&Bang) = self.iter.peek() {
                 return Err(self.make_unexpected_err());
             }
-- 
2.43.0


From cb8396f55dcc2fb5174afd17a2ddd7b1cc54a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 10/31] fix: keep the backslash of a \" literal within a
 heredoc body

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index fef8b5a..8234a9a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1357,8 +1357,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 // Backslashes only escape a few tokens when double-quoted-type words
                 Some(Backslash) => {
                     let special = match self.iter.peek() {
-                        Some(&Dollar) | Some(&Backtick) | Some(&DoubleQuote) | Some(&Backslash)
-                        | Some(&Newline) => true,
+                        Some(&Dollar) | Some(&Backtick) | Some(&Backslash) | Some(&Newline) => true,
                         _ => false,
                     };
 
-- 
2.43.0


From 46bae8f963bcd076506d248ae2a52042bc740ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/31] fix: do not lose comments between a for variable and
 the ; before its body

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8234a9a..98ea67b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2055,7 +2055,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From 0f65a4cc805559e2f592ae9ebdb644ec8154d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 12/31] fix: report positions at the end of a heredoc body as
 its end and not its start

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 98ea67b..69b5324 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1027,8 +1027,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
         let heredoc_start_pos = self.iter.pos();
         let mut heredoc = Vec::new();
+        let mut heredoc_end_pos;
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
+            heredoc_end_pos = line_start_pos;
             let mut line = Vec::new();
             'line: loop {
                 // Only leading tabs are ever stripped, any tabs which
@@ -1108,7 +1110,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
             while let Some((line, pos)) = heredoc.pop() {
                 tok_iter.buffer_tokens_to_yield_first(line, pos);
             }
-- 
2.43.0


From 5fd8eba956ee7efa11cc1b1549bc59bbc6b3c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/31] fix: do not discard the remaining input after an error
 in a heredoc body

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 69b5324..d032210 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1117,8 +1117,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
-            let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
+            let body = self.word_interpolated_raw(None, heredoc_start_pos);
             let _ = mem::replace(&mut self.iter, tok_backup);
+            let mut body = body?;
 
             if body.len() > 1 {
                 Concat(body.into_iter().map(Simple).collect())
-- 
2.43.0


From c653891792a27ad1e646f551b04172a7decc32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 14/31] fix: reject a substitution like ${foo:} instead of
 ignoring the colon

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d032210..f4ad0ad 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1601,7 +1601,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let op = match self.iter.next() {
             Some(tok @ Dash) | Some(tok @ Equals) | Some(tok @ Question) | Some(tok @ Plus) => tok,
 
-            Some(CurlyClose) => return Ok(SimpleWordKind::Param(param)),
+            Some(CurlyClose) if !has_colon => return Ok(SimpleWordKind::Param(param)),
 
             Some(t) => return Err(ParseError::BadSubst(t, op_pos)),
             None => return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)),
-- 
2.43.0


From f41b83be1f49f96233c181525d98529fd3b7fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 15/31] fix: reject a function whose body is a subshell with no
 commands

---
 src/parse.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index f4ad0ad..8136cd3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1806,7 +1806,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     ) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         let start_pos = self.iter.pos();
         eat!(self, { ParenOpen => {} });
+        self.subshell_body(start_pos, empty_body_ok)
+    }
 
+    /// Parses the commands of a subshell, and its closing paren, assuming that
+    /// its opening paren (which appeared at `start_pos`) is already consumed.
+    fn subshell_body(
+        &mut self,
+        start_pos: SourcePos,
+        empty_body_ok: bool,
+    ) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         // Parens are always special tokens
         let body = self.command_group_internal(CommandGroupDelimiters {
             exact_tokens: &[ParenClose],
@@ -2314,12 +2323,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 None
             } else if Some(&ParenOpen) == self.iter.peek() {
                 // Otherwise it is possible for there to be a subshell as the body
-                let subshell = self.subshell_internal(true)?;
-                if subshell.commands.is_empty() && subshell.trailing_comments.is_empty() {
+                let start_pos = self.iter.pos();
+                eat!(self, { ParenOpen => {} });
+                self.skip_whitespace();
+                if let Some(&ParenClose) = self.iter.peek() {
                     // Case like `function foo () ...`
+                    self.iter.next();
                     None
                 } else {
                     // Case like `function foo (subshell)`
+                    let subshell = self.subshell_body(start_pos, false)?;
                     Some(self.builder.subshell(subshell, Vec::new())?)
                 }
             } else {
-- 
2.43.0


From e86dee38e6354defc6d332e160370079ec76a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 16/31] fix: permit assignments between the ? and : of an
 arithmetic ternary

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8136cd3..cb2ccc6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2690,7 +2690,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         self.skip_whitespace();
         eat_maybe!(self, {
             Question => {
-                let body = self.arith_ternary()?;
+                let body = self.arith_assig()?;
                 self.skip_whitespace();
                 eat!(self, { Colon => {} });
                 let els = self.arith_ternary()?;
-- 
2.43.0


From e15052355e8ffe3fe44ae64d10c0b7945120d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 17/31] fix: account for text after a newline embedded in a
 token when computing columns

---
 src/parse.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index cb2ccc6..cfcdc93 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -71,22 +71,18 @@ impl SourcePos {
 
     /// Increments self using the length of the provided token.
     pub fn advance(&mut self, next: &Token) {
-        let newlines = match *next {
-            // Most of these should not have any newlines
-            // embedded within them, but permitting external
-            // tokenizers means we should sanity check anyway.
-            Name(ref s) | Literal(ref s) | Whitespace(ref s) => {
-                s.chars().filter(|&c| c == '\n').count()
-            }
-
-            Newline => 1,
-            _ => 0,
-        };
-
         let tok_len = next.len();
+        // Most tokens should not have any newlines embedded
+        // within them, but permitting external tokenizers
+        // means we should sanity check anyway.
+        let newlines = next.as_str().matches('\n').count();
+
         self.byte += tok_len;
         self.line += newlines;
-        self.col = if newlines == 0 { self.col + tok_len } else { 1 };
+        self.col = match next.as_str().rfind('\n') {
+            Some(last_newline) => tok_len - last_newline,
+            None => self.col + tok_len,
+        };
     }
 
     /// Increments self by `num_tab` tab characters
-- 
2.43.0


From fecc4051d3738a5ba7d0f21fc9d4ed613942fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 18/31] fix: allow escaped newlines between a function's name
 and its parens

---
 src/parse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index cfcdc93..82c7d67 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2242,7 +2242,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
                 match peeked.peek_next() {
-                    Some(&Whitespace(_)) => Some(&ParenOpen) == peeked.peek_next(),
+                    Some(&Whitespace(_)) => loop {
+                        match peeked.peek_next() {
+                            Some(&ParenOpen) => break true,
+                            Some(&Whitespace(_)) => {}
+                            Some(&Backslash) => {
+                                if peeked.peek_next() != Some(&Newline) {
+                                    break false;
+                                }
+                            }
+                            _ => break false,
+                        }
+                    },
                     Some(&ParenOpen) => true,
                     _ => false,
                 }
-- 
2.43.0


From b0ac9326637630aaf364db5de93124f834edef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 19/31] fix: allow escaped newlines between a variable and = in
 arithmetic

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 82c7d67..2d0d586 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2636,6 +2636,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Some(&Name(_)) => loop {
                         match peeked.peek_next() {
                             Some(&Whitespace(_)) => continue, // Skip whitespace and peek next
+                            Some(&Backslash) => {
+                                if peeked.peek_next() == Some(&Newline) {
+                                    continue; // Escaped newlines are whitespace too
+                                }
+                            }
                             Some(&Star) | Some(&Slash) | Some(&Percent) | Some(&Plus)
                             | Some(&Dash) | Some(&DLess) | Some(&DGreat) | Some(&Amp)
                             | Some(&Pipe) | Some(&Caret) => {
-- 
2.43.0


From a28e3f7d3fd04fc4a6062692cee25ba10011b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 20/31] fix: parse $$ followed by a digit as the $$ parameter
 and a literal

---
 src/parse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2d0d586..28a79a4 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1450,6 +1450,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Ok(SimpleWordKind::Param(self.parameter_inner()?))
                 }
 
+                // The tokenizer groups a digit with the `$` directly in front of it, however,
+                // here that `$` completes a `$$`, and the digit is merely a literal.
+                Some(&ParamPositional(p)) => {
+                    let mut digit_pos = self.iter.pos();
+                    self.iter.next();
+                    digit_pos.advance(&Dollar);
+                    let digit = Literal(p.as_num().to_string());
+                    self.iter.buffer_tokens_to_yield_first(vec![digit], digit_pos);
+                    Ok(SimpleWordKind::Param(Parameter::Dollar))
+                }
+
                 Some(&ParenOpen) | Some(&CurlyOpen) => self.parameter_substitution_raw(),
 
                 _ => Ok(SimpleWordKind::Literal(Dollar.to_string())),
-- 
2.43.0


From af549856193293c4c0896d135d4007f0d860dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 21/31] fix: keep redirections after a function body given as a
 subshell without ()

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 28a79a4..e7cd38b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2351,7 +2351,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 } else {
                     // Case like `function foo (subshell)`
                     let subshell = self.subshell_body(start_pos, false)?;
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From 7b45110456e06838f5a41e153c076e2fcefb685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 22/31] fix: treat ! as a reserved word only when it is a
 complete word

---
 src/parse.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e7cd38b..3b5a249 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -537,18 +537,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     ///
     /// For example `[!] foo | bar`.
     pub fn pipeline(&mut self) -> ParseResult<B::ListableCommand, B::Error> {
-        self.skip_whitespace();
-        let bang = eat_maybe!(self, {
-            Bang => { true };
-            _ => { false },
-        });
+        let bang = self.reserved_bang();
+        if bang {
+            self.iter.next();
+        }
 
         let mut cmds = Vec::new();
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
-            self.skip_whitespace();
-            if let Some(&Bang) = self.iter.peek() {
+            if self.reserved_bang() {
                 return Err(self.make_unexpected_err());
             }
 
@@ -566,6 +564,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(self.builder.pipeline(bang, cmds)?)
     }
 
+    /// Checks if a stand alone `!` appears next (i.e. it is not merely part of a word).
+    fn reserved_bang(&mut self) -> bool {
+        self.peek_reserved_token(&[Bang]).is_some()
+    }
+
     /// Parses any compound or individual command.
     pub fn command(&mut self) -> ParseResult<B::PipeableCommand, B::Error> {
         if let Some(kw) = self.next_compound_command_type() {
-- 
2.43.0


From 92f508355db11df44aa31e938732aba92e854d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 23/31] fix: recognize positional parameters whose $ is escaped
 within backticks

---
 src/parse.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 3b5a249..ebbe306 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1464,6 +1464,21 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Ok(SimpleWordKind::Param(Parameter::Dollar))
                 }
 
+                // A `$` which was escaped within backticks has been tokenized on its own,
+                // we have to pair it with the digit that follows it ourselves.
+                Some(&Literal(ref s)) if s.starts_with(|c: char| c.is_ascii_digit()) => {
+                    let (digit, rest) = (s[..1].to_owned(), s[1..].to_owned());
+                    let mut rest_pos = self.iter.pos();
+                    self.iter.next();
+                    if !rest.is_empty() {
+                        rest_pos.advance(&Literal(digit.clone()));
+                        self.iter
+                            .buffer_tokens_to_yield_first(vec![Literal(rest)], rest_pos);
+                    }
+                    let num = u32::from_str(&digit).expect("a single digit");
+                    Ok(SimpleWordKind::Param(Parameter::Positional(num)))
+                }
+
                 Some(&ParenOpen) | Some(&CurlyOpen) => self.parameter_substitution_raw(),
 
                 _ => Ok(SimpleWordKind::Literal(Dollar.to_string())),
-- 
2.43.0


From ca43df4b207b30ee970f5fdd83873975879d8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 24/31] fix: keep exact positions in heredocs and nested
 substitutions within backticks

---
 src/parse.rs      | 59 ++++++++++++++++++++++-----------
 src/parse/iter.rs | 84 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 105 insertions(+), 38 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index ebbe306..9ac1215 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -10,7 +10,8 @@ use std::iter::empty as empty_iter;
 use std::mem;
 use std::str::FromStr;
 
-use self::iter::{PeekableIterator, PositionIterator, TokenIter, TokenIterWrapper, TokenIterator};
+use self::iter::{PeekableIterator, PositionIterator, PositionedTokens};
+use self::iter::{TokenIter, TokenIterWrapper, TokenIterator};
 use crate::ast::builder::ComplexWordKind::{self, Concat, Single};
 use crate::ast::builder::WordKind::{self, DoubleQuoted, Simple, SingleQuoted};
 use crate::ast::builder::{self, Builder, SimpleWordKind};
@@ -994,43 +995,57 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // heredocs, especially if we want to keep the builder unaware of our
         // shenanigans (since it *could* be keeping some internal state of what
         // we feed it).
-        let saved_pos = self.iter.pos();
-        let mut saved_tokens = Vec::new();
+        let mut saved_tokens = PositionedTokens::new();
         let mut at_word_start = true;
         let mut in_comment = false;
         while self.iter.peek().is_some() {
+            let pos = self.iter.pos();
+
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
-                saved_tokens.push(self.iter.next().unwrap());
+                saved_tokens.push(self.iter.next().unwrap(), pos);
                 break;
             }
 
             // Quotes inside of a comment need not be balanced
             in_comment |= at_word_start && self.iter.peek() == Some(&Pound);
             if in_comment {
-                saved_tokens.extend(self.iter.next());
+                saved_tokens.push(self.iter.next().unwrap(), pos);
                 continue;
             }
 
-            let start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            let mut tokens = Vec::new();
+            let mut balanced = self.iter.balanced();
+            loop {
+                let pos = balanced.pos();
+                match balanced.next() {
+                    Some(t) => tokens.push((try_map!(t), pos)),
+                    None => break,
+                }
             }
 
-            at_word_start = match saved_tokens.get(start) {
-                Some(&Backslash) => saved_tokens.last() == Some(&Newline),
-                Some(t) => t.is_word_delimiter(),
+            at_word_start = match tokens.first() {
+                Some(&(Backslash, _)) => match tokens.last() {
+                    Some(&(ref t, _)) => *t == Newline,
+                    None => false,
+                },
+                Some(&(ref t, _)) => t.is_word_delimiter(),
                 None => false,
             };
+
+            for (t, pos) in tokens {
+                saved_tokens.push(t, pos);
+            }
         }
 
         let heredoc_start_pos = self.iter.pos();
-        let mut heredoc = Vec::new();
+        let mut heredoc = PositionedTokens::new();
         let mut heredoc_end_pos;
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             heredoc_end_pos = line_start_pos;
             let mut line = Vec::new();
+            let mut line_pos = Vec::new();
             'line: loop {
                 // Only leading tabs are ever stripped, any tabs which
                 // come after some other text are part of the body.
@@ -1042,6 +1057,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                         if !stripped.is_empty() {
                             line.push(Whitespace(stripped.to_owned()));
+                            line_pos.push(line_start_pos);
                         }
 
                         true
@@ -1054,6 +1070,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     }
                 }
 
+                let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
@@ -1091,28 +1108,32 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                         if next == Some(Newline) {
                             line.push(Newline);
+                            line_pos.push(pos);
                         }
                         break 'line;
                     }
 
-                    Some(t) => line.push(t),
+                    Some(t) => {
+                        line.push(t);
+                        line_pos.push(pos);
+                    }
                 }
             }
 
-            heredoc.push((line, line_start_pos));
+            for (t, pos) in line.into_iter().zip(line_pos) {
+                heredoc.push(t, pos);
+            }
         }
 
         self.iter
-            .buffer_tokens_to_yield_first(saved_tokens, saved_pos);
+            .buffer_positioned_tokens_to_yield_first(saved_tokens);
 
         let body = if quoted {
-            let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
+            let body = heredoc.into_tokens();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
             let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
-            }
+            tok_iter.buffer_positioned_tokens_to_yield_first(heredoc);
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index bca8dfe..8022bad 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -111,6 +111,43 @@ pub trait TokenIterator: Sized + PeekablePositionIterator<Item = Token> {
     }
 }
 
+/// A list of tokens along with the positions where they appear in the source, which
+/// may not be adjacent if some tokens have been removed (e.g. \ when unescaping).
+#[derive(Debug)]
+pub struct PositionedTokens {
+    /// Groups of adjacent tokens and the position of the first one.
+    chunks: Vec<(Vec<Token>, SourcePos)>,
+    /// The position right after the last token.
+    end: Option<SourcePos>,
+}
+
+impl PositionedTokens {
+    /// Creates an empty list.
+    pub fn new() -> Self {
+        PositionedTokens {
+            chunks: Vec::new(),
+            end: None,
+        }
+    }
+
+    /// Adds a token which appears at the specified position.
+    pub fn push(&mut self, tok: Token, pos: SourcePos) {
+        let mut end = pos;
+        end.advance(&tok);
+
+        match self.chunks.last_mut() {
+            Some(&mut (ref mut chunk, _)) if self.end == Some(pos) => chunk.push(tok),
+            _ => self.chunks.push((vec![tok], pos)),
+        }
+        self.end = Some(end);
+    }
+
+    /// Consumes the list, yielding only its tokens.
+    pub fn into_tokens(self) -> Vec<Token> {
+        self.chunks.into_iter().flat_map(|(t, _)| t).collect()
+    }
+}
+
 /// Convenience trait for `Token` iterators which could be "rewound" so that
 /// they can yield tokens that were already pulled out of their stream.
 trait RewindableTokenIterator {
@@ -286,6 +323,14 @@ impl<I: Iterator<Item = Token>> TokenIter<I> {
         self.buffer_tokens_and_positions_to_yield_first(tokens, Some(buf_start));
     }
 
+    /// Identical to `buffer_tokens_to_yield_first`, except each token will be
+    /// yielded at the position it was found.
+    pub fn buffer_positioned_tokens_to_yield_first(&mut self, mut tokens: PositionedTokens) {
+        while let Some((chunk, start)) = tokens.chunks.pop() {
+            self.buffer_tokens_to_yield_first(chunk, start);
+        }
+    }
+
     /// Collects all tokens yielded by `TokenIter::backticked_remove_backslashes`
     /// and creates a `TokenIter` which will yield the collected tokens, and maintain
     /// the correct position of where each token appears in the original source,
@@ -418,6 +463,18 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
         }
     }
 
+    /// Delegates to `TokenIter::buffer_positioned_tokens_to_yield_first`.
+    pub fn buffer_positioned_tokens_to_yield_first(&mut self, tokens: PositionedTokens) {
+        match *self {
+            TokenIterWrapper::Regular(ref mut inner) => {
+                inner.buffer_positioned_tokens_to_yield_first(tokens)
+            }
+            TokenIterWrapper::Buffered(ref mut inner) => {
+                inner.buffer_positioned_tokens_to_yield_first(tokens)
+            }
+        }
+    }
+
     /// Delegates to `TokenIter::token_iter_from_backticked_with_removed_backslashes`.
     pub fn token_iter_from_backticked_with_removed_backslashes(
         &mut self,
@@ -644,45 +701,34 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        let mut tokens = PositionedTokens::new();
 
         loop {
+            let cur_pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
-                        }
+                        | Some(Ok(tok @ Backslash)) => tokens.push(tok, next_pos),
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            tokens.push(Backslash, cur_pos);
+                            tokens.push(tok?, next_pos);
                         }
 
-                        None => chunk.push(Backslash),
+                        None => tokens.push(Backslash, cur_pos),
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
+                Some(tok) => tokens.push(tok?, cur_pos),
                 None => break,
             }
         }
 
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
-
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
+        tok_iter.buffer_positioned_tokens_to_yield_first(tokens);
         Ok(tok_iter)
     }
 }
-- 
2.43.0


From 4208e50e64dc4ba1477914de2ef033f08a9a10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 25/31] fix: merge literals within double quotes which are only
 a part of a word

---
 src/ast/builder/default_builder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index a4244ba..98c9314 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -793,13 +793,18 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
         }
     }
 
-    match word {
-        Single(s) => Single(match s {
+    fn coalesce_quoted<C>(word: WordKind<C>) -> WordKind<C> {
+        match word {
             s @ Simple(_) | s @ SingleQuoted(_) => s,
             DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
-        }),
+        }
+    }
+
+    match word {
+        Single(s) => Single(coalesce_quoted(s)),
         Concat(v) => {
-            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word).collect();
+            let words = v.into_iter().map(coalesce_quoted);
+            let mut body: Vec<_> = Coalesce::new(words, coalesce_word).collect();
             if body.len() == 1 {
                 Single(body.pop().unwrap())
             } else {
-- 
2.43.0


From f8277e8daf78fb3a36601d258607d25a584c1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 26/31] fix: do not treat the second half of $$ as the start of
 a substitution on heredoc lines

---
 src/parse/iter.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 8022bad..93ea03e 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -508,6 +508,8 @@ pub struct Balanced<I> {
     skip_last_delimeter: bool,
     /// Indicates if the last yielded token was a `$` right before a paren.
     after_dollar: bool,
+    /// Indicates if the last yielded token was the first half of a `$$` parameter.
+    in_dollar_param: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
     done: bool,
     /// The current position of the iterator.
@@ -530,6 +532,7 @@ impl<I: PositionIterator> Balanced<I> {
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
             after_dollar: false,
+            in_dollar_param: false,
             done: false,
             pos: iter.pos(),
             iter,
@@ -624,12 +627,19 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 Some(Ok(ParenOpen))
             }
 
+            // The second half of `$$` does not start any substitution
+            Some(Dollar) if mem::replace(&mut self.in_dollar_param, false) => {
+                self.done |= self.stack.is_empty();
+                Some(Ok(Dollar))
+            }
+
             Some(Dollar) => {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
                     // Already handled by paren case above
                     Some(&ParenOpen) => self.after_dollar = true,
+                    Some(&Dollar) => self.in_dollar_param = true,
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From b06359ba784f11b5f7e978340807121b299d45f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 27/31] fix: accept shifts by a negated amount such as 1<<-1 in
 arithmetic

---
 src/parse.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9ac1215..328d402 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2854,13 +2854,35 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(expr)
     }
 
-    arith_parse!(
-        /// Parses expressions such as `expr << expr` or `expr >> expr`.
-        fn arith_shift,
-        arith_add,
-        DLess  => ast::Arithmetic::ShiftLeft,
-        DGreat => ast::Arithmetic::ShiftRight
-    );
+    /// Parses expressions such as `expr << expr` or `expr >> expr`.
+    #[inline]
+    fn arith_shift(&mut self) -> ParseResult<DefaultArithmetic, B::Error> {
+        let mut expr = self.arith_add()?;
+        loop {
+            self.skip_whitespace();
+
+            // There are no heredocs here, `<<-` is a shift by a negative amount.
+            if let Some(&DLessDash) = self.iter.peek() {
+                let pos = self.iter.pos();
+                self.iter.next();
+                self.iter
+                    .buffer_tokens_to_yield_first(vec![DLess, Dash], pos);
+            }
+
+            eat_maybe!(self, {
+                DLess => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                },
+                DGreat => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftRight(Box::new(expr), Box::new(next));
+                };
+                _ => { break },
+            });
+        }
+        Ok(expr)
+    }
 
     arith_parse!(
         /// Parses expressions such as `expr + expr` or `expr - expr`.
-- 
2.43.0


From c819c0ad14a37114a29735f227fc1e5b52d903e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 28/31] fix: recognize reserved words followed by an escaped
 newline

Escaped newlines are skipped as whitespace everywhere, but a reserved word
(or `{`, `}`, `!`, or the `-` of `>&-`) directly followed by one was taken
for a plain word, so e.g. `if foo; then\<newline> bar; fi` was rejected.
---
 src/parse.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 328d402..3b85fbe 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -10,7 +10,7 @@ use std::iter::empty as empty_iter;
 use std::mem;
 use std::str::FromStr;
 
-use self::iter::{PeekableIterator, PositionIterator, PositionedTokens};
+use self::iter::{Multipeek, PeekableIterator, PositionIterator, PositionedTokens};
 use self::iter::{TokenIter, TokenIterWrapper, TokenIterator};
 use crate::ast::builder::ComplexWordKind::{self, Concat, Single};
 use crate::ast::builder::WordKind::{self, DoubleQuoted, Simple, SingleQuoted};
@@ -2503,12 +2503,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 };
 
                 if let ret @ Some(_) = found_tok {
-                    let found_delim = match peeked.peek_next() {
-                        Some(delim) => delim.is_word_delimiter(),
-                        None => true, // EOF is also a valid delimeter
-                    };
-
-                    if found_delim {
+                    if peeks_delimiter(&mut peeked) {
                         return ret;
                     }
                 }
@@ -2543,10 +2538,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             _ => None,
         };
 
-        match peeked.peek_next() {
-            Some(delim) if delim.is_word_delimiter() => found_tok,
-            None => found_tok, // EOF is a valid delimeter
-            _ => None,
+        if found_tok.is_some() && peeks_delimiter(&mut peeked) {
+            found_tok
+        } else {
+            None
         }
     }
 
@@ -3045,6 +3040,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     }
 }
 
+/// Checks if the next token to be peeked delimits a word. Just like regular
+/// whitespace, escaped newlines do so as well, and so does EOF.
+fn peeks_delimiter(peeked: &mut Multipeek<'_>) -> bool {
+    match peeked.peek_next() {
+        Some(&Backslash) => peeked.peek_next() == Some(&Newline),
+        Some(delim) => delim.is_word_delimiter(),
+        None => true,
+    }
+}
+
 fn concat_tokens(tokens: &[Token]) -> String {
     let len = tokens.iter().fold(0, |len, t| len + t.len());
     let mut s = String::with_capacity(len);
-- 
2.43.0


From 11450c1618d1a47115d06d41d6e3cf8596b6811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:44 +0000
Subject: [PATCH 29/31] fix: allow an escaped newline right after a function's
 name

Escaped newlines are skipped as whitespace everywhere else, but e.g.
`function foo\<newline> { bar; }` was rejected.
---
 src/parse.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3b85fbe..5c0bd22 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2291,21 +2291,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let is_fn = {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
-                match peeked.peek_next() {
-                    Some(&Whitespace(_)) => loop {
-                        match peeked.peek_next() {
-                            Some(&ParenOpen) => break true,
-                            Some(&Whitespace(_)) => {}
-                            Some(&Backslash) => {
-                                if peeked.peek_next() != Some(&Newline) {
-                                    break false;
-                                }
+                loop {
+                    match peeked.peek_next() {
+                        Some(&ParenOpen) => break true,
+                        Some(&Whitespace(_)) => {}
+                        Some(&Backslash) => {
+                            if peeked.peek_next() != Some(&Newline) {
+                                break false;
                             }
-                            _ => break false,
                         }
-                    },
-                    Some(&ParenOpen) => true,
-                    _ => false,
+                        _ => break false,
+                    }
                 }
             } else {
                 false
@@ -2368,8 +2364,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             // Do nothing, function declaration satisfied
             None
         } else {
-            // Enforce at least one whitespace between function declaration and body
-            eat!(self, { Whitespace(_) => {} });
+            // Enforce at least one whitespace (or escaped newline)
+            // between function declaration and body
+            let found_escaped_newline = {
+                let mut peeked = self.iter.multipeek();
+                peeked.peek_next() == Some(&Backslash) && peeked.peek_next() == Some(&Newline)
+            };
+
+            if !found_escaped_newline {
+                eat!(self, { Whitespace(_) => {} });
+            }
             self.skip_whitespace();
 
             // If we didn't find the function keyword, we MUST find `()` at this time
-- 
2.43.0


From b88c5f04896be718449082a50335cee2370a457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 30/31] fix: don't assign a word which follows an assignment
 and a blank

In `foo=\<newline> bar` the escaped newline and the blank after it were both
skipped, and `bar` became the value assigned to `foo` instead of the command.
---
 src/parse.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 5c0bd22..01bbf88 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -607,6 +607,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
+                    // Any whitespace after an escaped newline still ends the assignment
+                    while {
+                        let mut peeked = self.iter.multipeek();
+                        peeked.peek_next() == Some(&Backslash)
+                            && peeked.peek_next() == Some(&Newline)
+                    } {
+                        self.iter.next();
+                        self.iter.next();
+                    }
+
                     let value = match self.iter.peek() {
                         Some(&Whitespace(_)) => None,
                         // A `#` here is in the middle of a word and does not start a comment
-- 
2.43.0


From 567c9fabd3e18857f841fc671b7467713a522cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 31/31] fix: end a heredoc's delimiter at an escaped newline

Escaped newlines delimit words just like whitespace, but in
`cat <<EOF\<newline> >out` the newline became a part of the delimiter,
and the body went on until the end of the input.
---
 src/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 01bbf88..75d2024 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -893,11 +893,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // Normally parens are never part of words, but many
             // shells permit them to be part of a heredoc delimeter.
-            if let Some(t) = self.iter.peek() {
-                if t.is_word_delimiter() && t != &ParenOpen {
-                    break;
-                }
-            } else {
+            let found_delim = {
+                let mut peeked = self.iter.multipeek();
+                peeked.peek_next() != Some(&ParenOpen)
+            } && peeks_delimiter(&mut self.iter.multipeek());
+
+            if found_delim {
                 break;
             }
 
-- 
2.43.0

