From 43a774dadd7f7deddb6ad7af02b4f85de6e68dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 01/16] fix: parser lookahead skips exactly the trivia that
 Lexer::bump skips

---
 crates/parser/src/grammar/paths.rs |  2 +-
 crates/parser/src/lexer.rs         | 38 +++++++++++++-----------------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..a5fd6e8 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -27,16 +27,22 @@ pub struct Lexer<'t> {
 }
 
 impl<'t> Lexer<'t> {
+    // Look ahead to the n-th token after the current one without advancing the state of the
+    // lexer. Skips exactly the tokens that `bump` skips.
     pub(crate) fn lookahead_nth(&self, n: usize) -> Token {
-        if n == 0 {
-            self.current()
-        } else if n == 1 {
-            self.lookahead()
-        } else if n == 2 {
-            self.lookahead_2().1
-        } else {
-            todo!()
+        let mut token = self.current();
+        let mut offset = self.cur_end;
+        for _ in 0..n {
+            loop {
+                let (kind, len) = find_token(&self.text[offset..]);
+                offset += len;
+                token = Token::new(kind, len);
+                if !kind.is_trivia() {
+                    break;
+                }
+            }
         }
+        token
     }
 }
 
@@ -92,25 +98,13 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.lookahead_nth(1)
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
     // the state of the lexer.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
-
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+        (self.lookahead_nth(1), self.lookahead_nth(2))
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From 706dd49887ca31cf5e2b0628210a37410495de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/16] fix: lexer yields ERROR tokens instead of panicking,
 and byte-string length is in bytes

---
 crates/parser/src/lexer.rs | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index a5fd6e8..0c5b232 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -198,19 +198,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 let line = &text.lines().next().unwrap()[2..];
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
-                    None => {
-                        todo!()
-                        // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
-                        // return todo!()
-                        // return Err(diag!(
-                        //     if is_hex {
-                        //         Syntax::InvalidHexString
-                        //     } else {
-                        //         Syntax::InvalidByteString
-                        //     },
-                        //     (loc, "Missing closing quote (\") after byte string")
-                        // ));
-                    }
+                    // Missing closing quote
+                    None => (ERROR, 2 + line.len()),
                 }
             } else {
                 let len = get_name_len(text);
@@ -300,15 +289,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '}' => (R_BRACE, 1),
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
-        _ => {
-            todo!()
-            // let loc = make_loc(file, start_offset, start_offset);
-            // return todo!()
-            // return Err(diag!(
-            //     Syntax::InvalidCharacter,
-            //     (loc, format!("Invalid character: '{}'", c))
-            // ));
-        }
+        _ => (ERROR, c.len_utf8()),
     };
 
     (tok, len)
@@ -356,18 +337,14 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
 
 // Return the length of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
-    let mut pos = 0;
-    let mut iter = text.chars();
-    while let Some(chr) = iter.next() {
+    let mut iter = text.char_indices();
+    while let Some((pos, chr)) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
-            }
+            iter.next();
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
     }
     None
 }
-- 
2.43.0


From 361fdd9bea15061819b2f597d8e84c9955d37777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 03/16] fix: Lexer::bump does not recurse once per trivia token

---
 crates/parser/src/lexer.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 0c5b232..8a53208 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -109,20 +109,14 @@ impl<'t> Lexer<'t> {
 
     pub fn bump(&mut self) {
         self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            self.cur_start = self.cur_end;
+            let (kind, len) = find_token(&self.text[self.cur_end..]);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
-        // self.cur_end = self.cur_start + len;
-        // let token = Token::new(kind, len);
-        // self.all_tokens.push(token.clone());
-        // self.token = token
     }
 
     fn advance_with_token(&mut self, kind: SyntaxKind, len: usize) {
-- 
2.43.0


From 6270f8394b8077fc3d1f1b6737e9e7bf58996dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/16] fix: the parser's stuck detector counts steps since the
 last consumed token, not per file

---
 crates/parser/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..5090d3b 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -264,6 +264,7 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From 67e3fa796174947efab1f9f947e415806b023187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/16] fix: parser loops forever on an unexpected top-level
 token

---
 crates/parser/src/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..ff76fc7 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -72,7 +72,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
-- 
2.43.0


From 70cd5f20acfa585ef8e880adeb9ae2f0cdd957fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/16] fix: parser loops forever on a non-item inside a module
 or script

---
 crates/parser/src/grammar/items.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..9209d02 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -117,9 +117,11 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
-    // } else if p.at(T!['}']) && !stop_on_r_curly {
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
+        return;
+    }
+    // if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
@@ -136,10 +138,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
-- 
2.43.0


From d3a66fc1b9dfeea4d0c9fa71aa7bb63397f2e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 07/16] fix: parser panics on a non-module inside an address
 block

---
 crates/parser/src/grammar/items.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 9209d02..1f8fd9b 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -85,7 +85,13 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else if p.at(T!['{']) {
+            error_block(p, "expected a module");
+        } else {
+            p.err_and_bump("expected a module");
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
-- 
2.43.0


From a77786a1717e1fd3d73f6979e659cf0655b76c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/16] fix: parser loops forever on a block in a struct field
 list

---
 crates/parser/src/grammar/items/adt.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From 3dd5d30c369bfc40f59a35e2bba2718c9a78fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 09/16] fix: parser loops forever on an unmatched ) or a ;
 inside parentheses

---
 crates/parser/src/grammar.rs                  | 4 ++++
 crates/parser/src/grammar/expressions.rs      | 4 ++++
 crates/parser/src/grammar/expressions/atom.rs | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index ff76fc7..23e1b7a 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -32,6 +32,10 @@ pub(crate) fn block_expr_unchecked(p: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn block_contents(p: &mut Parser) {
     while !(p.at(T!['}']) || p.at(EOF)) {
+        if p.at(T![')']) {
+            p.err_and_bump("unmatched `)`");
+            continue;
+        }
         stmt(p, StmtWithSemi::Optional);
     }
 }
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..9e13b04 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -262,6 +262,10 @@ pub(super) fn expr_block_contents(p: &mut Parser) {
             p.bump(T![;]);
             continue;
         }
+        if p.at(T![')']) {
+            p.err_and_bump("unmatched `)`");
+            continue;
+        }
         stmt(p, StmtWithSemi::Yes)
     }
 }
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
-- 
2.43.0


From c96b893cf9b1ea1ea7fd0343232dd6b9e85dbf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 10/16] fix: diagnostics of opened documents are never
 published

---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..ba8aab3 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    fn default() -> Self {
+        // The default `FileSetConfig` puts all the files into a single set: the files
+        // opened by the client.
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From 8ef26077fab65c1396f484af7756ad07c1201a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 11/16] fix: positions are sent as UTF-8 columns to clients
 that negotiated UTF-16

---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..b6bd2f2 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -63,6 +63,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -152,6 +153,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -222,7 +224,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From f08f63a762150667912fdf94cc6943ecbaa9a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 12/16] fix: a notification with malformed params crashes the
 server

---
 crates/move_language_server/src/dispatch.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index c39e2d3..b3d3772 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -225,14 +225,14 @@ impl<'a> NotificationDispatcher<'a> {
         N: lsp_types::notification::Notification + 'static,
         N::Params: DeserializeOwned + Send + 'static,
     {
-        let not = match self.not.take() {
-            Some(it) => it,
-            None => return Ok(self),
+        let not = match &self.not {
+            Some(not) if not.method == N::METHOD => self.not.take().unwrap(),
+            _ => return Ok(self),
         };
-        let params = match not.extract::<N::Params>(N::METHOD) {
+        let params = match crate::from_json::<N::Params>(N::METHOD, not.params) {
             Ok(it) => it,
-            Err(not) => {
-                self.not = Some(not);
+            Err(err) => {
+                tracing::error!("invalid notification: {}", err);
                 return Ok(self);
             }
         };
-- 
2.43.0


From e3975d49c3943033433aa1a81346c906e0cd029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 13/16] fix: a response to a request that the server did not
 send crashes it

---
 crates/move_language_server/src/global_state.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index b6bd2f2..6199082 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -21,7 +21,7 @@ use ide_db::base_db::{Change, FileId};
 use lsp_types::{SemanticTokens, Url};
 use parking_lot::{Mutex, RwLock};
 use project_model::ProjectWorkspace;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 use vfs::AnchoredPathBuf;
 
 // Enforces drop order
@@ -43,6 +43,8 @@ pub(crate) type ReqQueue = lsp_server::ReqQueue<(String, Instant), ReqHandler>;
 pub(crate) struct GlobalState {
     sender: Sender<lsp_server::Message>,
     req_queue: ReqQueue,
+    // The requests sent to the client that it has not responded to yet.
+    pending_requests: FxHashSet<lsp_server::RequestId>,
     pub(crate) task_pool: Handle<TaskPool<Task>, Receiver<Task>>,
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
@@ -83,6 +85,7 @@ impl GlobalState {
         let mut this = GlobalState {
             sender,
             req_queue: ReqQueue::default(),
+            pending_requests: FxHashSet::default(),
             task_pool,
             config: Arc::new(config),
             analysis_host,
@@ -166,9 +169,15 @@ impl GlobalState {
         handler: ReqHandler,
     ) {
         let request = self.req_queue.outgoing.register(R::METHOD.to_string(), params, handler);
+        self.pending_requests.insert(request.id.clone());
         self.send(request.into());
     }
     pub(crate) fn complete_request(&mut self, response: lsp_server::Response) {
+        // `Outgoing::complete` panics if there's no such request.
+        if !self.pending_requests.remove(&response.id) {
+            tracing::error!("response to an unknown request: {:?}", response.id);
+            return;
+        }
         let handler = self.req_queue.outgoing.complete(response.id.clone());
         handler(self, response)
     }
-- 
2.43.0


From 701140f43eac817542f6b4d75c5af34db0093454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 14/16] fix: didSave, which the server registers for, is
 reported as unhandled

---
 crates/move_language_server/src/main_loop.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..da30d98 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -292,6 +292,11 @@ impl GlobalState {
                 }
                 Ok(())
             })?
+            .on::<lsp_types::notification::DidSaveTextDocument>(|_this, _params| {
+                // We've asked for this notification, but the contents of an open document
+                // are already known from `DidChangeTextDocument`.
+                Ok(())
+            })?
             .on::<lsp_types::notification::DidCloseTextDocument>(|this, params| {
                 if let Ok(path) = from_proto::vfs_path(&params.text_document.uri) {
                     if this.mem_docs.remove(&path).is_err() {
-- 
2.43.0


From 4eb4eb1e6d65edd094c55660c94c78493e7190f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 15/16] fix: do not split a name that starts with mut after an
 ampersand

`&mutable` was lexed as `&mut` followed by the name `able`.
---
 crates/parser/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 8a53208..64506f2 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -202,7 +202,8 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            // `&mutable` is `&` followed by a name
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From 1b7520d02465fd481512378d3bd0bc00ff5a01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:52 +0000
Subject: [PATCH 16/16] fix: BinExpr::rhs returns the second operand, not the
 first

---
 crates/generate_ast/src/ast/gen_nodes.rs | 12 ++++++++++--
 crates/syntax/src/ast/nodes.rs           |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/generate_ast/src/ast/gen_nodes.rs b/crates/generate_ast/src/ast/gen_nodes.rs
index 0362bc0..825227a 100644
--- a/crates/generate_ast/src/ast/gen_nodes.rs
+++ b/crates/generate_ast/src/ast/gen_nodes.rs
@@ -13,7 +13,7 @@ pub(crate) fn generate_nodes(kinds: SymbolKindsSrc<'_>, grammar: &GrammarAST) ->
             //     quote!(impl ast::#trait_name for #grammar_name {})
             // });
 
-            let methods = node.fields.iter().map(|field| {
+            let methods = node.fields.iter().enumerate().map(|(i, field)| {
                 let method_name = field.method_name();
                 let field_type = field.ty();
 
@@ -30,9 +30,17 @@ pub(crate) fn generate_nodes(kinds: SymbolKindsSrc<'_>, grammar: &GrammarAST) ->
                         }
                     }
                 } else {
+                    // `lhs:Expr op rhs:Expr`: later children of the same type
+                    let nth = node.fields[..i].iter().filter(|it| it.ty() == field_type).count();
+                    let child = if nth == 0 {
+                        quote! { support::child(&self.syntax) }
+                    } else {
+                        let nth = proc_macro2::Literal::usize_unsuffixed(nth);
+                        quote! { support::children(&self.syntax).nth(#nth) }
+                    };
                     quote! {
                         pub fn #method_name(&self) -> Option<#field_type> {
-                            support::child(&self.syntax)
+                            #child
                         }
                     }
                 }
diff --git a/crates/syntax/src/ast/nodes.rs b/crates/syntax/src/ast/nodes.rs
index 6777bed..d758c0b 100644
--- a/crates/syntax/src/ast/nodes.rs
+++ b/crates/syntax/src/ast/nodes.rs
@@ -50,7 +50,7 @@ impl BinExpr {
     pub fn star_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![*]) }
     pub fn slash_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![/]) }
     pub fn mod_token(&self) -> Option<SyntaxToken> { support::token(&self.syntax, T![%]) }
-    pub fn rhs(&self) -> Option<Expr> { support::child(&self.syntax) }
+    pub fn rhs(&self) -> Option<Expr> { support::children(&self.syntax).nth(1) }
 }
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Literal {
-- 
2.43.0

