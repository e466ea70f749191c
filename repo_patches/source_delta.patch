From 924ad237f5c10f3b62720259b6532bad3ffce867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:35 +0000
Subject: [PATCH 01/20] fix: report and accept positions in UTF-16 code units

The tokenizer produces character offsets, but they were interpreted as byte
offsets when converting them to LSP positions and when slicing the source.
---
 src/hir_index.rs      |  9 ++++++++-
 src/hir_parser.rs     |  2 +-
 src/lsp_utils.rs      | 14 ++++++++++----
 src/semantic_token.rs | 11 +++++++----
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..12aec6e 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,13 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // Maps the character offsets used by the tokenizer to byte offsets
+    let byte_offsets = src
+        .char_indices()
+        .map(|(offset, _)| offset)
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -216,7 +223,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                 if !def.is_empty() {
                     let start = def.first().unwrap().1.start;
                     let end = def.last().unwrap().1.end;
-                    let value = &src[start..end];
+                    let value = &src[byte_offsets[start]..byte_offsets[end]];
                     index
                         .dgb_annotation_values
                         .insert(name.0.clone(), value.to_string());
diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..5713b8b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -438,7 +438,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
+        let strlen = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
             strlen..strlen + 1,
             // TODO: can we somehow avoid this copy?
diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..9bf53a9 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -3,15 +3,21 @@ use tower_lsp::lsp_types::{Position, Range};
 
 use crate::hir_tokenizer::Span;
 
+// Internally, we use character offsets (as produced by the tokenizer). The LSP protocol,
+// on the other hand, counts columns in UTF-16 code units.
+
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let first = rope.try_line_to_char(pos.line as usize).ok()?;
+    let first_cu = rope.try_char_to_utf16_cu(first).ok()?;
+    rope.try_utf16_cu_to_char(first_cu + pos.character as usize)
+        .ok()
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character =
+        rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..a9f5270 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -2,6 +2,7 @@ use ropey::Rope;
 use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
 
 use crate::hir_tokenizer::{Span, Token};
+use crate::lsp_utils::offset_to_lsp_pos;
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +61,11 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let pos = offset_to_lsp_pos(rope, token.start)?;
+            let end = token.start + token.length;
+            let length = rope.try_char_to_utf16_cu(end).ok()?
+                - rope.try_char_to_utf16_cu(token.start).ok()?;
+            let (line, start) = (pos.line, pos.character);
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +75,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: length as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From 540e7a05a1af75847fa5d2febded962f5cafd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 02/20] fix: clamp positions past the end of a line to the
 line's end

---
 src/lsp_utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index 9bf53a9..2bdf510 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -7,10 +7,15 @@ use crate::hir_tokenizer::Span;
 // on the other hand, counts columns in UTF-16 code units.
 
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
+    let line = rope.get_line(pos.line as usize)?;
     let first = rope.try_line_to_char(pos.line as usize).ok()?;
-    let first_cu = rope.try_char_to_utf16_cu(first).ok()?;
-    rope.try_utf16_cu_to_char(first_cu + pos.character as usize)
-        .ok()
+    // A position past the end of the line refers to the end of the line
+    let character = (pos.character as usize).min(line.len_utf16_cu());
+    let mut offset = line.try_utf16_cu_to_char(character).ok()?;
+    while offset > 0 && matches!(line.get_char(offset - 1), Some('\n' | '\r')) {
+        offset -= 1;
+    }
+    Some(first + offset)
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-- 
2.43.0


From ed0d8e5a25d3fea167797fb3907e2add93f59594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:53 +0000
Subject: [PATCH 03/20] fix: do not break lines at characters which are no line
 breaks in LSP

---
 src/lsp_utils.rs | 10 ++++++++--
 src/main.rs      |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index 2bdf510..4ee1f4d 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -6,6 +6,13 @@ use crate::hir_tokenizer::Span;
 // Internally, we use character offsets (as produced by the tokenizer). The LSP protocol,
 // on the other hand, counts columns in UTF-16 code units.
 
+/// Creates the rope used to map between offsets and LSP positions
+pub fn create_rope(text: &str) -> Rope {
+    // In addition to the line breaks known to LSP, Ropey also breaks lines at a couple of other
+    // characters. All of them are a single UTF-16 code unit, so we can hide them from Ropey.
+    Rope::from_str(&text.replace(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'], " "))
+}
+
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
     let line = rope.get_line(pos.line as usize)?;
     let first = rope.try_line_to_char(pos.line as usize).ok()?;
@@ -21,8 +28,7 @@ pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
     let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character =
-        rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
+    let character = rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/main.rs b/src/main.rs
index 50c5aea..a52b197 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
-use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
+use hyper_ir_lsp::lsp_utils::{create_rope, lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
@@ -733,8 +733,8 @@ struct TextDocumentItem {
 
 impl Backend {
     async fn on_change(&self, params: TextDocumentItem) {
-        let rope = ropey::Rope::from_str(&params.text);
-        let src = rope.to_string();
+        let src = params.text;
+        let rope = create_rope(&src);
 
         let ParserResult {
             tokens,
-- 
2.43.0


From bb94c5d0f381c60e79b22d578a58defcbd7209d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:36 +0000
Subject: [PATCH 04/20] fix: do not treat the carriage return of a CRLF line
 break as part of a comment

---
 src/hir_tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..31f3426 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -53,7 +53,7 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
 
     // A comment parser
     let comment = just('#')
-        .chain(take_until(just('\n').or(end().to('\n')).rewind()))
+        .then(take_until(newline.clone().ignored().or(end()).rewind()))
         .to(Token::Comment);
 
     // A parser for hex numbers
-- 
2.43.0


From 8c025bb7ddadf2e89e48846f470e6f5750ae8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 05/20] fix: split semantic tokens which span multiple lines

---
 src/semantic_token.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index a9f5270..11ccbef 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -54,17 +54,38 @@ pub fn semantic_tokens_from_tokens(tokens: &[(Token, Span)]) -> Vec<HIRSemanticT
         .collect::<Vec<_>>()
 }
 
+// Splits a token into its pieces on the individual lines. An LSP token must not span lines.
+fn split_at_line_breaks(rope: &Rope, token: &HIRSemanticToken) -> Option<Vec<Span>> {
+    let end = token.start + token.length;
+    let mut pieces = vec![];
+    let mut start = token.start;
+    while start < end {
+        let line = rope.try_char_to_line(start).ok()?;
+        let next_line = rope.try_line_to_char(line + 1).ok()?;
+        let mut piece_end = end.min(next_line);
+        while piece_end > start && matches!(rope.get_char(piece_end - 1), Some('\n' | '\r')) {
+            piece_end -= 1;
+        }
+        if piece_end > start {
+            pieces.push(start..piece_end);
+        }
+        start = next_line;
+    }
+    Some(pieces)
+}
+
 // Converts our internal semantic tokens to the LSP representation of tokens
 pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<SemanticToken> {
     let mut pre_line = 0;
     let mut pre_start = 0;
     let lsp_tokens = semtoks
         .iter()
-        .filter_map(|token| {
-            let pos = offset_to_lsp_pos(rope, token.start)?;
-            let end = token.start + token.length;
-            let length = rope.try_char_to_utf16_cu(end).ok()?
-                - rope.try_char_to_utf16_cu(token.start).ok()?;
+        .filter_map(|token| Some((token, split_at_line_breaks(rope, token)?)))
+        .flat_map(|(token, pieces)| pieces.into_iter().map(move |piece| (token, piece)))
+        .filter_map(|(token, piece)| {
+            let pos = offset_to_lsp_pos(rope, piece.start)?;
+            let length = rope.try_char_to_utf16_cu(piece.end).ok()?
+                - rope.try_char_to_utf16_cu(piece.start).ok()?;
             let (line, start) = (pos.line, pos.character);
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
-- 
2.43.0


From 21b0aac062fe9f01f1ca14f476b94442140a97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:15 +0000
Subject: [PATCH 06/20] fix: show diagnostics for an unexpected end of input

The span used for the end of input ended past the end of the document and the
diagnostics could hence not be mapped to an LSP range.
---
 src/hir_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 5713b8b..36bda65 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -440,7 +440,7 @@ pub fn parse_from_str(src: &str) -> ParserResult {
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
         let strlen = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
-            strlen..strlen + 1,
+            strlen..strlen,
             // TODO: can we somehow avoid this copy?
             tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
         ))
-- 
2.43.0


From 7ef7807a0d647de16ca96076cacb7b347b7985ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 07/20] fix: extract the number from identifiers with non-ASCII
 characters

---
 src/rename.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..561afdf 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,11 +7,8 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
-    let (name, nr) = id.split_at(offset);
+    let name = id.trim_end_matches(|c: char| c.is_ascii_digit());
+    let nr = &id[name.len()..];
     Some((name, nr.parse::<i64>().ok()?))
 }
 
-- 
2.43.0


From aa753513e2b61f907a9a13cdba4937693e6d01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:59 +0000
Subject: [PATCH 08/20] fix: reject new names which are empty or no valid
 symbol names

---
 src/main.rs   | 12 ++++++++++--
 src/rename.rs | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a52b197..1902c52 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,7 +13,9 @@ use hyper_ir_lsp::diagnostics::{
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
 use hyper_ir_lsp::lsp_utils::{create_rope, lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
-use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
+use hyper_ir_lsp::rename::{
+    extract_number_from_identifier, get_rename_edits, get_shift_edits, is_valid_symbol_name,
+};
 use hyper_ir_lsp::semantic_token::{
     convert_to_lsp_tokens, semantic_tokens_from_tokens, HIRSemanticToken, LEGEND_TYPE,
 };
@@ -376,12 +378,18 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
+            if new_name.starts_with(|c: char| c.is_numeric())
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            if !is_valid_symbol_name(symbol.symbol_kind, &new_name) {
+                return Result::Err(Error::invalid_params("Not a valid name for this symbol"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
diff --git a/src/rename.rs b/src/rename.rs
index 561afdf..3eb44f4 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -1,11 +1,26 @@
+use chumsky::Parser;
 use ropey::Rope;
 use tower_lsp::lsp_types::TextEdit;
 
 use crate::{
     hir_index::{HIRIndex, SymbolKind, UseDefList},
+    hir_tokenizer::{tokenizer, Token},
     lsp_utils::range_to_lsp,
 };
 
+/// Checks if a name (including its prefix) is tokenized as a single symbol of the given kind
+pub fn is_valid_symbol_name(symbol_kind: SymbolKind, name: &str) -> bool {
+    match tokenizer().parse(name).as_deref() {
+        Ok([(token, _)]) => match symbol_kind {
+            SymbolKind::GlobalVar | SymbolKind::Function => matches!(token, Token::GlobalName(_)),
+            SymbolKind::DbgAnnotation => matches!(token, Token::DebugRef(_)),
+            SymbolKind::Label => matches!(token, Token::Ident(_)),
+            SymbolKind::LocalVar => matches!(token, Token::LocalName(_)),
+        },
+        _ => false,
+    }
+}
+
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
     let name = id.trim_end_matches(|c: char| c.is_ascii_digit());
     let nr = &id[name.len()..];
-- 
2.43.0


From f58160f74cb664f4764057081156f1b3792e4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:08 +0000
Subject: [PATCH 09/20] fix: do not crash when shifting numbers out of range or
 for stale functions

---
 src/main.rs   | 10 +++++++---
 src/rename.rs | 25 ++++++++++++++++---------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1902c52..6ff9d17 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -345,7 +345,9 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr.checked_mul(sign).ok_or_else(|| {
+                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
+            })?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
@@ -360,6 +362,7 @@ impl LanguageServer for Backend {
                 rename_start,
                 rename_shift,
             )
+            .ok_or_else(|| Error::invalid_params("The numbering can't be shifted"))?
         } else {
             // Check the new name and make sure it contains the expected prefix
             let prefix = match symbol.symbol_kind {
@@ -459,7 +462,7 @@ impl LanguageServer for Backend {
         if !self.code_actions_lazy_resolve.lock().unwrap().get() {
             actions = actions
                 .drain(..)
-                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
+                .filter_map(|a| self.do_code_action_resolve(a).ok())
                 .collect();
         }
 
@@ -850,7 +853,8 @@ impl Backend {
                     func_body_id,
                     renamed_nr,
                     1,
-                );
+                )
+                .ok_or_else(|| Error::invalid_params("The numbering can't be shifted"))?;
                 updated_action.edit = Some(WorkspaceEdit {
                     changes: Some(HashMap::from([(uri, edits)])),
                     ..Default::default()
diff --git a/src/rename.rs b/src/rename.rs
index 3eb44f4..eaf5011 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -42,6 +42,8 @@ pub fn get_rename_edits(rope: &Rope, usedefs: &UseDefList, new_name: &str) -> Ve
         .collect()
 }
 
+/// Shifts the numbers of all symbols of the given kind, starting from `renamed_nr`.
+/// Returns `None` for unknown functions or if a shifted number is out of range.
 pub fn get_shift_edits(
     rope: &Rope,
     index: &HIRIndex,
@@ -49,23 +51,28 @@ pub fn get_shift_edits(
     func_body_id: Option<usize>,
     renamed_nr: i64,
     shift: i64,
-) -> Vec<TextEdit> {
-    index
-        .get_by_symbol_kind(
-            symbol_kind,
-            func_body_id.map(|id| &index.function_bodies[id]),
-        )
+) -> Option<Vec<TextEdit>> {
+    let func_body = func_body_id.and_then(|id| index.function_bodies.get(id));
+    if func_body.is_none() && matches!(symbol_kind, SymbolKind::Label | SymbolKind::LocalVar) {
+        return None;
+    }
+    let edits = index
+        .get_by_symbol_kind(symbol_kind, func_body)
         .iter()
         .filter_map(|(name, usedefs)| {
             let (prefix, nr) = extract_number_from_identifier(name)?;
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            Some((prefix, nr, usedefs))
+        })
+        .map(|(prefix, nr, usedefs)| {
+            let new_nr = nr.checked_add(shift)?.checked_abs()?;
+            let new_name = format!("{}{}", prefix, new_nr);
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
-        .flatten()
-        .collect::<Vec<_>>()
+        .collect::<Option<Vec<_>>>()?;
+    Some(edits.into_iter().flatten().collect())
 }
 
 #[test]
-- 
2.43.0


From 83b34b07dd5d32c2c8547ccae7e9cd26e2983444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 10/20] fix: use the last content change of a notification, and
 accept none

---
 src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6ff9d17..48683da 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -172,12 +172,15 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
-        self.on_change(TextDocumentItem {
-            uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
-            version: params.text_document.version,
-        })
-        .await
+        // Each change contains the full text of the document. Only the last one is relevant.
+        if let Some(change) = params.content_changes.pop() {
+            self.on_change(TextDocumentItem {
+                uri: params.text_document.uri,
+                text: change.text,
+                version: params.text_document.version,
+            })
+            .await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From d1d6d64d3735e1e260db2b016453e3f993ecd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 11/20] fix: resolve paths against roots without a path or with
 a trailing slash

---
 src/backtrace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..a8817c5 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,10 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut()
+            .ok()?
+            .pop_if_empty()
+            .extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From e5823c9764a54c91c76643bfef4ac2dd3997342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 12/20] fix: do not crash on external definitions in line 0

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 48683da..b67f1a9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -818,8 +818,8 @@ impl Backend {
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(d.line.saturating_sub(1), 0),
+                        end: Position::new(d.line.saturating_sub(1), 0),
                     },
                 })
             }));
-- 
2.43.0


From 9ef1a1a5142c2270c63456088b451be150ed4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 13/20] fix: shorten names at character boundaries

---
 src/backtrace.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index a8817c5..5fd9c51 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -175,10 +175,9 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
-        s.to_string()
-    } else {
-        s[..len - 2].to_string() + "…"
+    match s.char_indices().nth(len - 2) {
+        None => s.to_string(),
+        Some((end, _)) => s[..end].to_string() + "…",
     }
 }
 
-- 
2.43.0


From f0c825341b738f3fd02b391045c326840d3c8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:34 +0000
Subject: [PATCH 14/20] fix: do not block the document while the client shows a
 graph

---
 src/main.rs | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b67f1a9..24f47d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -675,27 +675,30 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("document `{}` not found", doc_uri).into(),
-                        data: None,
-                    })?
-                    .index;
-                let func_body = index
-                    .function_bodies
-                    .iter()
-                    .find(|b| b.name.0 == *func_name)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("function `{}` not found", func_name).into(),
-                        data: None,
-                    })?;
-
                 let title = format!("CFG for {}", func_name);
-                let dot_graph = create_cfg_dot_visualization(func_body);
+                // Must not keep a reference into the `document_map` while waiting for the client.
+                // Otherwise, modifications to the document would be blocked in the meantime.
+                let dot_graph = {
+                    let index = &self
+                        .document_map
+                        .get(doc_uri)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("document `{}` not found", doc_uri).into(),
+                            data: None,
+                        })?
+                        .index;
+                    let func_body = index
+                        .function_bodies
+                        .iter()
+                        .find(|b| b.name.0 == *func_name)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("function `{}` not found", func_name).into(),
+                            data: None,
+                        })?;
+                    create_cfg_dot_visualization(func_body)
+                };
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From a9578daa148a6d0598248f7dd242e91995b885a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 15/20] fix: find the external definitions of all functions
 which refer to an annotation

---
 src/hir_index.rs | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index 12aec6e..9c47663 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -203,7 +203,8 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         .collect::<Vec<_>>();
 
     // Index all definitions / declarations based on the actual parse tree
-    let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
+    let mut function_dbgrefs: HashMap<String, Vec<String>> = Default::default();
+    let mut external_defs: Vec<(String, ExternalDef)> = Default::default();
     for s in stmts.iter() {
         match s {
             Statement::GlobalVar { name, def: _ } => {
@@ -214,7 +215,10 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
             } => {
                 index.add_global_spanned(SymbolKind::Function, UseDefKind::Decl, &signature.name);
                 if let Some(dbgref) = dbgref {
-                    unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());
+                    let funcnames = function_dbgrefs.entry(dbgref.0.clone()).or_default();
+                    if !funcnames.contains(&signature.name.0) {
+                        funcnames.push(signature.name.0.clone());
+                    }
                 }
             }
             Statement::FuncDependencies { .. } => {}
@@ -229,20 +233,16 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                         .insert(name.0.clone(), value.to_string());
                 }
                 // Recognize the filenames and numbers associated with function definitions
-                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
-                    if let [(Token::Str(dbgstr), _)] = &def[..] {
-                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
-                            if let Ok(line) = linestr.parse::<u32>() {
-                                index
-                                    .functions
-                                    .get_mut(funcname)
-                                    .unwrap()
-                                    .external_defs
-                                    .push(ExternalDef {
-                                        filepath: filepath.to_string(),
-                                        line,
-                                    });
-                            }
+                if let [(Token::Str(dbgstr), _)] = &def[..] {
+                    if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
+                        if let Ok(line) = linestr.parse::<u32>() {
+                            external_defs.push((
+                                name.0.clone(),
+                                ExternalDef {
+                                    filepath: filepath.to_string(),
+                                    line,
+                                },
+                            ));
                         }
                     }
                 }
@@ -320,6 +320,18 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         }
     }
 
+    // Associate the external definitions with all functions which reference them
+    for (dbgref, def) in external_defs {
+        for funcname in function_dbgrefs.get(&dbgref).into_iter().flatten() {
+            index
+                .functions
+                .get_mut(funcname)
+                .unwrap()
+                .external_defs
+                .push(def.clone());
+        }
+    }
+
     // Index all uses based on the raw token stream
     let mut func_body_id: Option<usize> = None;
     for t in tokens.iter() {
-- 
2.43.0


From a3175aa6375f5fc50c6862b70f64cd2fd0af603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:51 +0000
Subject: [PATCH 16/20] fix: show frames whose name and file name are empty as
 invalid

---
 src/backtrace.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 5fd9c51..bda823c 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -52,7 +52,9 @@ pub fn parse_backtrace_from_json(
                 // Use the name provided in the backtrace if present
                 name = json_name.unwrap();
             } else if let Some(link) = json_link {
-                name = shorten_filepath(link);
+                if !shorten_filepath(link).is_empty() {
+                    name = shorten_filepath(link);
+                }
             }
 
             // Parse `file:linenr`
-- 
2.43.0


From 6b2d7459b539b5c2e64ca7e6e4cd143bb980f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:14 +0000
Subject: [PATCH 17/20] fix: escape file names and line breaks in Markdown
 tooltips

---
 src/backtrace.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index bda823c..8ce8fb0 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -114,7 +114,10 @@ pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
 fn sanitize_markdown_code(txt: &str) -> String {
     let mut sanitized = String::with_capacity(txt.bytes().len());
     for c in txt.chars() {
-        if c.is_alphanumeric() || c.is_whitespace() {
+        if c.is_whitespace() {
+            // A line break could end the code block
+            sanitized.push(' ');
+        } else if c.is_alphanumeric() {
             // We allow all alphanumeric chars.
             // Hopefully, none of them has a special meaning in Markdown.
             sanitized.push(c);
@@ -141,9 +144,33 @@ fn sanitize_markdown_code(txt: &str) -> String {
     sanitized
 }
 
+// Escapes a string which we are about to embed into Markdown as plain text
+fn escape_markdown_text(txt: &str) -> String {
+    let mut escaped = String::with_capacity(txt.len());
+    for c in txt.chars() {
+        if c.is_whitespace() || c.is_control() {
+            escaped.push(' ');
+        } else {
+            if c.is_ascii_punctuation() {
+                escaped.push('\\');
+            }
+            escaped.push(c);
+        }
+    }
+    escaped
+}
+
+// Escapes those characters of a URL which have a special meaning inside a Markdown link
+fn escape_markdown_url(url: &Url) -> String {
+    url.as_str()
+        .replace('(', "%28")
+        .replace(')', "%29")
+        .replace('&', "%26")
+}
+
 fn format_frame_as_md(frame: &Frame) -> String {
     if let Some(fp) = &frame.filepath {
-        let shortened_path: &str = shorten_filepath(fp);
+        let shortened_path = escape_markdown_text(shorten_filepath(fp));
         if let Some(resolved_fp) = &frame.resolved_filepath {
             // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
             // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
@@ -152,7 +179,7 @@ fn format_frame_as_md(frame: &Frame) -> String {
                 sanitize_markdown_code(&frame.symbol),
                 shortened_path,
                 frame.line,
-                resolved_fp,
+                escape_markdown_url(resolved_fp),
                 frame.line
             )
         } else {
-- 
2.43.0


From d571e10ee8e97882bc0326f4da5c444c9591e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:37 +0000
Subject: [PATCH 18/20] fix: keep the statements before a faulty end of the
 document

---
 src/hir_parser.rs    | 4 ++++
 src/hir_tokenizer.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 36bda65..2a0695e 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -422,7 +422,11 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .or(dbg_annotation)
         .padded_by(just(Token::Newline).repeated())
         .recover_with(skip_then_retry_until([]))
+        .map(Some)
+        // If there is no further statement, we still want to keep the previous statements
+        .recover_with(skip_until([], |_| None))
         .repeated()
+        .flatten()
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 31f3426..ddce5cf 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -143,7 +143,11 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     token
         .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
+        .map(Some)
+        // If there is no further token, we still want to keep the previous tokens
+        .recover_with(skip_until([], |_| None))
         .repeated()
+        .flatten()
         .then_ignore(end())
 }
 
-- 
2.43.0


From 36770a5ea08a1dcb5405a8636f6addc18d0ff725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:50 +0000
Subject: [PATCH 19/20] fix: exclude skipped characters from the range of the
 next token

---
 src/hir_tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index ddce5cf..a08832c 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,10 +138,11 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    // The span must not contain the characters skipped by the recovery
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .map(Some)
         // If there is no further token, we still want to keep the previous tokens
-- 
2.43.0


From cbb81c930fb5fcfa80b5ffb1c6956f19244dd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:57 +0000
Subject: [PATCH 20/20] fix: count the basic blocks in the summary of a folded
 function

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 24f47d6..8c21abb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -489,7 +489,7 @@ impl LanguageServer for Backend {
             let mut folding_ranges = Vec::<FoldingRange>::new();
 
             folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
-                let collapsed_text = format!("{} basic blocks", f.labels.len());
+                let collapsed_text = format!("{} basic blocks", f.basic_blocks.len());
                 let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                 Some(FoldingRange {
                     start_line: range.start.line,
-- 
2.43.0

