From 0e42f5de407b943acecc2cf7930cc72c86d1b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 01/21] fix: do not crash on malformed escape sequences

---
 src/parser/tokenizer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..b4fc58f 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -135,18 +135,18 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
             match chars.next() {
                 Some('\n') => {
                     on_error(errors::SyntaxError::TokenInvalidEscape);
-                    (1, TokenKind::Escape)
+                    (1, TokenKind::RawText)
                 },
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
-                        end
+                    // use `get`, since `end` might not be on a character boundary
+                    if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
+                        (end, TokenKind::Escape)
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-                        2
-                    };
-                    (len, TokenKind::Escape)
+                        (2, TokenKind::RawText)
+                    }
                 } else {
                     (1 + c.len_utf8(), TokenKind::Escape)
                 },
-- 
2.43.0


From b31302f185a9d0577a233ea4a5ea7e80f2c89cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 02/21] fix: report correct line and column numbers in
 non-ASCII source files

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..dd8a9cc 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // indices are in bytes, so there must be one entry per byte
+                coords.resize(coords.len() + c.len_utf8(), (line, col));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From 4f5b72cd5380ab0224917274296ef01fa0e9bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 03/21] fix: use byte indices when removing non-ASCII
 indentation

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From 56a0edfd03a3f7182eb898d86406ef89be99a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 04/21] fix: ensure non-first unique IDs are lowercase
 identifiers

---
 src/utils/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..83afb14 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,8 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        // the ID which is already in use is a valid identifier, and is ASCII
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 9a5d16bafd385059f156eeba0205bb4e6f94e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 05/21] fix: least upper bound of `any` with another type is
 `any`

---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 05c21368366e37a1092a9198227e19f04b5ce01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 06/21] fix: links with block content are not inline

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From aa5c992c43dda0d2150f84c37ad41d78f779868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 07/21] fix: coerce implicit arguments to the parameter type

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 06abb849ffc4402b662d3e9ed15e5ba8a721f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 08/21] fix: check the expected type when a coalescing call
 yields the unit value

---
 src/compiler/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/func.rs b/src/compiler/func.rs
index 3ef0868..10953d7 100644
--- a/src/compiler/func.rs
+++ b/src/compiler/func.rs
@@ -120,7 +120,8 @@ impl <'a> Compiler<'a> {
             .option_if(call.func.is_coalescing());
         let Some(func) = self.evaluate_name(&call.func, &func_type)?
             .expect_convert::<Option<Func>>() else {
-                return Ok(Value::UNIT);
+                return self.coerce(Value::UNIT, type_hint)
+                    .map_err(|e| self.report(e, call.range));
             };
         
         let bindings = func.bind_call(self, call)
-- 
2.43.0


From ce6a1897742dcfa7e3c6046954642e67050b908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 09/21] fix: report an error on integer overflow instead of
 crashing or wrapping

---
 src/compiler/native.rs      | 15 +++++++++++----
 src/errors/runtime_error.rs |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..ecf8526 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,12 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| {
+                    let i = FROM.checked_add(i as Int)
+                        .ok_or(errors::RuntimeError::IntegerOverflow)?;
+                    Ok([Value::Int(i), v].into())
+                })
+                .collect::<errors::PapyriResult<Vec<Value>>>()?
         }
         
         @bind_content
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..a06808e 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -33,6 +33,7 @@ pub enum RuntimeError {
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
     ParseIntError(std::num::ParseIntError),
+    IntegerOverflow,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
-- 
2.43.0


From 1f7b35c73a2427143c13b16edf529da8bc3a7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 10/21] fix: do not overflow when numbering lines of code

---
 src/compiler/highlight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..a19399a 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -185,7 +185,7 @@ pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
     for (i, line) in lines.into_iter().enumerate() {
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &(i as i128 + i128::from(start)).to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
-- 
2.43.0


From bb9df31c6b2ad26721b899a4f58606d03042ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 11/21] fix: resolve output paths correctly when the base path
 is not normalised

---
 src/utils/relpath.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..c720146 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -9,11 +9,14 @@ use crate::errors;
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
+    let base = base.normalize();
     base.join(rel)
         .normalize()
-        .strip_prefix(base)
-        .map(Path::to_path_buf)
+        .strip_prefix(&base)
         .ok()
+        // an empty base is a prefix of every path, including absolute paths
+        .filter(|p| p.is_relative())
+        .map(Path::to_path_buf)
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From 5f3504686e7c9220694c8fc6a0a170f75d14c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 12/21] fix: do not crash when listing files whose extension is
 not lowercase

---
 src/compiler/native.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ecf8526..18a82bd 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -400,11 +400,8 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                // the extension is not necessarily lowercase
+                .map(|p| format!("{base_path}/{}", p.with_extension("").to_string_lossy()).into())
                 .collect::<Vec<Value>>()
         }
         
-- 
2.43.0


From 96c450dae016340603600595e9ff4b4198ced18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 13/21] fix: report a content parameter with the same name as
 another parameter

---
 src/parser/func.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..1208c81 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -66,6 +66,7 @@ impl <'a> Parser<'a> {
         let mut positional_spread = false;
         let mut named_count = 0;
         let mut named_spread = false;
+        let mut names_used = NameIDSet::default();
         
         self.skip_whitespace();
         let lpar = self.poll_if_kind(TokenKind::LPar);
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -138,7 +138,10 @@ impl <'a> Parser<'a> {
             (false, dot.range)
         } else {
             let (c, spread_kind, _) = self.parse_param()?;
-            if spread_kind != SpreadKind::NoSpread {
+            if names_used.contains(&c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            } else if spread_kind != SpreadKind::NoSpread {
                 self.report(SyntaxError::ParamContentSpread, c.range);
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
-- 
2.43.0


From 05a5f8765f18f30cd5a2d1dfd7f3a1508ef42519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 14/21] fix: wrap inline parts of mixed block and inline
 content

---
 src/compiler/sequence.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/sequence.rs b/src/compiler/sequence.rs
index 7e0bf0b..1f577ff 100644
--- a/src/compiler/sequence.rs
+++ b/src/compiler/sequence.rs
@@ -139,6 +139,14 @@ impl SequenceBuilder {
         // do nothing
         if child.is_empty() { return Ok(()); }
         
+        // inline parts of mixed content may need to be wrapped separately
+        if !self.require_inline && child.is_block() && !child.nodes().iter().all(HTML::is_block) {
+            for node in child.nodes().iter().cloned() {
+                self.push(compiler, node)?;
+            }
+            return Ok(());
+        }
+        
         if self.require_inline && child.is_block() {
             let child_name = child.block_kind().map(|tag| compiler.get_name(tag));
             let parent_name = self.parent_tag.map(|tag| compiler.get_name(tag));
-- 
2.43.0


From b5b5dcd7fbbf9afdd0f9088db316c600eb585112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 15/21] verif: hook giving external harnesses access to
 internals, behind cfg(papyri_verif)

---
 src/compiler/mod.rs   |   4 ++
 src/compiler/verif.rs | 118 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 122 insertions(+)
 create mode 100644 src/compiler/verif.rs

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 2c21821..7c51596 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -24,6 +24,10 @@ mod types;
 mod value;
 mod value_convert;
 
+#[allow(unexpected_cfgs)]
+#[cfg(papyri_verif)]
+pub mod verif;
+
 pub use base::CompileResult;
 pub use context::Context;
 pub use html::HTML;
diff --git a/src/compiler/verif.rs b/src/compiler/verif.rs
new file mode 100644
index 0000000..5acf571
--- /dev/null
+++ b/src/compiler/verif.rs
@@ -0,0 +1,118 @@
+//! Access to some internals of the compiler, for use by external verification
+//! harnesses. This module only exists when the `papyri_verif` cfg flag is set.
+
+#![allow(missing_docs)]
+
+use std::rc::Rc;
+
+use crate::errors::{Diagnostics, ReportingLevel};
+use crate::parser::{self, token::TokenKind, Type};
+use crate::utils::{NameID, StringPool};
+use crate::utils::sourcefile::SourceFile;
+use super::base::Compiler;
+use super::context::Context;
+use super::html::HTML;
+use super::tag::{AttrMap, Tag};
+use super::value::Value;
+
+/// Tokenizes the given source; each token is given as (kind, start, end), and
+/// the number of errors reported by the tokenizer is also returned.
+pub fn tokens(src: &str, strip_comments: bool) -> (Vec<(TokenKind, usize, usize)>, u32) {
+    let file = Rc::new(SourceFile::new_anonymous_synthetic(src));
+    let mut diagnostics = Diagnostics::new(ReportingLevel::All);
+    let tokens = parser::tokenize(file, strip_comments, &mut diagnostics)
+        .into_iter()
+        .map(|t| (t.kind, t.range.start as usize, t.range.end as usize))
+        .collect();
+    (tokens, diagnostics.num_errors)
+}
+
+/// Converts a byte index to line and column numbers.
+pub fn line_col(src: &str, index: u32) -> (u32, u32) {
+    SourceFile::new_anonymous_synthetic(src).index_to_line_col(index)
+}
+
+/// Builds a type from its textual representation.
+fn parse_type(s: &str) -> Type {
+    if let Some(s) = s.strip_suffix('?') {
+        return parse_type(s).option();
+    } else if let Some(s) = s.strip_suffix(" list") {
+        return parse_type(s).list();
+    } else if let Some(s) = s.strip_suffix(" dict") {
+        return parse_type(s).dict();
+    }
+    match s {
+        "any" => Type::Any,
+        "none" => Type::Unit,
+        "html" => Type::Html,
+        "block" => Type::Block,
+        "inline" => Type::Inline,
+        "bool" => Type::Bool,
+        "int" => Type::Int,
+        "str" => Type::Str,
+        "function" => Type::Function,
+        "regex" => Type::Regex,
+        _ => panic!("no such type: {s}"),
+    }
+}
+
+pub fn type_lub(a: &str, b: &str) -> String {
+    parse_type(a).least_upper_bound(parse_type(b)).to_string()
+}
+
+pub fn type_check(t: &str, v: &Value) -> bool {
+    parse_type(t).check_value(v.clone())
+}
+
+pub fn type_of(v: &Value) -> String {
+    v.get_type().to_string()
+}
+
+/// Coerces the value to the given type; returns `None` if this is an error.
+pub fn coerce(ctx: &mut Context, t: &str, v: &Value) -> Option<Value> {
+    Compiler::new(ctx).coerce(v.clone(), &parse_type(t)).ok()
+}
+
+pub fn to_html(ctx: &mut Context, v: &Value) -> HTML {
+    Compiler::new(ctx).compile_value(v.clone())
+}
+
+pub fn intern(ctx: &mut Context, s: &str) -> NameID {
+    ctx.string_pool.insert(s)
+}
+
+pub fn name_of(ctx: &Context, name_id: NameID) -> Rc<str> {
+    ctx.string_pool.get(name_id)
+}
+
+pub fn pool_insert(pool: &mut StringPool, s: &str) -> NameID {
+    pool.insert(s)
+}
+
+pub fn pool_insert_lowercase(pool: &mut StringPool, s: &str) -> NameID {
+    pool.insert_lowercase(s)
+}
+
+pub fn pool_find(pool: &StringPool, s: &str) -> Option<NameID> {
+    pool.get_id_if_present(s)
+}
+
+pub fn pool_get(pool: &StringPool, name_id: NameID) -> Rc<str> {
+    pool.get(name_id)
+}
+
+/// Creates an HTML tag.
+pub fn tag(name_id: NameID, attrs: &[(NameID, Option<&str>)], content: HTML) -> HTML {
+    let attrs: AttrMap = attrs.iter()
+        .map(|&(k, v)| (k, v.map(Rc::from)))
+        .collect();
+    Tag::new_with_attrs(name_id, attrs, content).into()
+}
+
+/// Returns the name, attributes and content of an HTML tag.
+pub fn tag_parts(tag: &Tag) -> (NameID, Vec<(NameID, Option<Rc<str>>)>, &HTML) {
+    let attrs = tag.attributes.iter()
+        .map(|(k, v)| (*k, v.clone()))
+        .collect();
+    (tag.name_id, attrs, &tag.content)
+}
-- 
2.43.0


From c8a4939d1fff5c92271e4c46c57f9840b7388033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 16/21] verif: expose the predefined names, behind
 cfg(papyri_verif)

---
 src/compiler/verif.rs | 5 +++++
 src/utils/mod.rs      | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/compiler/verif.rs b/src/compiler/verif.rs
index 5acf571..67939b5 100644
--- a/src/compiler/verif.rs
+++ b/src/compiler/verif.rs
@@ -97,6 +97,11 @@ pub fn pool_find(pool: &StringPool, s: &str) -> Option<NameID> {
     pool.get_id_if_present(s)
 }
 
+/// The strings which are always interned, in the order of their identifiers.
+pub fn const_strs() -> &'static [&'static str] {
+    crate::utils::CONST_STRS
+}
+
 pub fn pool_get(pool: &StringPool, name_id: NameID) -> Rc<str> {
     pool.get(name_id)
 }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index d281630..0bd8f9e 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,6 +11,8 @@ pub(crate) mod taginfo;
 pub mod text;
 
 pub(crate) use const_strs::str_ids;
+#[cfg(papyri_verif)]
+pub(crate) use const_strs::CONST_STRS;
 pub use outfiles::OutFiles;
 pub use sliceref::SliceRef;
 pub use string_pool::{StringPool, NameID, NameIDSet, NameIDMap};
-- 
2.43.0


From bc8772c3e223548dfdeeff463557c0ba45df8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 17/21] fix: wrap inline parts of mixed content in list items
 of displayed lists

---
 src/compiler/sequence.rs | 14 ++++++++++++++
 src/compiler/value.rs    |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sequence.rs b/src/compiler/sequence.rs
index 1f577ff..ff6d378 100644
--- a/src/compiler/sequence.rs
+++ b/src/compiler/sequence.rs
@@ -24,6 +24,20 @@ impl <'a> Compiler<'a> {
         self._compile_sequence(sequence, content_kind, None)
     }
     
+    /// Creates an `<li>` tag for the given content. If it is mixed block and
+    /// inline content, then the inline parts are wrapped in `<p>` tags.
+    pub(super) fn compile_list_item(&self, content: HTML) -> HTML {
+        if !content.is_block() || content.nodes().iter().all(HTML::is_block) {
+            return content.in_tag(str_ids::LI);
+        }
+        
+        let mut builder = SequenceBuilder::new(ContentKind::for_(str_ids::LI), Some(str_ids::LI));
+        builder.push(self, content)
+            .and_then(|_| builder.into_html())
+            .unwrap_or_else(|e| errors::ice(&format!("Failed to wrap list item: {e}")))
+            .in_tag(str_ids::LI)
+    }
+    
     fn _compile_sequence(&mut self, sequence: &[AST], content_kind: ContentKind, parent_tag: Option<NameID>) -> HTML {
         let mut builder = SequenceBuilder::new(content_kind, parent_tag);
         for child in sequence {
diff --git a/src/compiler/value.rs b/src/compiler/value.rs
index 77e7527..fc54e2e 100644
--- a/src/compiler/value.rs
+++ b/src/compiler/value.rs
@@ -132,7 +132,7 @@ impl <'a> Compiler<'a> {
                 vs.as_ref()
                     .iter()
                     .cloned()
-                    .map(|child| self.compile_value(child).in_tag(str_ids::LI))
+                    .map(|child| self.compile_list_item(self.compile_value(child)))
                     .collect::<HTML>()
                     .in_tag(str_ids::UL)
             },
-- 
2.43.0


From 69b6e00187aa6637cf147521db7abf0f1aef1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 18/21] fix: keep leading parent directory components when
 resolving output paths

---
 src/utils/relpath.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index c720146..7f0e24a 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -1,21 +1,39 @@
 //! This module contains helper functions for dealing with relative paths.
 
-use std::path::{Path, PathBuf};
-use normalize_path::NormalizePath;
+use std::path::{Component, Path, PathBuf};
 
 use crate::errors;
 
+/// Removes `.` and `..` components from the given path, where possible. If the
+/// path is relative, then the result may begin with `..` components.
+fn normalise(path: &Path) -> PathBuf {
+    let mut out = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {},
+            Component::ParentDir => match out.components().next_back() {
+                Some(Component::Normal(_)) => { out.pop(); },
+                // the root directory is its own parent
+                Some(Component::RootDir) => {},
+                _ => out.push(component),
+            },
+            _ => out.push(component),
+        }
+    }
+    out
+}
+
 /// Converts the given path `rel` into a normalised relative path using the
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
-    let base = base.normalize();
-    base.join(rel)
-        .normalize()
+    let base = normalise(base);
+    normalise(&base.join(rel))
         .strip_prefix(&base)
         .ok()
         // an empty base is a prefix of every path, including absolute paths
-        .filter(|p| p.is_relative())
+        // and paths to parent directories
+        .filter(|p| p.is_relative() && !p.starts_with(".."))
         .map(Path::to_path_buf)
 }
 
-- 
2.43.0


From ef4fecf96401bfc0dc021ae8d1890cb5e5a31325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 19/21] fix: fix_indentation removes all trailing whitespace

---
 src/utils/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 83afb14..f99e4d9 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -104,6 +104,8 @@ pub fn fix_indentation(s: &str) -> String {
             },
         }
     }
+    // the last line doesn't need a newline
+    out.pop();
     out
 }
 
-- 
2.43.0


From cbc53ab94e69fc00d08c70466ae0d7bf618014c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 20/21] fix: count the parameters of a function without
 overflow

A function with 65536 or more positional or named parameters overflowed the
counters of its signature: an internal error in a debug build, and parameters
which were silently dropped or misread in a release build.
---
 src/parser/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast.rs b/src/parser/ast.rs
index bba0a72..6e4630f 100644
--- a/src/parser/ast.rs
+++ b/src/parser/ast.rs
@@ -94,9 +94,9 @@ pub struct Signature {
     /// occur before all named parameters.
     pub(crate) params: Box<[Param]>,
     
-    pub(crate) positional_count: u16,
+    pub(crate) positional_count: usize,
     pub(crate) positional_spread: bool,
-    pub(crate) named_count: u16,
+    pub(crate) named_count: usize,
     pub(crate) named_spread: bool,
     
     /// If true, the final parameter is the contents parameter. Otherwise, the
-- 
2.43.0


From 0a279f25eeec8e8952a460c7e890cab9de9ab0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 21/21] fix: long template patterns crash the compiler

The regular expression of a template pattern was compiled with the default size limit, so that a pattern with some ten thousand spaces was an internal compiler error.
---
 src/parser/matcher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/matcher.rs b/src/parser/matcher.rs
index 121c13e..1e2e369 100644
--- a/src/parser/matcher.rs
+++ b/src/parser/matcher.rs
@@ -317,7 +317,10 @@ impl <'a> Parser<'a> {
         }
         regex_str += ")$";
         
-        let regex = regex::Regex::new(&regex_str)
+        // the regex is as long as the template, so its size needs no other limit
+        let regex = regex::RegexBuilder::new(&regex_str)
+            .size_limit(usize::MAX)
+            .build()
             .unwrap_or_else(|e| self.ice_at(&format!("regex {regex_str} failed to parse: {e}"), range));
         
         let p = RegexMatchPattern {regex, names: vars.into_boxed_slice()};
-- 
2.43.0

