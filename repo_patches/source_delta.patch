From a87e8bc8126041a6d6f586c36178f4fb2ed153d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 01/29] fix: the least upper bound of any and another type is
 any

---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 96384613941a91431b708f0a9aa7392c288ccb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 02/29] fix: diagnostic positions were looked up by byte in a
 table indexed by character

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..9ec2ac4 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // the coords are indexed by byte
+                coords.resize(coords.len() + c.len_utf8(), (line, col));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From 64f2fbc7a3de309cfeaf0fcca36ff7f82b4e1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 03/29] fix: hex escape followed by a non-ASCII character
 panicked in the tokenizer

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..58b13b5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -140,7 +140,7 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
+                    let len = if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
                         end
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-- 
2.43.0


From 6a72da089ee93737c49abba623009e927ffc2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 04/29] fix: malformed escape sequences caused a panic after
 being reported

---
 src/parser/text.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index d183832..5b8df6f 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -75,7 +75,13 @@ impl <'a> Parser<'a> {
     /// and a Unicode replacement character is returned.
     pub(super) fn unescape_char(&mut self, tok: Token) -> char {
         let s = self.tok_str(tok);
-        match s.chars().nth(1).unwrap() {
+        let Some(c) = s.chars().nth(1) else {
+            // backslash before a newline; already reported by the tokenizer
+            return char::REPLACEMENT_CHARACTER;
+        };
+        match c {
+            // missing digits; already reported by the tokenizer
+            'x' | 'u' | 'U' if s.len() == 2 => char::REPLACEMENT_CHARACTER,
             'x' | 'u' | 'U' => {
                 let char_code = u32::from_str_radix(&s[2..], 16)
                     .unwrap_or_else(|e| self.ice_at(&format!("failed to parse hex digits: {e}"), tok.range));
-- 
2.43.0


From 04c6f7a332916a73ffeec4f4a737dbb7daf5978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 05/29] fix: fix_indentation panicked on non-ASCII indentation

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From b4b0854de229b439080258d6dc2c1d72b0dc2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 06/29] fix: unique ids made after a collision were not valid
 lowercase identifiers and could panic

---
 src/utils/text.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..9b9ecd8 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,13 +169,13 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        let mut id_base: &str = &id;
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
         
         let mut counter = 2;
-        let id: Rc<str> = loop {
+        let unique_id: Rc<str> = loop {
             let id = format!("{id_base}_{counter}");
             if !self.ids_used.contains(id.as_str()) {
                 break Rc::from(id);
@@ -188,7 +188,7 @@ impl UniqueIDGenerator {
             }
         };
         
-        self.ids_used.insert(id.clone());
-        id
+        self.ids_used.insert(unique_id.clone());
+        unique_id
     }
 }
-- 
2.43.0


From df23e6ec4105578e9f99bddf38244c5587248a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 07/29] fix: integer overflow in int::add, int::negate,
 list::enumerate and code is a runtime error

---
 src/compiler/native.rs      | 19 ++++++++++++++-----
 src/errors/runtime_error.rs |  2 ++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..b9bdbcf 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            let sum = ARGS.into_iter().map(i128::from).sum::<i128>();
+            Int::try_from(sum)
+                .map_err(|_| errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -222,6 +225,9 @@ crate::native_defs! {
         
         @bind_content
         fn ENUMERATE(FROM: named Int = 0, LIST: content List) {
+            if !LIST.is_empty() && FROM.checked_add(LIST.len() as Int - 1).is_none() {
+                return Err(errors::RuntimeError::IntegerOverflow.into());
+            }
             LIST.as_ref()
                 .iter()
                 .cloned()
@@ -424,7 +430,7 @@ crate::native_defs! {
     }
     
     fn CODE(LANGUAGE: implicit Option<RcStr> = (), CODE_BLOCK: named bool = false, FIRST_LINE_NO: named Int = 1, SOURCE: content RcStr) {
-        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)
+        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)?
     }
     
     fn IMPORT(PATH: content RcStr) {
@@ -494,7 +500,7 @@ impl <'a> Compiler<'a> {
         Ok(undecorated.into())
     }
     
-    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> Tag {
+    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> errors::PapyriResult<Tag> {
         use super::highlight::{syntax_highlight, enumerate_lines};
         
         let default = language.as_ref()
@@ -517,6 +523,9 @@ impl <'a> Compiler<'a> {
         }
         
         tag.content = if is_block {
+            if first_line_no.checked_add(lines.len() as Int).is_none() {
+                return Err(errors::RuntimeError::IntegerOverflow.into());
+            }
             enumerate_lines(lines, first_line_no)
         } else {
             if first_line_no != 1 {
@@ -528,7 +537,7 @@ impl <'a> Compiler<'a> {
             HTML::from_iter(lines)
         };
         
-        tag
+        Ok(tag)
     }
     
     fn native_fetch_impl(&mut self, path: RcStr) -> errors::PapyriResult<String> {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..74c875e 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -32,6 +32,7 @@ pub enum RuntimeError {
     Raised(std::rc::Rc<str>),
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
+    IntegerOverflow,
     ParseIntError(std::num::ParseIntError),
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
@@ -67,6 +68,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::Raised(msg) => f.write_str(msg),
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
+            RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
-- 
2.43.0


From 6b089c01f0c188b63a2dbc7f53a607c5dd240f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 08/29] fix: a link with block content was both block and
 inline content

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From 7c3675df820e93903177d60655eab51ff70a6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 09/29] fix: sequences mixing block and inline content were
 emitted without wrapping the inline content

---
 src/compiler/sequence.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/compiler/sequence.rs b/src/compiler/sequence.rs
index 7e0bf0b..0240fda 100644
--- a/src/compiler/sequence.rs
+++ b/src/compiler/sequence.rs
@@ -155,6 +155,23 @@ impl SequenceBuilder {
             return Err(e.into());
         }
         
+        // if only some items of a sequence are allowed as direct children, then
+        // push them individually, so that the others will be wrapped
+        if let HTML::Sequence(items) = &child {
+            let is_direct = |item: &HTML| match self.content_kind {
+                ContentKind::RequireOneOf(tag_names) => item.is_all(tag_names),
+                ContentKind::RequireBlock(..) |
+                ContentKind::AllowBlock(..) => item.is_block(),
+                _ => true,
+            };
+            if items.iter().any(is_direct) && !items.iter().all(is_direct) {
+                for item in items.iter() {
+                    self.push(compiler, item.clone())?;
+                }
+                return Ok(());
+            }
+        }
+        
         let is_allowed = match self.content_kind {
             ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),
             ContentKind::RequireBlock(..) |
-- 
2.43.0


From 5c34ad18498d7e4d783f99b5728f2234dccfcb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 10/29] fix: values passed implicitly were not coerced to the
 parameter's type

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 75ef03684e9ca6ba1f456b721ce2a4909c9f7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 11/29] fix: a content parameter with the name of another
 parameter was not reported

---
 src/parser/func.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..8a51c75 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -66,6 +66,7 @@ impl <'a> Parser<'a> {
         let mut positional_spread = false;
         let mut named_count = 0;
         let mut named_spread = false;
+        let mut names_used = NameIDSet::default();
         
         self.skip_whitespace();
         let lpar = self.poll_if_kind(TokenKind::LPar);
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -138,7 +138,10 @@ impl <'a> Parser<'a> {
             (false, dot.range)
         } else {
             let (c, spread_kind, _) = self.parse_param()?;
-            if spread_kind != SpreadKind::NoSpread {
+            if !names_used.insert(c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            } else if spread_kind != SpreadKind::NoSpread {
                 self.report(SyntaxError::ParamContentSpread, c.range);
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
-- 
2.43.0


From f6d03366a04c21bc6db64b2acca926725bd4b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 12/29] fix: compile_str disabled writing files, but not
 reading them

---
 src/compiler/context.rs     |  4 ++++
 src/compiler/native.rs      | 16 ++++++++++------
 src/errors/runtime_error.rs |  2 ++
 src/lib.rs                  |  1 +
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..2f507b7 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -33,6 +33,9 @@ pub struct Context {
     /// The unique ID generator for this compiler context.
     pub(super) unique_ids: text::UniqueIDGenerator,
     
+    /// Determines whether functions in the standard library may access files.
+    pub(crate) file_io_enabled: bool,
+    
     /// The output files collector for this compiler context, if it has one.
     pub out_files: Option<OutFiles<HTML>>,
     
@@ -54,6 +57,7 @@ impl Context {
             natives,
             natives_frame,
             unique_ids: text::UniqueIDGenerator::new(),
+            file_io_enabled: true,
             out_files: out_dir.map(OutFiles::new),
             http_client,
         };
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index b9bdbcf..5e4d943 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -392,7 +392,7 @@ crate::native_defs! {
     
     impl FILE {
         fn LIST(PATH: content RcStr) {
-            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
+            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?;
             let base_path = PATH.trim_end_matches('/');
             relpath::find_papyri_source_files_in_dir(
                     &path,
@@ -408,7 +408,7 @@ crate::native_defs! {
         }
         
         fn READ(PATH: content RcStr) {
-            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
+            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?;
             std::fs::read_to_string(path)
                 .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?
         }
@@ -434,13 +434,13 @@ crate::native_defs! {
     }
     
     fn IMPORT(PATH: content RcStr) {
-        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
+        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true)?;
         let (_, module_exports) = compiler.ctx.load_cached(path)?;
         module_exports
     }
     
     fn INCLUDE(PATH: content RcStr) {
-        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
+        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true)?;
         let (module_out, module_exports) = compiler.ctx.load_cached(path)?;
         
         for (&k, v) in module_exports.as_ref().iter() {
@@ -558,7 +558,11 @@ impl <'a> Compiler<'a> {
         String::from_utf8(s).unwrap()
     }
     
-    fn resolve_relative_path(&mut self, src_id: SourceFileID, relative_path: &str, add_papyri_suffix: bool) -> std::path::PathBuf {
+    fn resolve_relative_path(&mut self, src_id: SourceFileID, relative_path: &str, add_papyri_suffix: bool) -> errors::PapyriResult<std::path::PathBuf> {
+        if !self.ctx.file_io_enabled {
+            return Err(errors::RuntimeError::FileAccessDisabled.into());
+        }
+        
         let mut path = self.ctx.source_files
             .get(src_id)
             .path
@@ -570,7 +574,7 @@ impl <'a> Compiler<'a> {
         } else {
             path.push(relative_path);
         }
-        path
+        Ok(path)
     }
     
     fn eval_callback<T: TryConvert>(&mut self, callback: Func, arg: Value, call_range: SourceRange) -> errors::PapyriResult<T> {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 74c875e..31da46a 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -37,6 +37,7 @@ pub enum RuntimeError {
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
+    FileAccessDisabled,
     ParseHtmlError(std::rc::Rc<str>),
     NetworkError(reqwest::Error),
     NetworkDisabled,
@@ -73,6 +74,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
+            RuntimeError::FileAccessDisabled => f.write_str("file access is not enabled"),
             RuntimeError::ParseHtmlError(e) => write!(f, "failed to parse HTML ({e})"),
             RuntimeError::NetworkError(e) => write!(f, "network error ({e})"),
             RuntimeError::NetworkDisabled => write!(f, "network access is not enabled"),
diff --git a/src/lib.rs b/src/lib.rs
index 5b49100..9a064d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ pub mod utils;
 /// context, use `compiler::Context::compile_synthetic`.
 pub fn compile_str(src: &str) -> Result<String, errors::Diagnostics> {
     let mut ctx = compiler::Context::new(errors::ReportingLevel::Warning, None, None);
+    ctx.file_io_enabled = false;
     let result = ctx.compile_synthetic("<string>", src);
     
     if ctx.diagnostics.is_empty() {
-- 
2.43.0


From 39afa96be59d4aca03303124770f3f9eeafa595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 13/29] fix: file::list crashed when a source file's extension
 was not in lowercase

---
 src/compiler/native.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 5e4d943..4cec7d6 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -399,11 +399,7 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| format!("{base_path}/{}", p.with_extension("").to_string_lossy()).into())
                 .collect::<Vec<Value>>()
         }
         
-- 
2.43.0


From d512bc98101b670246fac7b18c936fb939916775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 14/29] fix: a directory with a .papyri extension was treated
 as a source file

---
 src/utils/relpath.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..912c83a 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -36,6 +36,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
                     .canonicalize()
                     .map_err(|e| on_error(entry.path(), e))
                     .ok()?;
+                if entry_path.is_dir() { return None; }
                 make_relative(&canonical_path, &entry_path)
             },
             Err(e) => {
-- 
2.43.0


From a54541b3a068f811011cb9bd739562241709a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 15/29] fix: output paths were confined wrongly when the output
 directory was not a plain path

---
 src/utils/relpath.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 912c83a..7aeec0a 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -1,7 +1,6 @@
 //! This module contains helper functions for dealing with relative paths.
 
-use std::path::{Path, PathBuf};
-use normalize_path::NormalizePath;
+use std::path::{Component, Path, PathBuf};
 
 use crate::errors;
 
@@ -9,11 +8,32 @@ use crate::errors;
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
-    base.join(rel)
-        .normalize()
-        .strip_prefix(base)
-        .map(Path::to_path_buf)
-        .ok()
+    let base = normalize(base);
+    let path = normalize(&base.join(rel));
+    let p = path.strip_prefix(&base).ok()?;
+    
+    p.components()
+        .all(|c| matches!(c, Component::Normal(_)))
+        .then(|| p.to_path_buf())
+}
+
+/// Normalises the given path without accessing the filesystem. Unlike the
+/// `normalize_path` crate, parent directory components are kept when there is
+/// no preceding component which they cancel out.
+fn normalize(path: &Path) -> PathBuf {
+    let mut ret = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {},
+            Component::ParentDir => match ret.components().last() {
+                Some(Component::Normal(_)) => { ret.pop(); },
+                Some(Component::RootDir) => {},
+                _ => ret.push(component),
+            },
+            _ => ret.push(component),
+        }
+    }
+    ret
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From 54d07c93b45c9c07590a4884e582ab032f71facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 16/29] fix: file::write accepted the output directory itself
 as the path of a file

---
 src/utils/outfiles.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/outfiles.rs b/src/utils/outfiles.rs
index b6ada81..c969ef3 100644
--- a/src/utils/outfiles.rs
+++ b/src/utils/outfiles.rs
@@ -32,6 +32,10 @@ impl <T> OutFiles<T> {
         let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
             return false
         };
+        if p.as_os_str().is_empty() {
+            // this is the output directory itself
+            return false;
+        }
         self.v.push((p.into_boxed_path(), t));
         true
     }
-- 
2.43.0


From 38dcfbfb09f9651fc14a635d0ef7afa817321694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 17/29] fix: cached modules hid errors from, and repeated
 unique ids in, later documents of a batch

---
 src/compiler/context.rs       |  1 +
 src/compiler/module_loader.rs | 25 +++++++++++++++++++++++++
 src/utils/text.rs             |  6 ++++++
 3 files changed, 32 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2f507b7..41a909b 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -86,6 +86,7 @@ impl Context {
     pub fn reset(&mut self) {
         self.diagnostics.clear();
         self.unique_ids.clear();
+        self.module_cache.reset();
         if matches!(&self.out_files, Some(o) if !o.is_empty()) {
             errors::ice("Output files were not consumed");
         }
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index d2be480..4badfa3 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -22,6 +22,11 @@ pub struct ModuleCache {
     
     /// The cache of compiled modules.
     cache: IndexMap<Box<path::Path>, ModuleState, fxhash::FxBuildHasher>,
+    
+    /// Indicates whether some module in the cache reported errors or warnings,
+    /// or generated unique IDs, when it was compiled. If so, then the results
+    /// in the cache are only valid for the current compile job.
+    is_job_specific: bool,
 }
 
 type CachedCompileResult = (HTML, RcDict);
@@ -47,6 +52,16 @@ impl ModuleCache {
         ModuleCache {
             stdlib: None,
             cache: IndexMap::default(),
+            is_job_specific: false,
+        }
+    }
+    
+    /// Forgets any compiled modules which would be invalid in a new compile
+    /// job.
+    pub(super) fn reset(&mut self) {
+        if self.is_job_specific {
+            self.cache.clear();
+            self.is_job_specific = false;
         }
     }
     
@@ -120,6 +135,9 @@ impl Context {
             ModuleState::NotLoaded => {
                 let index = self.module_cache.set(k.into_boxed_path(), ModuleState::Busy);
                 
+                let num_diagnostics = (self.diagnostics.num_errors, self.diagnostics.num_warnings);
+                let num_unique_ids = self.unique_ids.len();
+                
                 // compile with no `out_files`
                 let old_out_files = std::mem::take(&mut self.out_files);
                 let result = self.load_uncached(&path)
@@ -127,6 +145,13 @@ impl Context {
                 
                 self.out_files = old_out_files;
                 
+                if result.is_err()
+                    || (self.diagnostics.num_errors, self.diagnostics.num_warnings) != num_diagnostics
+                    || self.unique_ids.len() != num_unique_ids
+                {
+                    self.module_cache.is_job_specific = true;
+                }
+                
                 let state = result.as_ref()
                     .cloned()
                     .map_or(ModuleState::Error, ModuleState::Loaded);
diff --git a/src/utils/text.rs b/src/utils/text.rs
index 9b9ecd8..9b21549 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -150,6 +150,12 @@ impl UniqueIDGenerator {
         self.ids_used.clear();
     }
     
+    /// Returns the number of identifiers issued since the last call to
+    /// `clear()`.
+    pub(crate) fn len(&self) -> usize {
+        self.ids_used.len()
+    }
+    
     /// Returns a valid identifier based on the given `id_base` string, which
     /// is distinct from all other identifiers returned by this generator since
     /// the last call to `clear()`.
-- 
2.43.0


From 4040b0cbdac7437db6a8668973244a29f2b6409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 18/29] fix: warnings made --stdin fail without output

---
 src/bin/papyri.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..fe23f67 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -117,11 +117,12 @@ impl Main {
         
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
-        if self.ctx.diagnostics.is_empty() {
+        self.ctx.diagnostics.print_to_stderr();
+        
+        if self.ctx.diagnostics.num_errors == 0 {
             self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
-            self.ctx.diagnostics.print_to_stderr();
             Err(self.ctx.diagnostics.summary())
         }
     }
-- 
2.43.0


From de579a6da1c769be62670dd0feec10dd35893a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 19/29] fix: a quote after a comment always faced right

---
 src/parser/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 58b13b5..1067da2 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -45,6 +45,8 @@ pub fn tokenize(src: Rc<SourceFile>, strip_comments: bool, diagnostics: &mut err
         
         quote_dir = match kind {
             TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left,
+            // a comment leaves no trace in the output, so the context of what follows is whatever precedes it
+            TokenKind::Comment => quote_dir,
             _ => QuoteDir::Right,
         };
         cur = end;
-- 
2.43.0


From 2a254d3869484eae2c28d03c1531d87b846a303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 20/29] fix: only report a missing closing delimiter at the end
 of source when it is missing

---
 src/parser/base.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/base.rs b/src/parser/base.rs
index 0323798..193991b 100644
--- a/src/parser/base.rs
+++ b/src/parser/base.rs
@@ -81,9 +81,13 @@ impl <'a> Parser<'a> {
             }
             
             let child = parse(self)
-                .map_err(|_| {
-                    self.err_unmatched(open);
-                    self.report(SyntaxError::TokenExpectedWasEOF(close_kind), self.src.eof_range())
+                .map_err(|e| {
+                    // only complain about the closing token if it is really missing
+                    if !self.has_next(|_| true) {
+                        self.err_unmatched(open);
+                        self.report(SyntaxError::TokenExpectedWasEOF(close_kind), self.src.eof_range());
+                    }
+                    e
                 })?;
             children.push(child);
             
-- 
2.43.0


From 5e3b262bf1ef83ee262443dc5652438f503c3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 21/29] fix: parsing HTML dropped the contents of template tags

---
 src/compiler/html_parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 6547d37..f7040fb 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -42,7 +42,7 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
         // TODO: represent doctypes properly
         NodeData::Doctype {..} => HTML::Empty,
         
-        NodeData::Element {name, attrs, ..} => {
+        NodeData::Element {name, attrs, template_contents, ..} => {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
@@ -52,8 +52,10 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
                     Some(attr.value.as_ref().into()),
                 ))
                 .collect();
-            let children: HTML = node.children.borrow()
+            // the contents of a `<template>` tag are not its children
+            let children: HTML = template_contents.borrow()
                 .iter()
+                .chain(node.children.borrow().iter())
                 .map(|node| node_to_html(node, pool))
                 .collect();
             
-- 
2.43.0


From 3e0f4c3a2fe516f620bc5a3ddca14403bbba69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 22/29] fix: parsing HTML dropped the prefix of attributes like
 xlink:href

---
 src/compiler/html_parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index f7040fb..ed32ab3 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -47,7 +47,10 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
                 .map(|attr| (
-                    pool.insert_lowercase(attr.name.local.as_ref()),
+                    pool.insert_lowercase(match &attr.name.prefix {
+                        Some(prefix) if !prefix.is_empty() => format!("{prefix}:{}", attr.name.local),
+                        _ => attr.name.local.to_string(),
+                    }),
                     // TODO: correctly represent boolean attributes as None
                     Some(attr.value.as_ref().into()),
                 ))
-- 
2.43.0


From 60dd8c8cf78c2cc6937d3b8f693f977679004ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 23/29] fix: parsing HTML turned the contents of noscript tags
 into text

---
 src/compiler/html_parse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index ed32ab3..5f4617a 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -1,4 +1,4 @@
-use html5ever::parse_document;
+use html5ever::{parse_document, ParseOpts};
 use html5ever::tendril::TendrilSink;
 use markup5ever_rcdom::{Node, NodeData, RcDom};
 
@@ -10,7 +10,11 @@ use super::html::HTML;
 impl HTML {
     /// Parses the given string as HTML; may break on insane input.
     pub(super) fn parse(text: &str, pool: &mut StringPool) -> errors::PapyriResult<HTML> {
-        let dom = parse_document(RcDom::default(), Default::default())
+        // with scripting enabled, the contents of `<noscript>` tags would be parsed as text
+        let mut opts = ParseOpts::default();
+        opts.tree_builder.scripting_enabled = false;
+        
+        let dom = parse_document(RcDom::default(), opts)
             .from_utf8()
             .read_from(&mut text.as_bytes())
             .unwrap_or_else(|e| errors::ice(&format!("IOError while parsing HTML: {}", e)));
-- 
2.43.0


From 3631f0dc1c3b55d217b9f56b28309955a23af59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 24/29] fix: a newline at the start of a pre or textarea tag
 was lost to HTML parsers

---
 src/compiler/html.rs   | 10 ++++++++++
 src/compiler/render.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index fa86b00..4964fc6 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -138,6 +138,16 @@ impl HTML {
         }
     }
     
+    /// Indicates whether this HTML item begins with a literal newline.
+    pub(super) fn starts_with_newline(&self) -> bool {
+        match self {
+            HTML::RawNewline => true,
+            HTML::Text(t) => t.starts_with('\n'),
+            HTML::Sequence(seq) => seq[0].starts_with_newline(),
+            _ => false,
+        }
+    }
+    
     /// Indicates whether this HTML item matches a given set of allowed tag
     /// names. This is used to ensure e.g. that a `<ul>` tag only directly
     /// contains `<li>` tags.
diff --git a/src/compiler/render.rs b/src/compiler/render.rs
index a9f7757..2202e13 100644
--- a/src/compiler/render.rs
+++ b/src/compiler/render.rs
@@ -61,6 +61,11 @@ impl <'a, T: io::Write> Renderer<'a, T> {
                 }
             }
             write!(self.writer, ">")?;
+            
+            // HTML parsers drop a newline at the start of these tags
+            if matches!(name.as_ref(), "pre" | "textarea" | "listing") && tag.content.starts_with_newline() {
+                writeln!(self.writer)?;
+            }
         }
         
         self.render(&tag.content)?;
-- 
2.43.0


From 6e28f7d49314b1502f77c4529fc838b543a4e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 25/29] fix: empty braces in a template removed the whitespace
 before them

---
 src/parser/template.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/template.rs b/src/parser/template.rs
index 3cf6378..e461175 100644
--- a/src/parser/template.rs
+++ b/src/parser/template.rs
@@ -7,7 +7,7 @@ use super::token::{Token, TokenKind, QuoteKind};
 impl <'a> Parser<'a> {
     pub(super) fn parse_template_parts(&mut self, open: Token, open_kind: QuoteKind) -> Reported<(Vec<TemplatePart>, SourceRange)> {
         let mut parts: Vec<TemplatePart> = Vec::new();
-        let mut brace_stack: Vec<Token> = Vec::new();
+        let mut brace_stack: Vec<(Token, usize)> = Vec::new();
         let close = loop {
             let tok = self.expect_poll()
                 .map_err(|_| self.err_unmatched(open))?;
@@ -20,15 +20,17 @@ impl <'a> Parser<'a> {
                 },
                 
                 TokenKind::LBrace => {
-                    brace_stack.push(tok);
+                    brace_stack.push((tok, parts.len()));
                     self.skip_whitespace();
                 },
-                TokenKind::RBrace => {
-                    if brace_stack.pop().is_none() {
-                        self.err_unexpected_token(tok);
-                    } else if matches!(parts.last(), Some(TemplatePart::Whitespace)) {
+                TokenKind::RBrace => match brace_stack.pop() {
+                    // whitespace before the opening brace is not inside the braces
+                    Some((_, start)) => if parts.len() > start && matches!(parts.last(), Some(TemplatePart::Whitespace)) {
                         parts.pop();
-                    }
+                    },
+                    None => {
+                        self.err_unexpected_token(tok);
+                    },
                 },
                 
                 TokenKind::VarName => {
@@ -57,7 +59,7 @@ impl <'a> Parser<'a> {
             }
         };
         
-        for tok in brace_stack {
+        for (tok, _) in brace_stack {
             self.err_unmatched(tok);
         }
         
-- 
2.43.0


From 77cfed4fc9af38b0e877b4e9d551a6f2d358c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 26/29] fix: output which could not be written in full was
 reported as written

---
 src/bin/papyri.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index fe23f67..b74e3ef 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -1,4 +1,5 @@
 use std::{fs, io};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use arg::Args;
 use indexmap::IndexSet;
@@ -120,7 +121,9 @@ impl Main {
         self.ctx.diagnostics.print_to_stderr();
         
         if self.ctx.diagnostics.num_errors == 0 {
-            self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
+            let mut stdout = std::io::stdout();
+            self.ctx.render(&result.out, !self.options.text, &mut stdout)
+                .and_then(|_| stdout.flush())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
             Err(self.ctx.diagnostics.summary())
@@ -293,8 +296,15 @@ impl Main {
             .map(io::BufWriter::new)
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
-        self.ctx.render(&html, !self.options.text, &mut out_writer)
-            .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
+        let result = self.ctx.render(&html, !self.options.text, &mut out_writer)
+            .and_then(|_| out_writer.flush());
+        if let Err(e) = result {
+            // an incomplete file must not be mistaken for one which is up to date
+            if fs::symlink_metadata(path).is_ok_and(|m| m.is_file()) {
+                let _ = fs::remove_file(path);
+            }
+            return Err(format!("Failed to write file \"{path_str}\": {e}"));
+        }
         
         if !self.options.silent {
             println!("    => {path_str}");
-- 
2.43.0


From fa9144ecb94ae883fe6082daf156867ea956c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 27/29] fix: a function with very many parameters overflowed
 their count

---
 src/parser/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast.rs b/src/parser/ast.rs
index bba0a72..5d6d054 100644
--- a/src/parser/ast.rs
+++ b/src/parser/ast.rs
@@ -94,9 +94,9 @@ pub struct Signature {
     /// occur before all named parameters.
     pub(crate) params: Box<[Param]>,
     
-    pub(crate) positional_count: u16,
+    pub(crate) positional_count: u32,
     pub(crate) positional_spread: bool,
-    pub(crate) named_count: u16,
+    pub(crate) named_count: u32,
     pub(crate) named_spread: bool,
     
     /// If true, the final parameter is the contents parameter. Otherwise, the
-- 
2.43.0


From e0e806a512f3cc4fa0cbff64066aa7e47d724a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 28/29] fix: unique ids took time with the square of their
 number

---
 src/utils/text.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 9b21549..b792a36 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -1,5 +1,6 @@
 //! This module contains helper functions for text or string operations.
 
+use std::collections::HashMap;
 use std::rc::Rc;
 use deunicode;
 use htmlentity::entity;
@@ -129,6 +130,11 @@ pub fn get_source_language_hint<'a>(src: &'a str, default: &'a str) -> (&'a str,
 /// called.
 pub struct UniqueIDGenerator {
     ids_used: IndexSet<Rc<str>, fxhash::FxBuildHasher>,
+    
+    /// For each `id` and `max_len` which had to be made unique, the length of
+    /// the base and the counter at which the last unique ID was found; every
+    /// candidate before that one has been issued.
+    last_found: HashMap<(Rc<str>, usize), (usize, u32), fxhash::FxBuildHasher>,
 }
 
 impl Default for UniqueIDGenerator {
@@ -142,12 +148,14 @@ impl UniqueIDGenerator {
     pub fn new() -> UniqueIDGenerator {
         UniqueIDGenerator {
             ids_used: IndexSet::default(),
+            last_found: HashMap::default(),
         }
     }
     
     /// Clears this generator, allowing previously-issued IDs to be reused.
     pub fn clear(&mut self) {
         self.ids_used.clear();
+        self.last_found.clear();
     }
     
     /// Returns the number of identifiers issued since the last call to
@@ -180,7 +188,13 @@ impl UniqueIDGenerator {
             id_base = &id_base[..max_len - 2];
         }
         
-        let mut counter = 2;
+        let mut counter: u32 = 2;
+        let key = (id.clone(), max_len);
+        if let Some(&(base_len, last_counter)) = self.last_found.get(&key) {
+            id_base = &id_base[..base_len];
+            counter = last_counter;
+        }
+        
         let unique_id: Rc<str> = loop {
             let id = format!("{id_base}_{counter}");
             if !self.ids_used.contains(id.as_str()) {
@@ -194,6 +208,7 @@ impl UniqueIDGenerator {
             }
         };
         
+        self.last_found.insert(key, (id_base.len(), counter));
         self.ids_used.insert(unique_id.clone());
         unique_id
     }
-- 
2.43.0


From 9a3d7abdccb59a64170a4b71513520acd5fb49b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 29/29] fix: named character references: those with digits
 (&frac12;) or two characters were refused, some (&epsi;, &ohm;) gave another
 character

---
 src/parser/base.rs     |  8 ++++----
 src/parser/template.rs |  5 +++--
 src/parser/text.rs     | 20 +++++++++++++++-----
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/parser/base.rs b/src/parser/base.rs
index 193991b..6636df5 100644
--- a/src/parser/base.rs
+++ b/src/parser/base.rs
@@ -213,10 +213,10 @@ impl <'a> Parser<'a> {
                 let c = self.unescape_char(tok);
                 Ok(AST::Char(c, tok.range))
             },
-            TokenKind::Entity => {
-                let c = self.decode_entity(tok);
-                Ok(AST::Char(c, tok.range))
-            },
+            TokenKind::Entity => Ok(match self.decode_entity(tok) {
+                (c, None) => AST::Char(c, tok.range),
+                (c1, Some(c2)) => AST::Text([c1, c2].iter().collect::<String>().into(), tok.range),
+            }),
             _ => Ok(self.parse_text(tok)),
         }
     }
diff --git a/src/parser/template.rs b/src/parser/template.rs
index e461175..911c467 100644
--- a/src/parser/template.rs
+++ b/src/parser/template.rs
@@ -43,8 +43,9 @@ impl <'a> Parser<'a> {
                     parts.push(TemplatePart::LiteralChar(c));
                 },
                 TokenKind::Entity => {
-                    let c = self.decode_entity(tok);
-                    parts.push(TemplatePart::LiteralChar(c));
+                    let (c1, c2) = self.decode_entity(tok);
+                    parts.push(TemplatePart::LiteralChar(c1));
+                    parts.extend(c2.map(TemplatePart::LiteralChar));
                 },
                 TokenKind::Whitespace => parts.push(TemplatePart::Whitespace),
                 
diff --git a/src/parser/text.rs b/src/parser/text.rs
index 5b8df6f..60970ae 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -2,6 +2,7 @@
 
 use std::rc::Rc;
 use aho_corasick::{AhoCorasick, MatchKind, AhoCorasickBuilder};
+use html5ever::data::NAMED_ENTITIES;
 use htmlentity::entity;
 use once_cell::sync::Lazy;
 
@@ -57,16 +58,25 @@ pub(crate) fn substitutions(s: &str) -> String {
 
 impl <'a> Parser<'a> {
     /// Decodes a string containing an HTML entity to the character that entity
-    /// represents. If the string is not a valid entity, a syntax error is
-    /// reported and a Unicode replacement character is returned.
-    pub(super) fn decode_entity(&mut self, tok: Token) -> char {
+    /// represents; a few named entities represent two characters. If the string
+    /// is not a valid entity, a syntax error is reported and a Unicode replacement
+    /// character is returned.
+    pub(super) fn decode_entity(&mut self, tok: Token) -> (char, Option<char>) {
         let s = self.tok_str(tok);
+        if s.ends_with(';') {
+            if let Some(&(c1, c2)) = NAMED_ENTITIES.get(&s[1..]) {
+                // the table has a zero where there is no second character
+                if let Some(c1) = char::from_u32(c1) {
+                    return (c1, char::from_u32(c2).filter(|&c2| c2 != '\0'));
+                }
+            }
+        }
         let decoded = entity::decode(s);
         if decoded.len() == 1 {
-            decoded[0]
+            (decoded[0], None)
         } else {
             self.report(SyntaxError::TokenInvalidEntity, tok.range);
-            char::REPLACEMENT_CHARACTER
+            (char::REPLACEMENT_CHARACTER, None)
         }
     }
     
-- 
2.43.0

