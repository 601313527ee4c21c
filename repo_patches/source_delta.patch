From 622482a8a2bc83cd407dbd5cf0afb5a9d3436011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 01/13] fix: report division by zero and numeric overflow in
 expressions rather than panicking

---
 src/parsers.rs |  5 ++++-
 src/types.rs   | 49 ++++++++++++++++++++++++++-----------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..6f73c62 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,10 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().try_map(|expr, span| {
+        ExprValue::evaluate(expr)
+            .ok_or_else(|| Rich::custom(span, "division by zero or number out of range"))
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 59919e0..d9f35f1 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2225,12 +2225,22 @@ impl PartialEq<Decimal> for ExprValue {
     }
 }
 
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains,
+    /// or return `None` if it divides by zero or its value cannot be represented.
+    pub(crate) fn evaluate(expr: Expr) -> Option<Self> {
+        let (mut value, scale) = expr.evaluate()?;
+        value.rescale(scale);
+        Some(Self { value, expr })
+    }
+}
+
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// Panics if the expression divides by zero or its value cannot be represented.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::evaluate(expr).expect("expression has a value")
     }
 }
 
@@ -2260,32 +2270,25 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
-        where
-            F: Fn(Decimal) -> Decimal,
-        {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
-        }
-
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+    // `None` on division by zero or overflow
+    fn evaluate(&self) -> Option<(Decimal, u32)> {
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Option<(Decimal, u32)>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            Some((op(d1, d2)?, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
-            Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
+            Value(d) => Some((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
+            Neg(e1) => e1.evaluate().map(|(d, s)| (-d, s)),
             Paren(e) => e.evaluate(),
         }
     }
-- 
2.43.0


From 6448e888bf6dc2ed647b52cebb948809d5789781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 02/13] fix: only ASCII digits form a date or time, so that
 parsing one cannot panic

---
 src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..de4a1f4 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,8 +22,8 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
@@ -266,7 +266,7 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
 #[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
 enum RecoveryToken {
     #[token("-")]
-- 
2.43.0


From e333cf8a3e8284ade5a1c3f8e8e8d5c7aa93687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:12 +0000
Subject: [PATCH 03/13] fix: validate a currency by characters rather than
 bytes, which panicked on non-ASCII

---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index d9f35f1..f633e44 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate: Vec<char> = chars.collect();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 2295afa2301dd471611f2dcd88cae7569666e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:12 +0000
Subject: [PATCH 04/13] fix: trim trailing whitespace at a character boundary

---
 src/trim.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..cede0a8 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,9 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
-        None => end,
+    let trimmed = content[start..end].trim_end();
+    if trimmed.is_empty() {
+        end
+    } else {
+        start + trimmed.len()
     }
 }
 
-- 
2.43.0


From 012a8dbc955816db368d02fd59cdbd72bc90e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:33 +0000
Subject: [PATCH 05/13] fix: process consecutive pragmas without recursion,
 which overflowed the stack

---
 src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..97de9cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
 use std::{
     collections::{HashMap, VecDeque},
+    ops::ControlFlow,
     path::{Path, PathBuf},
 };
 
@@ -432,6 +433,18 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // not recursive, because there is no limit to the number of consecutive pragmas
+        loop {
+            if let ControlFlow::Break(item) = self.process_next() {
+                return item;
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    // process a single declaration, breaking with the next item
+    fn process_next(&mut self) -> ControlFlow<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -439,7 +452,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        ControlFlow::Break(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -651,7 +664,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        ControlFlow::Continue(())
                     }
                 }
             }
@@ -659,9 +672,9 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    ControlFlow::Continue(())
                 }
-                None => None,
+                None => ControlFlow::Break(None),
             },
         }
     }
-- 
2.43.0


From 59b6025d9363f5cb3d8816124570509a595f802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:04 +0000
Subject: [PATCH 06/13] fix: index the characters of a repeated synthetic
 source by byte offset

---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From c214c208b5d9f5c62398521e40c5a96f89e09346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:06 +0000
Subject: [PATCH 07/13] fix: look up included content by source ID, which
 panicked on a path which is not UTF-8

---
 src/sources.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..40aaa51 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -309,8 +309,18 @@ impl BeancountSources {
         let empty_char_indices = Vec::default();
         let (source_content, source_content_char_indices) = if source_id == self.root_source_id {
             (self.root_content.as_str(), &self.root_content_char_indices)
-        } else if let IncludedSource::Content(_, content, content_char_indices) =
-            self.included_content.get(Path::new(source_id_str)).unwrap()
+        } else if let Some((content, content_char_indices)) =
+            // by source ID rather than path, since the path string may be lossy
+            self.included_content.values().find_map(|included| {
+                match included {
+                    IncludedSource::Content(id, content, content_char_indices)
+                        if *id == source_id =>
+                    {
+                        Some((content, content_char_indices))
+                    }
+                    _ => None,
+                }
+            })
         {
             (content.as_str(), content_char_indices)
         } else {
-- 
2.43.0


From be554a142646905c8aa1f4b746d2231ff9a7a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 08/13] fix: a synthetic sources span in an inline source has
 no file name

---
 src/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 40aaa51..0bc270b 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -566,7 +566,10 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        // only an inline root source has no file name
+        let is_inline = self.sources.root_path.is_none()
+            && Into::<SourceId>::into(span.source) == self.sources.root_source_id;
+        resolve_span(*span, &|span| self.get_adjusted_source(span), !is_inline)
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
-- 
2.43.0


From 3c1146909472271309f1ea9134ab4c47f9997eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:18 +0000
Subject: [PATCH 09/13] fix: parse sources in a deterministic order, since each
 affects the parsing of later ones

---
 src/sources.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 0bc270b..9e27d30 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -359,8 +359,9 @@ impl BeancountSources {
         .collect()
     }
 
+    // in order of source ID, because parsing one source affects later ones via the shared parser state
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
-        once((
+        let mut contents = once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
@@ -376,6 +377,9 @@ impl BeancountSources {
                     }
                 }),
         )
+        .collect::<Vec<_>>();
+        contents.sort_by_key(|(source_id, _, _)| Into::<usize>::into(*source_id));
+        contents.into_iter()
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From 631baf2ce761dfa7df1f90a7560bc4b2a7ecc7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:29 +0000
Subject: [PATCH 10/13] fix: an empty text is not a tag or link

---
 src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index f633e44..0cf2f4f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2051,6 +2051,10 @@ pub struct TagOrLinkIdentifierError(Vec<char>);
 
 impl Display for TagOrLinkIdentifierError {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        if self.0.is_empty() {
+            return write!(f, "empty tag or link identifier");
+        }
+
         format(f, &self.0, single_quoted, ", ", Some("invalid characters "))?;
         format(
             f,
@@ -2069,7 +2073,7 @@ fn validate_tag_or_link_identifier(s: &str) -> Result<(), TagOrLinkIdentifierErr
         .chars()
         .filter(|c| !is_valid_tag_or_link_identifier_char(c))
         .collect::<Vec<char>>();
-    if bad_chars.is_empty() {
+    if bad_chars.is_empty() && !s.is_empty() {
         Ok(())
     } else {
         Err(TagOrLinkIdentifierError(bad_chars))
-- 
2.43.0


From f6ea8aa15abacfbfc40bb7e712ba0a945c9408d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:53 +0000
Subject: [PATCH 11/13] fix: report a number which cannot be represented
 exactly rather than rounding it

---
 src/lexer.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index de4a1f4..8ec57bc 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -6,7 +6,6 @@ use std::{
     error::Error,
     fmt::{self, Debug, Display, Formatter},
     ops::Range,
-    str::FromStr,
 };
 use time::{Date, Month, Time};
 use unescaper::unescape;
@@ -707,14 +706,12 @@ fn parse_number(s: &str) -> Result<Decimal, LexerError> {
     let result = if s.contains(',') {
         let mut without_commas = s.to_string();
         without_commas.retain(|c| c != ',');
-        FromStr::from_str(&without_commas)
+        Decimal::from_str_exact(&without_commas)
     } else {
-        FromStr::from_str(s)
+        Decimal::from_str_exact(s)
     };
 
-    result.map_err(|e: <rust_decimal::Decimal as std::str::FromStr>::Err| {
-        LexerError::new(e.to_string())
-    })
+    result.map_err(|e| LexerError::new(e.to_string()))
 }
 
 #[derive(PartialEq, Eq, Clone, Debug)]
-- 
2.43.0


From 2cf8e58e94e4ba0ff8f0234b7a88ff480af60910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:12 +0000
Subject: [PATCH 12/13] fix: report an included file which cannot be resolved
 as unreadable, rather than as a duplicate

---
 src/sources.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 9e27d30..4134c8f 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -107,7 +107,20 @@ impl BeancountSources {
                             Ok(globbed_include) => {
                                 glob_expansions.push(globbed_include.clone());
 
-                                if let Ok(canonical_path) = globbed_include.canonicalize() {
+                                let canonicalized = globbed_include.canonicalize();
+                                if let Err(e) = &canonicalized {
+                                    // e.g. a dangling symbolic link which matches the glob
+                                    included_content.insert(
+                                        globbed_include.clone(),
+                                        IncludedSource::Error(format!(
+                                            "{}: {}",
+                                            globbed_include.to_string_lossy(),
+                                            e
+                                        )),
+                                    );
+                                }
+
+                                if let Ok(canonical_path) = canonicalized {
                                     if canonical_paths.contains(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
-- 
2.43.0


From 79a914eb2c12490f9b3940e4ba642b859cfac2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:19 +0000
Subject: [PATCH 13/13] fix: whitespace at the end of the input doesn't indent
 anything

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 8ec57bc..4a9fe19 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -590,6 +590,8 @@ where
         }
 
         match first_tok {
+            // whitespace at the end of the input is a blank line, so doesn't indent anything
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0

