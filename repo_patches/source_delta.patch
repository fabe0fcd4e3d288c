From b4b82c3b42a47995719122ddaf0f250276f01c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:11 +0000
Subject: [PATCH 01/49] fix: treat a trait path as full only if it has a
 leading `::` when composing selectors

ink! uses the whole path for `::a::b::Trait` and only the trait's identifier for
relative paths of any length. The qualifier's `::` token was checked instead, which
is the separator of a relative path with two or more qualifying segments and is absent
from `::a::Trait`.
---
 crates/ir/src/selector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..c78ed43 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -118,9 +118,10 @@ impl Selector {
         match callable.parent_impl_item()?.trait_()? {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
+                // A full path starts with a leading `::` (e.g. `::my_full::long_path::MyTrait`).
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .first_segment()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
                     let mut full_path = trait_path.to_string();
                     full_path.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 45229060b5292419ffde812000c49f817ca9f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 02/49] fix: quickfix for a named variadic parameter removes
 the whole parameter

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..cbc0146 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1430,7 +1430,8 @@ pub fn ensure_fn_invariants(
                 .filter_map(|param| {
                     param.dotdotdot_token().map(|dotdotdot| {
                         // Edit range for quickfix.
-                        let range = utils::token_and_delimiter_range(&dotdotdot, SyntaxKind::COMMA);
+                        let range =
+                            utils::node_and_delimiter_range(param.syntax(), SyntaxKind::COMMA);
                         Diagnostic {
                             message: format!("ink! {ink_scope_name} must not be variadic."),
                             range: dotdotdot.text_range(),
-- 
2.43.0


From 5f4cbb7cde4793515fe34614872f66695bd2cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 03/49] fix: removing a trait function's body keeps the
 function terminated by a semicolon

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index cbc0146..14e306e 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1681,7 +1681,10 @@ pub fn ensure_trait_item_invariants<F, G>(
                                     label: "Remove function body.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: body.syntax().text_range(),
-                                    edits: vec![TextEdit::delete(body.syntax().text_range())],
+                                    edits: vec![TextEdit::replace(
+                                        ";".to_owned(),
+                                        body.syntax().text_range(),
+                                    )],
                                 }
                             ]),
                         });
-- 
2.43.0


From 6383e192db524da6563543051de1576635dc1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:14 +0000
Subject: [PATCH 04/49] fix: compare signatures by their non-trivia tokens
 (whitespace nested in types is not a mismatch)

---
 crates/analyzer/src/analysis/utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..83f9a8e 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2053,9 +2053,11 @@ where
 /// Compares two node for equality while ignoring trivia (i.e. whitespace and comments).
 pub fn is_trivia_insensitive_eq(a: &SyntaxNode, b: &SyntaxNode) -> bool {
     let strip_trivia = |node: &SyntaxNode| {
-        node.children_with_tokens()
-            .filter(|node| !node.kind().is_trivia())
-            .join("")
+        node.descendants_with_tokens()
+            .filter_map(|elem| elem.into_token())
+            .filter(|token| !token.kind().is_trivia())
+            .map(|token| token.text().to_owned())
+            .collect_vec()
     };
     strip_trivia(a) == strip_trivia(b)
 }
-- 
2.43.0


From 249a043a3a27d4446a1ac9c6083c1c01f546da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:14 +0000
Subject: [PATCH 05/49] fix: only suggest moving fn items into an impl block

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 14e306e..084425d 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1777,7 +1777,9 @@ where
                         },
                     )
                 })
-        }),
+        })
+        // Only `fn` items can be moved to an `impl` block.
+        .filter(|_| ast::Fn::can_cast(item.syntax().kind())),
     })
 }
 
-- 
2.43.0


From d8b07fadd900e312ac9448ba9d53098d3f245f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 06/49] fix: accept every Rust integer notation for ink!
 attribute argument values (digit separators, suffixes, binary and octal)

---
 crates/ir/src/attrs/meta/value.rs | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..4c06309 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -96,6 +96,14 @@ impl MetaValue {
             .expect("Either `MetaValue::token` or `MetaValue::expr` should be `Some`")
     }
 
+    /// Returns the literal kind (if the meta value is a literal expression).
+    fn literal_kind(&self) -> Option<ast::LiteralKind> {
+        match self.expr.as_ref()? {
+            ast::Expr::Literal(literal) => Some(literal.kind()),
+            _ => None,
+        }
+    }
+
     /// Returns the accurate text range for the parsed meta value.
     pub fn text_range(&self) -> TextRange {
         let mut start: Option<TextSize> = None;
@@ -143,33 +151,28 @@ impl MetaValue {
         self.kind() == SyntaxKind::AT
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u16`.
+    /// Converts the value if it's an integer literal into a `u16`.
     pub fn as_u16(&self) -> Option<u16> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u32`.
+    /// Converts the value if it's an integer literal into a `u32`.
     pub fn as_u32(&self) -> Option<u32> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a integer.
+    /// Converts the value if it's an integer literal into a integer.
     pub fn as_int<T>(&self) -> Option<T>
     where
         T: IsIntId,
     {
-        if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
-            if value.starts_with("0x") {
-                // Parse as hex.
-                T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-            } else {
-                // Parse as decimal.
-                value.parse::<T>().ok()
-            }
-        } else {
-            None
-        }
+        let Some(ast::LiteralKind::IntNumber(literal)) = self.literal_kind() else {
+            return None;
+        };
+        // Ignores the radix prefix, digit separators and type suffix (if any),
+        // because ink! parses integer literals using `syn::LitInt::base10_parse`.
+        let (_, digits, _) = literal.split_into_parts();
+        T::from_str_radix(&digits.replace('_', ""), literal.radix() as u32).ok()
     }
 
     /// Converts the value if it's a boolean literal (true or false keyword) into a `bool`.
-- 
2.43.0


From 009d6a00b022b9da845a2f4177bcc49c5e5bc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 07/49] fix: read raw strings and escape sequences in ink!
 attribute argument values

---
 crates/ir/src/attrs/meta/value.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 4c06309..eadb05b 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -186,14 +186,11 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        let Some(ast::LiteralKind::String(literal)) = self.literal_kind() else {
+            return None;
+        };
+        // Parses string value (i.e. removes quotes and resolves raw strings and escape sequences).
+        literal.value().map(Into::into)
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From 2bdb113530b4e5662f521f67b6a80c7fd79d2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:45 +0000
Subject: [PATCH 08/49] fix: accept comments around ink! attribute argument
 values

---
 crates/ir/src/attrs/meta/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index eadb05b..b711b2b 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,14 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // Comments are treated as whitespace.
+            let arg_text = elems
+                .iter()
+                .map(|elem| match elem.kind() {
+                    SyntaxKind::COMMENT => " ".to_owned(),
+                    _ => elem.to_string(),
+                })
+                .join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
-- 
2.43.0


From df137c4fe18e8c76bbfb61e2e5d5d29d0138dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 09/49] fix: don't suggest a namespace for ink! attributes of
 trait impl blocks

---
 crates/analyzer/src/analysis/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 83f9a8e..ab27f92 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -665,6 +665,9 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
                 &attr_parent,
                 version,
             );
+
+            // Filters out invalid (based on parent item) ink! attribute argument actions.
+            remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
         }
     }
 }
-- 
2.43.0


From 0d2985585c12f10686939c4edd8bcac867dc2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:21 +0000
Subject: [PATCH 10/49] fix: argument completions never replace a closing
 delimiter or whitespace

---
 crates/analyzer/src/analysis/completions.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index ef011da..52f7055 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -300,9 +300,17 @@ pub fn argument_completions(
             let prev_non_trivia_token_is_comma = item_at_offset
                 .prev_non_trivia_token()
                 .map_or(false, |prev_token| prev_token.kind() == SyntaxKind::COMMA);
-            let prev_token_is_whitespace = focused_token.prev_token().map_or(true, |prev_token| {
-                prev_token.kind() == SyntaxKind::WHITESPACE
-            });
+            // The cursor is in whitespace or right before a closing delimiter
+            // (i.e. nothing has been typed yet, so there's nothing to filter by nor to replace).
+            let is_blank = focused_token.kind() == SyntaxKind::WHITESPACE
+                || (matches!(
+                    focused_token.kind(),
+                    SyntaxKind::R_PAREN | SyntaxKind::R_BRACK
+                ) && focused_token.text_range().start() == offset);
+            let prev_token_is_whitespace = focused_token.kind() == SyntaxKind::WHITESPACE
+                || focused_token.prev_token().map_or(true, |prev_token| {
+                    prev_token.kind() == SyntaxKind::WHITESPACE
+                });
 
             // Only computes completions if the focused token is in an argument context.
             if focused_token_is_left_parenthesis
@@ -419,7 +427,7 @@ pub fn argument_completions(
                 }
 
                 // Filters suggestions by the focused prefix if the focused token is not a delimiter.
-                if !focused_token_is_left_parenthesis && !focused_token_is_comma {
+                if !focused_token_is_left_parenthesis && !focused_token_is_comma && !is_blank {
                     if let Some(prefix) = item_at_offset.focused_token_prefix() {
                         ink_arg_suggestions.retain(|arg_kind| {
                             format!("{arg_kind}").starts_with(prefix)
@@ -446,6 +454,8 @@ pub fn argument_completions(
                             // Removes the delimiter (i.e `(` and `,`) from text range if it's the focused token.
                             let focused_token_end = focused_token.text_range().end();
                             TextRange::new(focused_token_end, focused_token_end)
+                        } else if is_blank {
+                            TextRange::new(offset, offset)
                         } else {
                             focused_token.text_range()
                         },
-- 
2.43.0


From e32bbf80681a12d4d12a234dab5c631232f9aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 11/49] fix: macro completions never replace a closing bracket
 or whitespace

---
 crates/analyzer/src/analysis/completions.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 52f7055..d2e4b93 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -111,6 +111,12 @@ pub fn macro_completions(
                 let edit_range = if focused_token_is_left_bracket {
                     let focused_token_end = focused_token.text_range().end();
                     TextRange::new(focused_token_end, focused_token_end)
+                } else if focused_token.kind() == SyntaxKind::WHITESPACE
+                    || (focused_token.kind() == SyntaxKind::R_BRACK
+                        && focused_token.text_range().start() == offset)
+                {
+                    // Nothing has been typed yet, so there's nothing to replace.
+                    TextRange::new(offset, offset)
                 } else {
                     focused_token.text_range()
                 };
-- 
2.43.0


From 0d8128a2a4910903636775cc2049af284a584fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:39 +0000
Subject: [PATCH 12/49] fix: the range of a nested ink! attribute argument
 includes its closing parenthesis

---
 crates/ir/src/attrs/meta.rs   | 11 +++++++++--
 crates/ir/src/attrs/parser.rs |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..3e06edd 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -39,7 +39,8 @@ pub struct MetaNameValue {
     /// End offset of meta item.
     ///
     /// Useful in cases where the meta item is "semantically" empty,
-    /// but still covers a non-zero range (e.g. representing incomplete meta items like `(`).
+    /// but still covers a non-zero range (e.g. representing incomplete meta items like `(`),
+    /// or ends with the closing delimiter of a nested meta item (e.g. `backend(node)`).
     end: Option<TextSize>,
     /// Parent token tree of meta item.
     ///
@@ -73,6 +74,12 @@ impl MetaNameValue {
         }
     }
 
+    /// Sets the end offset of the meta item (i.e. the end of the delimiter that closes a nested meta item).
+    pub(crate) fn with_end(mut self, end: Option<TextSize>) -> Self {
+        self.end = end;
+        self
+    }
+
     /// Create an empty meta item.
     ///
     /// # Panics
@@ -177,7 +184,7 @@ impl MetaNameValue {
         // Fallback to using the separator start and end offsets if the meta item is "semantically" empty.
         TextRange::new(
             start.unwrap_or(self.start),
-            end.or(self.end).unwrap_or(self.start),
+            end.max(self.end).unwrap_or(self.start),
         )
     }
 
diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index eb51a59..1ddc1bc 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -85,6 +85,7 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                 let value: Vec<_> = arg_tokens.collect();
 
                 let mut nested_meta = None;
+                let mut nested_end = None;
                 if n_nested_tts == 1 {
                     if let Some(nested_token_tree) = nested_token_tree {
                         let nested_meta_items = parse_meta_items(&nested_token_tree);
@@ -100,6 +101,9 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                             )));
                         }
                         if nested_meta.is_some() {
+                            nested_end = nested_token_tree
+                                .r_paren_token()
+                                .map(|r_paren| r_paren.text_range().end());
                             // Remove the nested token tree from the name.
                             name.retain(|elem| elem.kind() != SyntaxKind::TOKEN_TREE);
                         }
@@ -121,6 +125,7 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                             nested_meta,
                             last_separator_offset,
                         )
+                        .with_end(nested_end)
                     } else {
                         MetaNameValue::empty(last_separator_offset, None, token_tree.clone())
                     },
-- 
2.43.0


From c49bdfbd2a7fa183898d54bcbc5a199ba2241f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 13/49] fix: no entity completions inside a half-typed
 attribute

---
 crates/analyzer/src/analysis/completions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index d2e4b93..c20ae12 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -503,7 +503,7 @@ pub fn entity_completions(
     };
 
     // Bail if focused token is part of an attribute.
-    if item_at_offset.parent_attr().is_some() {
+    if item_at_offset.normalized_parent_attr().is_some() {
         return;
     }
 
-- 
2.43.0


From c8a426bbfe37d217223708f990ef4d34c2ed092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:24 +0000
Subject: [PATCH 14/49] fix: split whitespace at the end of the replaced range
 when formatting edits

---
 crates/analyzer/src/analysis/text_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 12109d4..09f4655 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -133,7 +133,7 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
         let (whitespace_before, whitespace_after) = if edit.range.is_empty() {
             whitespace_text.split_at(start.into())
         } else {
-            let end = whitespace_token.text_range().end() - edit.range.end();
+            let end = edit.range.end() - whitespace_token.text_range().start();
             let (whitespace_before, _) = whitespace_text.split_at(start.into());
             let (_, whitespace_after) = whitespace_text.split_at(end.into());
             (whitespace_before, whitespace_after)
-- 
2.43.0


From e25d4b4870d33fa872620ecd53fe822163df4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 15/49] fix: entity actions never insert past the end of the
 focused item's body

---
 crates/analyzer/src/analysis/actions/item.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index e3b75b7..9e1c72b 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -21,13 +21,17 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
             // Computes an offset for editing around the focused element
             // (i.e. insert at the end of the focused element except if it's whitespace,
             // in which case insert based on the passed text range).
-            let focused_elem_edit_range = || {
+            let focused_elem_edit_range = |item: Option<&ast::Item>| {
                 if focused_elem.kind() == SyntaxKind::WHITESPACE
                     && focused_elem.text_range().contains_range(range)
                 {
                     range
                 } else {
-                    let end = focused_elem.text_range().end();
+                    // Never inserts past the end of the parent item's body.
+                    let elem_end = focused_elem.text_range().end();
+                    let end = item
+                        .and_then(utils::ast_item_terminal_token)
+                        .map_or(elem_end, |token| token.text_range().start().min(elem_end));
                     TextRange::new(end, end)
                 }
             };
@@ -94,7 +98,7 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                             item_ink_entity_actions(
                                 results,
                                 &ast_item,
-                                is_focused_on_body.then(focused_elem_edit_range),
+                                is_focused_on_body.then(|| focused_elem_edit_range(Some(&ast_item))),
                                 version,
                             );
                         }
@@ -110,7 +114,7 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                             root_ink_entity_actions(
                                 results,
                                 file,
-                                focused_elem_edit_range(),
+                                focused_elem_edit_range(None),
                                 version,
                             );
                         }
-- 
2.43.0


From 92704904170c24bdb1fa30fe3860a354b14d4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:25 +0000
Subject: [PATCH 16/49] fix: insert ink! topic fields where a field can start,
 and without a name in tuple structs

---
 .../analyzer/src/analysis/actions/entity.rs   | 19 +++++++++++++++++-
 .../analyzer/src/analysis/text_edit/common.rs | 20 +++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..0d209d4 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 
 use ink_analyzer_ir::{
     ast::{self, HasName},
-    syntax::{AstNode, TextRange},
+    syntax::{AstNode, SyntaxElement, SyntaxKind, TextRange},
     ChainExtension, Constructor, Contract, InkEntity, InkFile, IsInkEvent, IsInkFn, IsInkTrait,
     Message, TraitDefinition, Version,
 };
@@ -88,6 +88,23 @@ where
     event.struct_item().and_then(|struct_item| {
         // Sets insert offset or defaults to inserting at the end of the field list (if possible).
         range_option
+            // Only inserts at the specified range if a record field can start there
+            // (i.e. right after the opening curly bracket or a comma).
+            .filter(|range| {
+                matches!(
+                    struct_item.field_list(),
+                    Some(ast::FieldList::RecordFieldList(_))
+                ) && struct_item
+                    .syntax()
+                    .descendants_with_tokens()
+                    .filter_map(SyntaxElement::into_token)
+                    .take_while(|token| token.text_range().end() <= range.start())
+                    .filter(|token| !token.kind().is_trivia())
+                    .last()
+                    .is_some_and(|token| {
+                        matches!(token.kind(), SyntaxKind::L_CURLY | SyntaxKind::COMMA)
+                    })
+            })
             .map(|offset| (offset, None, None))
             .or_else(|| {
                 struct_item
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..a9fbc42 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -172,6 +172,26 @@ pub fn add_topic(
                 .filter_map(|field| field.name().as_ref().map(ToString::to_string))
         })
         .collect();
+    let is_tuple_struct = matches!(
+        struct_item.field_list(),
+        Some(ast::FieldList::TupleFieldList(_))
+    );
+    if is_tuple_struct {
+        // Tuple struct fields have no names.
+        return TextEdit::replace_with_snippet(
+            format!(
+                "{}#[ink(topic)] bool{}",
+                prefix.unwrap_or_default(),
+                suffix.unwrap_or_default()
+            ),
+            range,
+            Some(format!(
+                "{}#[ink(topic)] ${{1:bool}}{}",
+                prefix.unwrap_or_default(),
+                suffix.unwrap_or_default()
+            )),
+        );
+    }
     let (text, snippet) = unique_text_and_snippet(TOPIC_PLAIN, TOPIC_SNIPPET, "my_topic", &names);
 
     TextEdit::replace_with_snippet(
-- 
2.43.0


From 332817082b7fc324a9c91ee20cd47792577d1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:00 +0000
Subject: [PATCH 17/49] fix: no crate-level attribute when adding an ink!
 contract after other items

---
 .../analyzer/src/analysis/actions/entity.rs   |  3 +-
 crates/analyzer/src/analysis/actions/item.rs  |  1 +
 crates/analyzer/src/analysis/completions.rs   |  2 +-
 .../analyzer/src/analysis/text_edit/common.rs | 45 ++++++++++++-------
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 0d209d4..c468001 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -510,12 +510,13 @@ pub fn add_contract(
     kind: ActionKind,
     indent_option: Option<&str>,
     version: Version,
+    file: &InkFile,
 ) -> Action {
     Action {
         label: "Add ink! contract `mod`.".to_owned(),
         kind,
         range,
-        edits: vec![text_edit::add_contract(range, indent_option, version)],
+        edits: vec![text_edit::add_contract(range, indent_option, version, file)],
     }
 }
 
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index 9e1c72b..82cb655 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -621,6 +621,7 @@ fn root_ink_entity_actions(
             ActionKind::Refactor,
             None,
             version,
+            file,
         ));
     }
 
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index c20ae12..e43381b 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -866,7 +866,7 @@ pub fn entity_completions(
             results.push(Completion {
                 label: "#[ink::contract]..mod contract {...}".to_owned(),
                 range,
-                edit: text_edit::add_contract(range, None, version),
+                edit: text_edit::add_contract(range, None, version, file),
                 detail: Some("ink! contract".to_owned()),
                 kind: CompletionKind::Mod,
             });
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index a9fbc42..3a73572 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -73,21 +73,36 @@ macro_rules! mod_item_names {
 }
 
 /// Creates text edit for ink! contract.
-pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
-    text_edit_with_indent(
-        if version == Version::V5 {
-            CONTRACT_PLAIN_V5
-        } else {
-            CONTRACT_PLAIN
-        },
-        range,
-        Some(if version == Version::V5 {
-            CONTRACT_SNIPPET_V5
-        } else {
-            CONTRACT_SNIPPET
-        }),
-        indent,
-    )
+pub fn add_contract(
+    range: TextRange,
+    indent: Option<&str>,
+    version: Version,
+    file: &InkFile,
+) -> TextEdit {
+    let (mut plain, mut snippet) = if version == Version::V5 {
+        (CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5)
+    } else {
+        (CONTRACT_PLAIN, CONTRACT_SNIPPET)
+    };
+    // Crate-level (inner) attributes are only permitted before all items.
+    let has_preceding_items = file.syntax().children().any(|node| {
+        !ast::Attr::can_cast(node.kind()) && node.text_range().start() < range.start()
+    });
+    if has_preceding_items {
+        plain = without_inner_attribute(plain);
+        snippet = without_inner_attribute(snippet);
+    }
+    text_edit_with_indent(plain, range, Some(snippet), indent)
+}
+
+/// Strips the leading crate-level (inner) attribute (if any).
+fn without_inner_attribute(text: &str) -> &str {
+    if text.starts_with("#![") {
+        text.split_once('\n')
+            .map_or(text, |(_, rest)| rest.trim_start())
+    } else {
+        text
+    }
 }
 
 /// Creates text edit for ink! storage.
-- 
2.43.0


From 810bacb680046a84b92c23deeb1c114c032e0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:12 +0000
Subject: [PATCH 18/49] fix: accept whitespace and comments after a trailing
 comma in ink! attributes

---
 crates/ir/src/attrs/parser.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index 1ddc1bc..8483cab 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -37,7 +37,7 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
             })
     }
 
-    token_tree
+    let mut elems: Vec<_> = token_tree
         .syntax()
         .children_with_tokens()
         // Skip starting parenthesis if present.
@@ -48,6 +48,24 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                 // Stops before closing bracket (i.e. `]`) in unbalanced attributes (e.g. `#[ink_e2e::test(backend]`)
                 && !is_error_wrapped_closing_bracket(it)
         })
+        .collect();
+
+    // Ignores trivia between a trailing comma (or the opening parenthesis) and the closing parenthesis
+    // (i.e. `(message, )` and `( )` are equivalent to `(message,)` and `()`).
+    if r_paren.is_some() {
+        let n_trailing_trivia = elems
+            .iter()
+            .rev()
+            .take_while(|it| it.kind().is_trivia())
+            .count();
+        let n_other = elems.len() - n_trailing_trivia;
+        if n_other == 0 || elems[n_other - 1].kind() == T![,] {
+            elems.truncate(n_other);
+        }
+    }
+
+    elems
+        .into_iter()
         // Comma (`,`) separated groups.
         .group_by(|token| token.kind() == T![,])
         .into_iter()
@@ -92,7 +110,11 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                         // At the moment, ink! syntax (specifically v5) only nests a single meta item.
                         if nested_meta_items.len() == 1 {
                             nested_meta = Some(Box::new(nested_meta_items[0].to_owned()));
-                        } else if matches!(nested_token_tree.to_string().as_str(), "(" | "()") {
+                        } else if nested_token_tree
+                            .syntax()
+                            .children_with_tokens()
+                            .all(|it| matches!(it.kind(), T!['('] | T![')']) || it.kind().is_trivia())
+                        {
                             // Handles incomplete nested args.
                             nested_meta = Some(Box::new(MetaNameValue::empty(
                                 nested_token_tree.syntax().text_range().start(),
-- 
2.43.0


From 79304543111c36f7c732570b1281ef7cdca40aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 19/49] fix: suggested fn names are unique among all fns of the
 contract or trait

---
 .../analyzer/src/analysis/actions/entity.rs   | 23 +++----------
 .../src/analysis/diagnostics/contract.rs      |  8 +++--
 .../analyzer/src/analysis/text_edit/common.rs | 32 ++++++++-----------
 crates/analyzer/src/analysis/utils.rs         | 27 ++++++++++++++++
 4 files changed, 51 insertions(+), 39 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index c468001..84e5c77 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -1,12 +1,9 @@
 //! ink! entity code/intent actions.
 
-use std::collections::HashSet;
-
 use ink_analyzer_ir::{
-    ast::{self, HasName},
+    ast,
     syntax::{AstNode, SyntaxElement, SyntaxKind, TextRange},
-    ChainExtension, Constructor, Contract, InkEntity, InkFile, IsInkEvent, IsInkFn, IsInkTrait,
-    Message, TraitDefinition, Version,
+    ChainExtension, Contract, InkEntity, InkFile, IsInkEvent, IsInkTrait, TraitDefinition, Version,
 };
 
 use super::{Action, ActionKind};
@@ -204,16 +201,6 @@ fn add_callable_to_contract(
         })
 }
 
-fn contract_fn_names(contract: &Contract) -> HashSet<String> {
-    contract
-        .constructors()
-        .iter()
-        .filter_map(Constructor::fn_item)
-        .chain(contract.messages().iter().filter_map(Message::fn_item))
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect()
-}
-
 /// Adds an ink! constructor `fn` to the first non-trait `impl` block or
 /// creates a new `impl` block if necessary.
 pub fn add_constructor_to_contract(
@@ -221,7 +208,7 @@ pub fn add_constructor_to_contract(
     kind: ActionKind,
     range_option: Option<TextRange>,
 ) -> Option<Action> {
-    let names = contract_fn_names(contract);
+    let names = utils::contract_fn_names(contract);
     let (text, snippet) =
         text_edit::unique_text_and_snippet(CONSTRUCTOR_PLAIN, CONSTRUCTOR_SNIPPET, "new", &names);
     add_callable_to_contract(
@@ -241,7 +228,7 @@ pub fn add_message_to_contract(
     kind: ActionKind,
     range_option: Option<TextRange>,
 ) -> Option<Action> {
-    let names = contract_fn_names(contract);
+    let names = utils::contract_fn_names(contract);
     let (text, snippet) =
         text_edit::unique_text_and_snippet(MESSAGE_PLAIN, MESSAGE_SNIPPET, "my_message", &names);
     add_callable_to_contract(
@@ -264,7 +251,7 @@ pub fn add_message_selector_to_contract(
     range_option: Option<TextRange>,
     label_option: Option<String>,
 ) -> Option<Action> {
-    let names = contract_fn_names(contract);
+    let names = utils::contract_fn_names(contract);
     let (mut text, mut snippet) =
         text_edit::unique_text_and_snippet(MESSAGE_PLAIN, MESSAGE_SNIPPET, fn_name, &names);
     let selector_attr = format!("#[ink(message, selector = {selector})]");
diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 176e3c9..2d643e7 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -340,14 +340,18 @@ fn ensure_no_overlapping_selectors(results: &mut Vec<Diagnostic>, contract: &Con
                         })
                         .or_else(|| {
                             fn_name_option().map(|name| {
+                                let suggested_name = utils::suggest_unique_name(
+                                    &name.to_string(),
+                                    &utils::contract_fn_names(contract),
+                                );
                                 vec![Action {
                                     label: "Replace with a unique name.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: name.syntax().text_range(),
                                     edits: vec![TextEdit::replace_with_snippet(
-                                        format!("{name}2"),
+                                        suggested_name.clone(),
                                         name.syntax().text_range(),
-                                        Some(format!("${{1:{name}2}}")),
+                                        Some(format!("${{1:{suggested_name}}}")),
                                     )],
                                 }]
                             })
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 3a73572..2bc5f71 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait, Message,
+    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait,
     TraitDefinition, Version,
 };
 
@@ -226,19 +226,14 @@ pub fn add_topic(
     )
 }
 
+/// Returns the names of all `fn` items that share a scope with those of the `impl` block
+/// (i.e. including other `impl` blocks of the parent ink! contract - if any).
 fn impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
-    impl_item
-        .assoc_item_list()
-        .into_iter()
-        .flat_map(|assoc_item_list| {
-            assoc_item_list
-                .assoc_items()
-                .filter_map(|assoc_item| match assoc_item {
-                    ast::AssocItem::Fn(fn_item) => fn_item.name().as_ref().map(ToString::to_string),
-                    _ => None,
-                })
-        })
-        .collect()
+    let mut names = utils::assoc_fn_names(impl_item.assoc_item_list());
+    if let Some(contract) = ink_analyzer_ir::ink_parent::<Contract>(impl_item.syntax()) {
+        names.extend(utils::contract_fn_names(&contract));
+    }
+    names
 }
 
 /// Creates text edit for ink! constructor.
@@ -285,12 +280,11 @@ pub fn add_trait_def(range: TextRange, indent: Option<&str>) -> TextEdit {
 pub fn add_message_to_trait_def(trait_def: &TraitDefinition, range: TextRange) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(trait_def.syntax());
-    let names = trait_def
-        .messages()
-        .iter()
-        .filter_map(Message::fn_item)
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect();
+    let names = utils::assoc_fn_names(
+        trait_def
+            .trait_item()
+            .and_then(|trait_item| trait_item.assoc_item_list()),
+    );
     let (text, snippet) = unique_text_and_snippet(
         TRAIT_MESSAGE_PLAIN,
         TRAIT_MESSAGE_SNIPPET,
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index ab27f92..96cb1f5 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2023,6 +2023,33 @@ pub fn suggest_unique_name(preferred_name: &str, unavailable_names: &HashSet<Str
     suggested_name
 }
 
+/// Returns the names of all `fn` items in the `impl` blocks of an ink! contract.
+pub fn contract_fn_names(contract: &Contract) -> HashSet<String> {
+    contract
+        .module()
+        .and_then(ast::Module::item_list)
+        .into_iter()
+        .flat_map(|item_list| item_list.items().collect::<Vec<_>>())
+        .filter_map(|item| match item {
+            ast::Item::Impl(impl_item) => Some(impl_item),
+            _ => None,
+        })
+        .flat_map(|impl_item| assoc_fn_names(impl_item.assoc_item_list()))
+        .collect()
+}
+
+/// Returns the names of all `fn` items in an associated item list.
+pub fn assoc_fn_names(assoc_item_list: Option<ast::AssocItemList>) -> HashSet<String> {
+    assoc_item_list
+        .into_iter()
+        .flat_map(|assoc_item_list| assoc_item_list.assoc_items().collect::<Vec<_>>())
+        .filter_map(|assoc_item| match assoc_item {
+            ast::AssocItem::Fn(fn_item) => fn_item.name().as_ref().map(ToString::to_string),
+            _ => None,
+        })
+        .collect()
+}
+
 /// Returns text range of the contract `mod` "declaration"
 /// (i.e tokens between meta - attributes/rustdoc - and the start of the item list).
 pub fn contract_declaration_range(contract: &Contract) -> TextRange {
-- 
2.43.0


From d95bf23c0df919cd1d4da485fee9817bb591ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 20/49] fix: ids and names suggested for ink! 5 chain extension
 functions are unique

---
 .../analyzer/src/analysis/text_edit/common.rs | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 2bc5f71..243c9c7 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait,
+    ast, ChainExtension, Contract, Extension, Function, InkEntity, InkFile, IsInkTrait,
     TraitDefinition, Version,
 };
 
@@ -337,12 +337,11 @@ pub fn add_extension(
 ) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(chain_extension.syntax());
-    let names = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::fn_item)
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect();
+    let names = utils::assoc_fn_names(
+        chain_extension
+            .trait_item()
+            .and_then(|trait_item| trait_item.assoc_item_list()),
+    );
     let (mut text, mut snippet) = if version == Version::V5 {
         let preferred_name = "my_function";
         let suggested_name = utils::suggest_unique_name(preferred_name, &names);
@@ -358,12 +357,21 @@ pub fn add_extension(
             EXTENSION_FN_SNIPPET.replace(preferred_name, &suggested_name),
         )
     };
-    let unavailable_ids = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::id)
-        .collect();
-    let id = utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
+    let id = if version == Version::V5 {
+        let unavailable_ids = chain_extension
+            .functions()
+            .iter()
+            .filter_map(Function::id)
+            .collect();
+        utils::suggest_unique_id(None, &unavailable_ids).map_or(1, u32::from)
+    } else {
+        let unavailable_ids = chain_extension
+            .extensions()
+            .iter()
+            .filter_map(Extension::id)
+            .collect();
+        utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1)
+    };
     if id > 1 {
         text = text.replace("1)]", &format!("{id})]"));
         snippet = snippet.replace("1})]", &format!("{id}}})]"));
-- 
2.43.0


From 3066b0c1f5415bdbd2fb1f29c2fc2ee600d3152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:56 +0000
Subject: [PATCH 21/49] fix: ids suggested for new ink! attributes are unique

---
 crates/analyzer/src/analysis/actions/attr.rs  |   7 +-
 crates/analyzer/src/analysis/actions/item.rs  |   1 +
 crates/analyzer/src/analysis/completions.rs   |   7 +-
 .../src/analysis/diagnostics/common.rs        |  19 ++-
 crates/analyzer/src/analysis/utils.rs         | 112 +++++++-----------
 5 files changed, 72 insertions(+), 74 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/attr.rs b/crates/analyzer/src/analysis/actions/attr.rs
index 42e3bf9..9514112 100644
--- a/crates/analyzer/src/analysis/actions/attr.rs
+++ b/crates/analyzer/src/analysis/actions/attr.rs
@@ -78,7 +78,12 @@ pub fn actions(results: &mut Vec<Action>, file: &InkFile, range: TextRange, vers
                 {
                     // Adds ink! attribute argument action to accumulator.
                     let (edit, snippet) =
-                        utils::ink_arg_insert_text(arg_kind, Some(insert_offset), Some(&ink_attr));
+                        utils::ink_arg_insert_text(
+                            arg_kind,
+                            Some(insert_offset),
+                            Some(&ink_attr),
+                            None,
+                        );
                     results.push(Action {
                         label: format!("Add ink! {arg_kind} attribute argument."),
                         kind: ActionKind::Refactor,
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index 82cb655..8144f33 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -254,6 +254,7 @@ fn ink_arg_actions(
                 } else {
                     None
                 },
+                Some(target),
             );
             results.push(Action {
                 label: format!("Add ink! {arg_kind} attribute argument."),
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index e43381b..e506f22 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -467,7 +467,12 @@ pub fn argument_completions(
                         },
                     );
                     let (edit, snippet) =
-                        utils::ink_arg_insert_text(arg_kind, Some(range.end()), Some(&ink_attr));
+                        utils::ink_arg_insert_text(
+                            arg_kind,
+                            Some(range.end()),
+                            Some(&ink_attr),
+                            None,
+                        );
                     results.push(Completion {
                         label: edit.clone(),
                         range,
diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 084425d..16fae1e 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -198,7 +198,7 @@ fn validate_arg(
                 InkArgValueKind::from(*arg_kind)
             };
             let mut add_diagnostic = |message: String| {
-                let (text, snippet) = utils::ink_arg_insert_text(*arg_kind, None, attr);
+                let (text, snippet) = utils::ink_arg_insert_text(*arg_kind, None, attr, None);
                 results.push(Diagnostic {
                     message,
                     range: arg.text_range(),
@@ -614,7 +614,7 @@ fn validate_entity_attributes(
                     )
                     .map(|(insert_offset, prefix, suffix)| {
                         let (edit, snippet) =
-                            utils::ink_arg_insert_text(InkArgKind::Extension, None, None);
+                            utils::ink_arg_insert_text(InkArgKind::Extension, None, None, None);
                         vec![Action {
                             label: "Add ink! `extension` argument.".to_owned(),
                             kind: ActionKind::QuickFix,
@@ -860,7 +860,12 @@ fn validate_entity_attributes(
                 primary_attr_insert_offset_option().map(|insert_offset| {
                     let (insert_text, attr_desc, snippet) = match attr_kind {
                         InkAttributeKind::Arg(arg_kind) => {
-                            let (edit, snippet) = utils::ink_arg_insert_text(*arg_kind, None, None);
+                            let (edit, snippet) = utils::ink_arg_insert_text(
+                                *arg_kind,
+                                None,
+                                Some(&primary_ink_attr_candidate),
+                                None,
+                            );
                             (
                                 format!("#[ink({edit})]"),
                                 format!("ink! `{arg_kind}`"),
@@ -895,8 +900,12 @@ fn validate_entity_attributes(
                     .filter_map(|attr_kind| {
                         match attr_kind {
                             InkAttributeKind::Arg(arg_kind) => {
-                                let (edit, snippet) =
-                                    utils::ink_arg_insert_text(*arg_kind, None, None);
+                                let (edit, snippet) = utils::ink_arg_insert_text(
+                                    *arg_kind,
+                                    None,
+                                    Some(&primary_ink_attr_candidate),
+                                    None,
+                                );
                                 match utils::first_ink_arg_insert_offset_and_affixes(
                                     &primary_ink_attr_candidate,
                                 ) {
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 96cb1f5..d606b16 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -752,7 +752,13 @@ pub fn ink_arg_insert_text(
     arg_kind: InkArgKind,
     insert_offset_option: Option<TextSize>,
     parent_attr_option: Option<&InkAttribute>,
+    target_option: Option<&SyntaxNode>,
 ) -> (String, Option<String>) {
+    // Determines the parent `fn` item (if any) of either the parent attribute or the target item.
+    let parent_fn = parent_attr_option
+        .and_then(|ink_attr| ink_attr.syntax().parent())
+        .or_else(|| target_option.cloned())
+        .filter(|parent| ast::Fn::can_cast(parent.kind()));
     // Determines whether to insert an `=` symbol after the ink! attribute argument name.
     let value_kind = InkArgValueKind::from(arg_kind);
     let next_non_trivia_token = || {
@@ -845,21 +851,15 @@ pub fn ink_arg_insert_text(
             }
             InkArgKind::Extension => {
                 let mut unavailable_ids = HashSet::new();
-                if let Some(ink_attr) = parent_attr_option {
-                    let parent_fn = ink_attr
-                        .syntax()
-                        .parent()
-                        .filter(|parent| ast::Fn::can_cast(parent.kind()));
-                    if let Some(chain_extension) = parent_fn
-                        .as_ref()
-                        .and_then(ink_analyzer_ir::ink_parent::<ChainExtension>)
-                    {
-                        unavailable_ids = chain_extension
-                            .extensions()
-                            .iter()
-                            .filter_map(Extension::id)
-                            .collect();
-                    }
+                if let Some(chain_extension) = parent_fn
+                    .as_ref()
+                    .and_then(ink_analyzer_ir::ink_parent::<ChainExtension>)
+                {
+                    unavailable_ids = chain_extension
+                        .extensions()
+                        .iter()
+                        .filter_map(Extension::id)
+                        .collect();
                 }
 
                 let id = suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
@@ -867,21 +867,15 @@ pub fn ink_arg_insert_text(
             }
             InkArgKind::Function => {
                 let mut unavailable_ids = HashSet::new();
-                if let Some(ink_attr) = parent_attr_option {
-                    let parent_fn = ink_attr
-                        .syntax()
-                        .parent()
-                        .filter(|parent| ast::Fn::can_cast(parent.kind()));
-                    if let Some(chain_extension) = parent_fn
-                        .as_ref()
-                        .and_then(ink_analyzer_ir::ink_parent::<ChainExtension>)
-                    {
-                        unavailable_ids = chain_extension
-                            .functions()
-                            .iter()
-                            .filter_map(Function::id)
-                            .collect();
-                    }
+                if let Some(chain_extension) = parent_fn
+                    .as_ref()
+                    .and_then(ink_analyzer_ir::ink_parent::<ChainExtension>)
+                {
+                    unavailable_ids = chain_extension
+                        .functions()
+                        .iter()
+                        .filter_map(Function::id)
+                        .collect();
                 }
 
                 let id = suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
@@ -898,49 +892,33 @@ pub fn ink_arg_insert_text(
             InkArgKind::Selector => {
                 let mut unavailable_ids = HashSet::new();
 
-                if let Some(ink_attr) = parent_attr_option {
-                    let parent_fn = ink_attr
-                        .syntax()
-                        .parent()
-                        .filter(|parent| ast::Fn::can_cast(parent.kind()));
-                    let parent_trait_def = || {
-                        parent_fn
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::ink_parent::<TraitDefinition>)
-                    };
-                    let parent_contract = || {
-                        parent_fn.as_ref().and_then(|parent_fn| {
-                            ink_analyzer_ir::ink_ancestors::<Contract>(parent_fn).next()
-                        })
-                    };
-                    if let Some(trait_def) = parent_trait_def() {
+                if let Some(parent_fn) = parent_fn.as_ref() {
+                    if let Some(trait_def) =
+                        ink_analyzer_ir::ink_parent::<TraitDefinition>(parent_fn)
+                    {
                         unavailable_ids = trait_def
                             .messages()
                             .iter()
                             .filter_map(|msg| msg.composed_selector().map(Selector::into_be_u32))
                             .collect();
-                    } else if let Some(contract) = parent_contract() {
-                        let is_ctor = ink_attr
-                            .args()
-                            .iter()
-                            .any(|arg| *arg.kind() == InkArgKind::Constructor);
-                        unavailable_ids = if is_ctor {
-                            contract
-                                .constructors()
-                                .iter()
-                                .filter_map(|ctor| {
-                                    ctor.composed_selector().map(Selector::into_be_u32)
-                                })
-                                .collect()
-                        } else {
-                            contract
-                                .messages()
-                                .iter()
-                                .filter_map(|msg| {
-                                    msg.composed_selector().map(Selector::into_be_u32)
-                                })
-                                .collect()
+                    } else if let Some(contract) =
+                        ink_analyzer_ir::ink_ancestors::<Contract>(parent_fn).next()
+                    {
+                        let has_arg = |kind: InkArgKind| {
+                            ink_analyzer_ir::ink_attrs(parent_fn)
+                                .any(|attr| attr.args().iter().any(|arg| *arg.kind() == kind))
                         };
+                        // Selectors only have to be unique among callables of the same kind.
+                        if !has_arg(InkArgKind::Message) {
+                            unavailable_ids.extend(contract.constructors().iter().filter_map(
+                                |ctor| ctor.composed_selector().map(Selector::into_be_u32),
+                            ));
+                        }
+                        if !has_arg(InkArgKind::Constructor) {
+                            unavailable_ids.extend(contract.messages().iter().filter_map(|msg| {
+                                msg.composed_selector().map(Selector::into_be_u32)
+                            }));
+                        }
                     }
                 }
 
-- 
2.43.0


From 632ec3634182866035fa1f34f3c518234747892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:43 +0000
Subject: [PATCH 22/49] fix: names suggested for ink! events differ from those
 of all types in the module

---
 crates/analyzer/src/analysis/text_edit/common.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 243c9c7..a1b47bc 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -59,12 +59,12 @@ pub fn text_edit_with_indent(
 }
 
 macro_rules! mod_item_names {
-    ($mod: ident, $ty: ident) => {
+    ($mod: ident, $($ty: ident),+) => {
         $mod.item_list()
             .into_iter()
             .flat_map(|item_list| {
                 item_list.items().filter_map(|item| match item {
-                    ast::Item::$ty(item) => item.name().as_ref().map(ToString::to_string),
+                    $(ast::Item::$ty(item) => item.name().as_ref().map(ToString::to_string),)+
                     _ => None,
                 })
             })
@@ -137,7 +137,7 @@ pub fn add_storage(contract: &Contract, range: TextRange) -> TextEdit {
 pub fn add_event_v1(module: &ast::Module, range: TextRange) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(module.syntax());
-    let names = mod_item_names!(module, Struct);
+    let names = mod_item_names!(module, Struct, Enum, Union, Trait, TypeAlias);
     let (text, snippet) = unique_text_and_snippet(EVENT_PLAIN, EVENT_SNIPPET, "Event", &names);
 
     text_edit_with_indent(
@@ -156,7 +156,7 @@ pub fn add_event_v2(
 ) -> TextEdit {
     // Sets insert indent and suggested name.
     let (text, snippet) = if let Some(module) = module {
-        let names = mod_item_names!(module, Struct);
+        let names = mod_item_names!(module, Struct, Enum, Union, Trait, TypeAlias);
         unique_text_and_snippet(EVENT_PLAIN_V2, EVENT_SNIPPET_V2, "Event", &names)
     } else {
         (EVENT_PLAIN_V2.to_owned(), EVENT_SNIPPET_V2.to_owned())
-- 
2.43.0


From 3ed17fff283ba8cad59d61a42abc2d58258c4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:43 +0000
Subject: [PATCH 23/49] fix: ids suggested for ink! chain extensions are unique
 in the file

---
 crates/analyzer/src/analysis/diagnostics/common.rs |  8 ++++++--
 crates/analyzer/src/analysis/utils.rs              | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 16fae1e..b013b2f 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -613,8 +613,12 @@ fn validate_entity_attributes(
                         &primary_ink_attr_candidate,
                     )
                     .map(|(insert_offset, prefix, suffix)| {
-                        let (edit, snippet) =
-                            utils::ink_arg_insert_text(InkArgKind::Extension, None, None, None);
+                        let (edit, snippet) = utils::ink_arg_insert_text(
+                            InkArgKind::Extension,
+                            None,
+                            None,
+                            Some(primary_ink_attr_candidate.syntax()),
+                        );
                         vec![Action {
                             label: "Add ink! `extension` argument.".to_owned(),
                             kind: ActionKind::QuickFix,
diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index d606b16..77493ab 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -8,7 +8,7 @@ use ink_analyzer_ir::syntax::{
 };
 use ink_analyzer_ir::{
     ast, ChainExtension, Contract, Extension, Function, HasInkImplParent, InkArg, InkArgKind,
-    InkArgValueKind, InkAttribute, InkAttributeKind, InkEntity, InkImpl, InkMacroKind,
+    InkArgValueKind, InkAttribute, InkAttributeKind, InkEntity, InkFile, InkImpl, InkMacroKind,
     IsInkCallable, IsInkStruct, IsInkTrait, IsIntId, Message, Selector, Storage, TraitDefinition,
 };
 use itertools::Itertools;
@@ -860,6 +860,18 @@ pub fn ink_arg_insert_text(
                         .iter()
                         .filter_map(Extension::id)
                         .collect();
+                } else if let Some(file) = parent_attr_option
+                    .map(InkAttribute::syntax)
+                    .or(target_option)
+                    .and_then(|node| node.ancestors().last())
+                    .and_then(InkFile::cast)
+                {
+                    // Ids of other chain extensions in the file (i.e. for the attribute macro).
+                    unavailable_ids = file
+                        .chain_extensions()
+                        .iter()
+                        .filter_map(|ext| ext.id().map(u32::from))
+                        .collect();
                 }
 
                 let id = suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
-- 
2.43.0


From 1729ea5841ebd6a15f6b98a108743a70fe9bde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:27 +0000
Subject: [PATCH 24/49] fix: migration edits never overlap

---
 crates/analyzer/src/analysis/migrate.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..636ca3e 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -35,7 +35,23 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     e2e_test::migrate(&mut results, file);
 
     // Format and return edits.
-    format_edits(results.into_iter().unique(), file).collect()
+    let edits: Vec<TextEdit> = results.into_iter().unique().collect();
+    let mut formatted: Vec<TextEdit> = format_edits(edits.iter().cloned(), file).collect();
+    // Reverts range changes made by formatting if they'd cause edits to overlap
+    // (e.g. if an item is inserted in the whitespace that follows a deleted item).
+    for (idx, edit) in edits.iter().enumerate() {
+        let range = formatted[idx].range;
+        let is_overlapping = range != edit.range
+            && formatted.iter().enumerate().any(|(other_idx, other)| {
+                other_idx != idx
+                    && other.range.start() < range.end()
+                    && range.start() < other.range.end()
+            });
+        if is_overlapping {
+            formatted[idx].range = edit.range;
+        }
+    }
+    formatted
 }
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
-- 
2.43.0


From 960fa861c9d7da670f2099d7cba7bd59f3ec6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 25/49] fix: migrate calls in conditions, iterables, match
 guards and let-else blocks

---
 .../src/analysis/migrate/traversal.rs         | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..10afd91 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,10 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    visit_sub_expr_opt!(visitor, arm.guard().and_then(|guard| guard.condition()));
+                    visit_sub_expr_opt!(visitor, arm.expr());
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +102,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,15 +130,21 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
-        let expr = match stmt {
-            ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
-            ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
-            ast::Stmt::Item(_) => None,
+        let (expr, else_block) = match stmt {
+            ast::Stmt::ExprStmt(expr_stmt) => (expr_stmt.expr(), None),
+            ast::Stmt::LetStmt(let_stmt) => (
+                let_stmt.initializer(),
+                let_stmt.let_else().and_then(|it| it.block_expr()),
+            ),
+            ast::Stmt::Item(_) => (None, None),
         };
 
         if let Some(expr) = expr {
             visitor.visit_expr(&expr);
         }
+        if let Some(block) = else_block {
+            visitor.visit_block(&block);
+        }
     }
     let Some(expr) = stmt_list.tail_expr() else {
         return;
@@ -152,6 +162,9 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    if let Some(expr) = if_expr.condition() {
+        visitor.visit_expr(&expr);
+    }
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From 13f294ee3a6e2ffb5fec80cc9882413bb474af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 26/49] fix: only migrate instantiate_contract and
 invoke_contract calls on the ink! environment

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..441ff6c 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -225,10 +225,11 @@ impl Visitor for BodyVisitor {
                         .name_ref()
                         .is_some_and(|name| name.to_string() == "env")
             });
-        if !is_self_env_call {
+        if is_self_env_call {
+            chained_env_host_fn_call(&mut self.results, expr.syntax());
+        } else {
             walk_method_call(self, expr);
         }
-        chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
 }
 
-- 
2.43.0


From 58f540eeae9914a7cdde5837cc0ca15cb2ff9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 27/49] fix: migrating host function calls handles nested calls
 and is idempotent

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 441ff6c..f23b4ae 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -146,6 +146,10 @@ impl Visitor for BodyVisitor {
         match host_fn_wrapper_path {
             // Add `.instantiate_v1(..)` to `build_create::<..>(..)`.
             HostFnWrapper::BuildCreate(_) => {
+                // Ignore calls that are already migrated.
+                if chained_host_fn_call(expr.syntax(), "instantiate_v1", &[]).is_some() {
+                    return;
+                }
                 self.results.push(TextEdit::insert(
                     ".instantiate_v1()".to_owned(),
                     expr.syntax().text_range().end(),
@@ -186,6 +190,8 @@ impl Visitor for BodyVisitor {
                     format!("{name_ref}_v1"),
                     name_ref.syntax().text_range(),
                 ));
+                // Visit arguments.
+                walk_call(self, expr);
             }
         }
 
-- 
2.43.0


From 7155fe8d832b61e422b501c12761c2ffbb97ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:19 +0000
Subject: [PATCH 28/49] fix: migrating ink! e2e tests is idempotent and only
 affects calls on the client

---
 .../analyzer/src/analysis/migrate/e2e_test.rs | 48 +++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index 2cafb28..cb00ef1 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
@@ -63,10 +63,22 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
-        // Edit range for `fn` parameter list.
+        // Ignore signatures that are already migrated.
+        let generic_param_list = fn_item.generic_param_list();
+        if generic_param_list
+            .as_ref()
+            .is_some_and(|list| list.to_string().contains("E2EBackend"))
+        {
+            return;
+        }
+
+        // Edit range for `fn` generic parameter and parameter lists.
         let range = fn_item
             .param_list()
-            .map(|param_list| param_list.syntax().text_range())
+            .map(|param_list| {
+                let range = param_list.syntax().text_range();
+                generic_param_list.map_or(range, |list| range.cover(list.syntax().text_range()))
+            })
             .or_else(|| {
                 fn_item.name().map(|name| {
                     // Default to inserting at end of function name (if any).
@@ -165,7 +177,34 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 
     if let Some((insert_offset, indent)) = insert_offset_and_indent {
-        for e2e_trait in visitor.required_traits {
+        // Ignore traits that are already imported.
+        let is_imported = |e2e_trait: &E2ETrait| {
+            let path = e2e_trait.to_string();
+            let (qualifier, name) = path.split_once("::").unwrap_or_default();
+            let body_stmts = body.stmt_list().map(|it| it.syntax().clone());
+            e2e_test
+                .syntax()
+                .parent()
+                .into_iter()
+                .chain(body_stmts)
+                .flat_map(|node| node.children())
+                .filter_map(ast::Use::cast)
+                .any(|use_item| {
+                    let has_token = |text: &str| {
+                        use_item
+                            .syntax()
+                            .descendants_with_tokens()
+                            .filter_map(|elem| elem.into_token())
+                            .any(|token| token.text() == text)
+                    };
+                    has_token(qualifier) && has_token(name)
+                })
+        };
+        for e2e_trait in visitor
+            .required_traits
+            .into_iter()
+            .filter(|e2e_trait| !is_imported(e2e_trait))
+        {
             results.push(TextEdit::insert(
                 format!("\n{indent}use {e2e_trait};"),
                 insert_offset,
@@ -445,6 +484,7 @@ impl Visitor for BodyVisitor {
             .is_some_and(|receiver| receiver.to_string() == "client");
         if !is_client_receiver {
             walk_method_call(self, expr);
+            return;
         }
 
         let Some(method_name) = expr.name_ref() else {
-- 
2.43.0


From 25867e3e4205ac21a50a546373deb5449ae8426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:30 +0000
Subject: [PATCH 29/49] fix: migrating ink! events only replaces their
 attributes

---
 crates/analyzer/src/analysis/migrate.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 636ca3e..2776e38 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -68,17 +68,14 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
             if let Some(ink_attr) = event.ink_attr() {
                 // Replace legacy event with event 2.0.
                 let mut code = event.syntax().to_string();
-                code = code.replace(
-                    &ink_attr.syntax().to_string(),
-                    &format!(
-                        "#[ink::event{}]",
-                        if event.anonymous_arg().is_some() {
-                            "(anonymous)"
-                        } else {
-                            ""
-                        }
-                    ),
-                );
+                let mut replacements = vec![(
+                    ink_attr.syntax().text_range(),
+                    if event.anonymous_arg().is_some() {
+                        "#[ink::event(anonymous)]"
+                    } else {
+                        "#[ink::event]"
+                    },
+                )];
 
                 // Remove standalone `anonymous` attribute (if any).
                 if let Some(arg) = event.anonymous_arg() {
-- 
2.43.0


From cc9b116ffcad6df065fc2e03fdf507676d4c2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:30 +0000
Subject: [PATCH 30/49] fix: migration of ink! e2e test attributes, imports and
 nested calls yields valid code

---
 crates/analyzer/src/analysis/migrate.rs       | 13 +++-
 .../analyzer/src/analysis/migrate/e2e_test.rs | 61 ++++++++++++++-----
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 2776e38..0fb1ea5 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -85,11 +85,22 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                         .contains_range(arg.text_range())
                     {
                         if let Some(anonymous_attr) = arg.parent_attr() {
-                            code = code.replace(&anonymous_attr.syntax().to_string(), "");
+                            replacements.push((anonymous_attr.syntax().text_range(), ""));
                         }
                     }
                 }
 
+                // Apply attribute replacements (from last to first).
+                replacements.sort_by_key(|(range, _)| std::cmp::Reverse(range.start()));
+                let event_start = event.syntax().text_range().start();
+                for (range, replacement) in replacements {
+                    let range = range - event_start;
+                    code.replace_range(
+                        usize::from(range.start())..usize::from(range.end()),
+                        replacement,
+                    );
+                }
+
                 // Update indenting.
                 if let Some(indent) = utils::item_indenting(event.syntax()) {
                     code = utils::reduce_indenting(&code, &indent);
diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index cb00ef1..b3faacc 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -3,9 +3,9 @@
 use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasGenericParams, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasAttrs, HasDocComments, HasGenericParams, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
-use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
+use ink_analyzer_ir::{ast, Contract, InkArg, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
 
 use super::common;
@@ -46,16 +46,20 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
             results.push(TextEdit::delete(meta.syntax().text_range()));
         }
     } else {
-        // Remove `additional_contracts` argument (if any).
-        if let Some(arg) = e2e_test.additional_contracts_arg() {
-            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            results.push(TextEdit::delete(range));
-        }
-
-        // Remove `keep_attr` argument (if any).
-        if let Some(arg) = e2e_test.keep_attr_arg() {
-            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
-            results.push(TextEdit::delete(range));
+        // Remove `additional_contracts` and `keep_attr` arguments (if any).
+        let removal_range =
+            |arg: Option<InkArg>| Some(utils::ink_arg_and_delimiter_removal_range(&arg?, None));
+        match (
+            removal_range(e2e_test.additional_contracts_arg()),
+            removal_range(e2e_test.keep_attr_arg()),
+        ) {
+            // Adjacent arguments share a delimiter.
+            (Some(range), Some(other_range)) if range.intersect(other_range).is_some() => {
+                results.push(TextEdit::delete(range.cover(other_range)));
+            }
+            (range, other_range) => {
+                results.extend(range.into_iter().chain(other_range).map(TextEdit::delete));
+            }
         }
     }
 }
@@ -135,9 +139,14 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         {
             let insert_offset = file_root
                 .doc_comments()
-                .last()
-                .as_ref()
                 .map(|comment| comment.syntax().text_range().end())
+                // Inner attributes are only permitted before all items.
+                .chain(
+                    file_root
+                        .attrs()
+                        .map(|attr| attr.syntax().text_range().end()),
+                )
+                .max()
                 .unwrap_or_else(|| file_root.syntax().text_range().start());
             insert_offset_and_indent = Some((insert_offset, String::new()));
         }
@@ -356,6 +365,26 @@ impl BodyVisitor {
             required_traits: HashSet::new(),
         }
     }
+
+    /// Returns the text of an expression after applying migration edits for its sub-expressions.
+    fn migrated_text(&mut self, expr: &ast::Expr) -> String {
+        let mut visitor = Self::new();
+        visitor.visit_expr(expr);
+        self.required_traits.extend(visitor.required_traits);
+
+        let mut text = expr.to_string();
+        let start = expr.syntax().text_range().start();
+        let mut edits = visitor.results;
+        edits.sort_by_key(|edit| std::cmp::Reverse(edit.range.start()));
+        for edit in edits {
+            let range = edit.range - start;
+            text.replace_range(
+                usize::from(range.start())..usize::from(range.end()),
+                &edit.text,
+            );
+        }
+        text
+    }
 }
 
 impl Visitor for BodyVisitor {
@@ -501,6 +530,7 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
+                    let constructor = self.migrated_text(&constructor);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
@@ -527,6 +557,7 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
+                    let message = self.migrated_text(&message);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
@@ -585,7 +616,7 @@ impl Visitor for BodyVisitor {
                     self.required_traits.insert(E2ETrait::Chain);
                 }
             }
-            _ => (),
+            _ => walk_method_call(self, expr),
         }
 
         fn value_call(expr: &ast::Expr) -> Option<String> {
-- 
2.43.0


From 501dd7d3ebe7f499ed9f5701f06f287afec7c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:43 +0000
Subject: [PATCH 31/49] fix: don't suggest ink! 5 e2e backends for ink! 4

---
 crates/analyzer/src/analysis/completions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index e506f22..72659d1 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -336,7 +336,11 @@ pub fn argument_completions(
                         && arg.text_range().contains_inclusive(offset)
                         && !arg.meta().is_empty()
                 };
-                if let Some(top_arg) = ink_attr.args().iter().find(|arg| is_valid_focused_arg(arg))
+                // "nested" ink! attribute arguments are only available for ink! >= 5.
+                if let Some(top_arg) = ink_attr
+                    .args()
+                    .iter()
+                    .find(|arg| version == Version::V5 && is_valid_focused_arg(arg))
                 {
                     let mut nested_arg = None;
                     while let Some(arg) = nested_arg
-- 
2.43.0


From 13ad7ea5592ec65ef7e14cc3e3517628066a88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:42 +0000
Subject: [PATCH 32/49] fix: LSP positions past the end of a line denote its
 end, never text outside of it

---
 crates/lsp-server/src/translator/from_lsp.rs | 32 ++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..c23b6ba 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -22,7 +22,14 @@ pub fn offset(
         } else {
             WideEncoding::Utf16
         };
-        context.line_index.to_utf8(wide_encoding, wide_line_col)?
+        context
+            .line_index
+            .to_utf8(wide_encoding, wide_line_col)
+            // Column overflows, so it's definitely past the end of the line.
+            .unwrap_or(LineCol {
+                line: position.line,
+                col: u32::MAX,
+            })
     } else {
         // Handles uft-8 position encoding.
         LineCol {
@@ -31,7 +38,28 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    // Determines the offset range of the line (excluding its line feed), rejects lines that don't exist.
+    let line_start = context.line_index.offset(LineCol {
+        line: line_col.line,
+        col: 0,
+    })?;
+    let line_end = context
+        .line_index
+        .offset(LineCol {
+            line: line_col.line + 1,
+            col: 0,
+        })
+        .map(|next_line_start| next_line_start - ink_analyzer::TextSize::from(1))
+        .unwrap_or(context.line_index.len());
+
+    // Column defaults to the end of the line if it's past it.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let offset = line_start
+        .checked_add(ink_analyzer::TextSize::from(line_col.col))
+        .map_or(line_end, |offset| offset.min(line_end));
+
+    // Rejects positions inside multi-byte characters.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 22f6c849feebdf4ba6c0a32986ea51f2c36be09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:42 +0000
Subject: [PATCH 33/49] fix: reject invalid extraction ranges instead of
 crashing the language server

---
 crates/lsp-server/src/dispatch/handlers/request.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..18c22c5 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,10 +322,12 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
+        .and_then(|(start, end)| u32::try_from(start).ok().zip(u32::try_from(end).ok()))
+        .filter(|(start, end)| start <= end)
         .map(|(start, end)| {
             ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
+                ink_analyzer::TextSize::from(start),
+                ink_analyzer::TextSize::from(end),
             )
         })
 }
-- 
2.43.0


From cbe55ee09b10a411e65541ca4ec199795ab5475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:42 +0000
Subject: [PATCH 34/49] fix: malformed LSP notifications don't terminate the
 language server

---
 crates/lsp-server/src/dispatch.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..6e7d382 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -187,17 +187,27 @@ impl<'a> Dispatcher<'a> {
     pub fn handle_notification(&mut self, not: lsp_server::Notification) -> anyhow::Result<()> {
         // Routes notification to appropriate handler (if any).
         let mut router = NotificationRouter::new(not, &mut self.memory);
-        router
+        let result = router
             .process::<lsp_types::notification::DidOpenTextDocument>(
                 handlers::notification::handle_did_open_text_document,
-            )?
-            .process::<lsp_types::notification::DidChangeTextDocument>(
-                handlers::notification::handle_did_change_text_document,
-            )?
-            .process::<lsp_types::notification::DidCloseTextDocument>(
-                handlers::notification::handle_did_close_text_document,
-            )?
-            .finish();
+            )
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidChangeTextDocument>(
+                    handlers::notification::handle_did_change_text_document,
+                )
+            })
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidCloseTextDocument>(
+                    handlers::notification::handle_did_close_text_document,
+                )
+            })
+            .map(NotificationRouter::finish);
+
+        // Notifications have no response, so a malformed notification is only logged,
+        // it mustn't terminate the server.
+        if let Err(error) = result {
+            eprintln!("{error}");
+        }
 
         // Process memory changes (if any) made by notification handlers.
         self.process_changes()?;
-- 
2.43.0


From b89fc6b8213e3b234d72bc1d7620885d6f5bb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 35/49] fix: ink! version requirements like `5` and `<5.0` are
 understood as Cargo does

---
 crates/lsp-server/src/dispatch.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 6e7d382..1513d7c 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -554,8 +554,10 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
-    RE.is_match(text)
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"^\s*([\^~>=]|>=)?\s*5\s*(\.|$)").unwrap());
+    text.split(',')
+        .any(|requirement| RE.is_match(requirement))
 }
 
 #[cfg(test)]
-- 
2.43.0


From eb5f47de5ed7076e20037454d2fd5fefa9bed77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 36/49] fix: reject project names that yield Rust keywords,
 derive names consistently

---
 crates/analyzer/src/codegen.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index 617e5b7..0f1487f 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -6,6 +6,7 @@ use crate::codegen::snippets::{
     CARGO_TOML_PLAIN_V5, CARGO_TOML_SNIPPET_V5, CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5,
 };
 use crate::{utils, Version};
+use ink_analyzer_ir::syntax::SyntaxKind;
 use snippets::{CARGO_TOML_PLAIN, CARGO_TOML_SNIPPET, CONTRACT_PLAIN, CONTRACT_SNIPPET};
 
 /// Code stubs/snippets for creating an ink! project
@@ -64,6 +65,14 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
     let module_name = name.replace('-', "_");
     let struct_name = utils::pascal_case(&module_name);
 
+    // Validates that the names can be used as Rust identifiers (i.e. they can't be Rust keywords).
+    if [&module_name, &struct_name]
+        .iter()
+        .any(|it| SyntaxKind::from_keyword(it).is_some())
+    {
+        return Err(Error::ContractName);
+    }
+
     // Returns project code stubs/snippets.
     Ok(Project {
         // Generates `lib.rs`.
@@ -73,16 +82,16 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
             } else {
                 CONTRACT_PLAIN
             }
-            .replace("my_contract", &module_name)
-            .replace("MyContract", &struct_name),
+            .replace("MyContract", &struct_name)
+            .replace("my_contract", &module_name),
             snippet: Some(
                 if version == Version::V5 {
                     CONTRACT_SNIPPET_V5
                 } else {
                     CONTRACT_SNIPPET
                 }
-                .replace("my_contract", &module_name)
-                .replace("MyContract", &struct_name),
+                .replace("MyContract", &struct_name)
+                .replace("my_contract", &module_name),
             ),
         },
         // Generates `Cargo.toml`.
-- 
2.43.0


From 3788bd3d40d5ce25bff9e82ec48108f340011808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 37/49] fix: report missing trait implementation arguments in a
 deterministic order

---
 crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..82b152e 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -819,6 +819,8 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        // Arguments of equal priority keep the order of the declaration.
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From 08fd66ce9ff0bef167f19f240016ea69171e6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:58 +0000
Subject: [PATCH 38/49] fix: comments and line breaks in paths don't affect
 name resolution

---
 crates/ir/src/tree/ast_ext.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..f52ba44 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 use std::iter::once;
 
 use ra_ap_syntax::ast::{HasAttrs, HasName};
-use ra_ap_syntax::{ast, AstNode, SyntaxKind, SyntaxNode, SyntaxToken};
+use ra_ap_syntax::{ast, AstNode, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken};
 
 use crate::traits::IsSyntax;
 
@@ -291,7 +291,6 @@ pub fn simple_use_paths_and_aliases_in_scope(
         .flatten();
 
     for (path, alias_option) in use_results {
-        let path = remove_whitespace(&path);
         match alias_option {
             None => {
                 use_paths.insert(path);
@@ -323,9 +322,14 @@ pub fn path_from_type(ty: &ast::Type) -> Option<ast::Path> {
 
 /// Converts a path to a string.
 ///
-/// **NOTE**: Removes whitespace.
+/// **NOTE**: Removes whitespace and comments.
 pub fn path_to_string(path: &ast::Path) -> String {
-    remove_whitespace(&path.to_string())
+    path.syntax()
+        .descendants_with_tokens()
+        .filter_map(SyntaxElement::into_token)
+        .filter(|token| !token.kind().is_trivia())
+        .map(|token| token.text().to_owned())
+        .collect()
 }
 
 // Returns the item list syntax node for the given syntax node.
@@ -370,9 +374,9 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
                 .map(|(sub_path, alias)| {
                     (
                         if sub_path == "self" {
-                            path_prefix.to_string()
+                            path_to_string(&path_prefix)
                         } else {
-                            format!("{path_prefix}::{sub_path}")
+                            format!("{}::{sub_path}", path_to_string(&path_prefix))
                         },
                         alias,
                     )
@@ -397,10 +401,6 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
     }
 }
 
-fn remove_whitespace(text: &str) -> String {
-    text.replace(' ', "")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 425a2ebd952c88ac074e9f625a1653d5668ef2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 39/49] fix: cyclic use declarations and type aliases don't
 overflow the stack (name resolution)

---
 crates/ir/src/tree/ast_ext.rs | 49 +++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index f52ba44..31f0160 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -108,6 +108,26 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_inner(path, ref_node, &mut HashSet::new())
+}
+
+// Path and reference node pairs for which resolution has already been attempted.
+// NOTE: Use declarations and type aliases can be cyclic (e.g. `use self::a as b; use self::b as a;`).
+type VisitedPaths = HashSet<(String, SyntaxNode)>;
+
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut VisitedPaths,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    // Only continue if we haven't already tried to resolve this path.
+    if !visited.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -132,21 +152,21 @@ where
                     })
                 })
         };
-        let resolve_from_module_use_scope = || {
+        let resolve_from_module_use_scope = |visited: &mut VisitedPaths| {
             let item_name = target_name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
                 |resolved_path| {
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_inner(&resolved_path, &root_node, visited)
                     } else {
                         None
                     }
                 },
             )
         };
-        let resolve_from_ref_item_use_scope = || {
+        let resolve_from_ref_item_use_scope = |visited: &mut VisitedPaths| {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
@@ -155,7 +175,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_inner(&resolved_path, ref_node, visited)
                         } else {
                             None
                         }
@@ -167,8 +187,8 @@ where
         };
 
         resolve_as_module_child()
-            .or_else(resolve_from_module_use_scope)
-            .or_else(resolve_from_ref_item_use_scope)
+            .or_else(|| resolve_from_module_use_scope(visited))
+            .or_else(|| resolve_from_ref_item_use_scope(visited))
     })
 }
 
@@ -185,8 +205,21 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &mut HashSet::new())
+}
+
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    visited: &mut VisitedPaths,
+) -> Option<SyntaxNode> {
+    // Only continue if we haven't already tried to resolve this path.
+    if !visited.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Resolves next child module.
-    let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
+    let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
             root.children().find(|it| {
                 ast::Module::can_cast(it.kind())
@@ -202,7 +235,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_inner(&resolved_path, root, visited)
                     } else {
                         None
                     }
-- 
2.43.0


From 1696ba20c1e5e94af5963416be790c98dc07876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 40/49] fix: resolve paths through nested modules

---
 crates/ir/src/tree/ast_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 31f0160..03e0067 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -221,7 +221,7 @@ fn resolve_qualifier_inner(
     // Resolves next child module.
     let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
-- 
2.43.0


From 9440e9561b678f6ba114389849326f5e758d1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:03 +0000
Subject: [PATCH 41/49] fix: cyclic glob imports and type aliases don't
 overflow the stack (external crate items)

---
 crates/analyzer/src/resolution.rs | 68 ++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..3ade4f0 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,18 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// See `is_external_crate_item` doc above.
+// NOTE: Type aliases can be cyclic, so we keep track of the ones that have already been followed.
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    visited_aliases: &mut HashSet<SyntaxNode>,
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +115,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut HashMap::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -206,17 +218,24 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
+            let mut path_is_type_alias_for_name = || {
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        visited_aliases.insert(type_alias.syntax().clone())
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_inner(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        visited_aliases,
+                                    )
+                                })
                     },
                 )
             };
@@ -303,11 +322,20 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
         .any(|qualifier| path == qualifier || path.starts_with(&format!("{qualifier}::")))
 }
 
+// Use paths and aliases (i.e. an `alias -> path` map).
+type UsePathsAndAliases = (HashSet<String>, HashMap<String, String>);
+
+// Results for already resolved path and reference node pairs
+// (and empty results for those that are still being resolved).
+// NOTE: Use declarations can be cyclic (e.g. `use self::*;`).
+type ResolvedPaths = HashMap<(String, SyntaxNode), UsePathsAndAliases>;
+
 // Collects crate use paths and aliases in the current scope.
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
-) -> (HashSet<String>, HashMap<String, String>) {
+    resolved: &mut ResolvedPaths,
+) -> UsePathsAndAliases {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
 
@@ -319,7 +347,8 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result =
+            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, resolved);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +364,8 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result =
+                match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node, resolved);
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,7 +385,14 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
-) -> (HashSet<String>, HashMap<String, String>) {
+    resolved: &mut ResolvedPaths,
+) -> UsePathsAndAliases {
+    let key = (path.to_owned(), ref_node.clone());
+    if let Some(result) = resolved.get(&key) {
+        return result.clone();
+    }
+    resolved.insert(key.clone(), (HashSet::new(), HashMap::new()));
+
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
@@ -377,7 +414,8 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result =
+                external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, resolved);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +437,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        resolved,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +446,7 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    resolved.insert(key, (use_paths.clone(), item_aliases.clone()));
     (use_paths, item_aliases)
 }
 
-- 
2.43.0


From 73a337715cd88c9c7b37d545ec8889c40a12daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:03 +0000
Subject: [PATCH 42/49] fix: paths suggested for items in nested modules start
 at the outermost module

---
 crates/analyzer/src/resolution.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 3ade4f0..dbdefc6 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,20 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        let modules: Vec<_> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        iter::once(String::from("crate"))
+            // Ancestors start with the innermost module.
+            .chain(modules.into_iter().rev())
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From 353c7940f425d9c4a5b864fad857ed1591632c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:20 +0000
Subject: [PATCH 43/49] fix: consider all derive attributes of chain extension
 types

---
 .../src/analysis/diagnostics/common.rs        | 107 +++++++++---------
 1 file changed, 52 insertions(+), 55 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index b013b2f..1db8070 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -2017,52 +2017,56 @@ pub fn ensure_impl_scale_codec_traits(
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
-                    .syntax()
-                    .children()
-                    .filter_map(|node| {
-                        let is_after_derive = || {
-                            node.first_token()
-                                .and_then(|token| {
-                                    ink_analyzer_ir::closest_non_trivia_token(
-                                        &token,
-                                        SyntaxToken::prev_token,
-                                    )
-                                })
-                                .is_some_and(|token| token.text() == "derive")
-                        };
-                        if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                            ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
-                        } else {
-                            None
-                        }
-                    })
-                    .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+    // Extracts derive item paths from all standalone and conditional derive attributes.
+    let standalone_derived_items: Vec<_> = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "derive")
+        })
+        .filter_map(|attr| attr.token_tree())
+        .flat_map(|token_tree| {
+            meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
+        })
+        .collect();
+    let conditional_derived_items: Vec<_> = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "cfg_attr")
+        })
+        .filter_map(|attr| attr.token_tree())
+        .flat_map(|token_tree| {
+            token_tree
+                .syntax()
+                .children()
+                .filter_map(|node| {
+                    let is_after_derive = || {
+                        node.first_token()
+                            .and_then(|token| {
+                                ink_analyzer_ir::closest_non_trivia_token(
+                                    &token,
+                                    SyntaxToken::prev_token,
+                                )
+                            })
+                            .is_some_and(|token| token.text() == "derive")
+                    };
+                    if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
+                        ast::TokenTree::cast(node)
+                            .as_ref()
+                            .map(utils::token_tree_to_non_delimited_meta_string)
+                    } else {
+                        None
+                    }
+                })
+                .flat_map(|meta| meta_to_path_list(&meta))
+                .collect::<Vec<_>>()
+        })
+        .collect();
+    let derived_items: Vec<_> = standalone_derived_items
+        .into_iter()
+        .chain(conditional_derived_items)
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2093,15 +2097,8 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
-- 
2.43.0


From 9cfb4e1357e4e4eceb85b948ab54906b9b65abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:56 +0000
Subject: [PATCH 44/49] fix: adding SCALE derives for ink! 5 keeps the existing
 ones

---
 .../analyzer/src/analysis/diagnostics/common.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 1db8070..6c7f138 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -2169,8 +2169,16 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                let attr_meta = if version == Version::V4 {
+                    standalone_derive_meta.clone()
+                } else {
+                    attr.token_tree()
+                        .as_ref()
+                        .map(utils::token_tree_to_non_delimited_meta_string)
+                };
+                let meta_prefix = attr_meta
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2179,10 +2187,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From 1075064149846d6f7b88eed1932eb91a0c33f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:26 +0000
Subject: [PATCH 45/49] fix: completions after an unclosed ink! attribute at
 the end of the file don't panic

---
 crates/analyzer/src/analysis/utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 77493ab..de8c1b8 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -767,8 +767,10 @@ pub fn ink_arg_insert_text(
             .zip(insert_offset_option)
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
-                    .token_at_offset(insert_offset)
-                    .right_biased()
+                    .ancestors()
+                    // The insert offset can be past the end of an unclosed attribute.
+                    .last()
+                    .and_then(|root| root.token_at_offset(insert_offset).right_biased())
                     .and_then(|token| {
                         // Finds the next non-trivia token.
                         let is_next_non_trivia_token = |subject: &SyntaxToken| {
-- 
2.43.0


From 1437795c1cc3d6b966f3eed563025082f4a2efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:57 +0000
Subject: [PATCH 46/49] fix: comments in derive attributes of chain extension
 types are ignored

---
 .../src/analysis/diagnostics/common.rs        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 6c7f138..5f3a506 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -6,7 +6,7 @@ use ink_analyzer_ir::ast::{
     AstNode, AstToken, HasAttrs, HasGenericParams, HasName, HasTypeBounds, HasVisibility,
 };
 use ink_analyzer_ir::meta::MetaValue;
-use ink_analyzer_ir::syntax::{SyntaxKind, SyntaxNode, SyntaxToken, TextRange};
+use ink_analyzer_ir::syntax::{SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange};
 use ink_analyzer_ir::{
     ast, ChainExtension, Contract, HasInkImplParent, InkArg, InkArgKind, InkArgValueKind,
     InkArgValueStringKind, InkAttribute, InkAttributeKind, InkEntity, InkMacroKind, IsInkFn,
@@ -2003,8 +2003,16 @@ pub fn ensure_impl_scale_codec_traits(
     });
 
     // Utilities for extracting derive attribute meta items.
-    let meta_to_path_list = |meta: &str| {
-        meta.replace(' ', "")
+    let token_tree_to_path_list = |token_tree: &ast::TokenTree| {
+        token_tree
+            .syntax()
+            .descendants_with_tokens()
+            .filter_map(SyntaxElement::into_token)
+            .filter(|token| {
+                !token.kind().is_trivia()
+                    && !matches!(token.kind(), SyntaxKind::L_PAREN | SyntaxKind::R_PAREN)
+            })
+            .join("")
             .split(',')
             .filter_map(ink_analyzer_ir::path_from_str)
             .collect::<Vec<_>>()
@@ -2025,9 +2033,7 @@ pub fn ensure_impl_scale_codec_traits(
                 .is_some_and(|path| path.to_string().trim() == "derive")
         })
         .filter_map(|attr| attr.token_tree())
-        .flat_map(|token_tree| {
-            meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
-        })
+        .flat_map(|token_tree| token_tree_to_path_list(&token_tree))
         .collect();
     let conditional_derived_items: Vec<_> = adt
         .attrs()
@@ -2053,13 +2059,11 @@ pub fn ensure_impl_scale_codec_traits(
                     };
                     if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
                         ast::TokenTree::cast(node)
-                            .as_ref()
-                            .map(utils::token_tree_to_non_delimited_meta_string)
                     } else {
                         None
                     }
                 })
-                .flat_map(|meta| meta_to_path_list(&meta))
+                .flat_map(|derive_tree| token_tree_to_path_list(&derive_tree))
                 .collect::<Vec<_>>()
         })
         .collect();
-- 
2.43.0


From b81b2ac4b9322aaeb24e075b60a1118b8f66d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:53 +0000
Subject: [PATCH 47/49] fix: resolve names through modules that re-export with
 the same relative path

---
 crates/analyzer/src/resolution.rs |  4 +---
 crates/ir/src/tree/ast_ext.rs     | 39 +++++--------------------------
 2 files changed, 7 insertions(+), 36 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index dbdefc6..5903e11 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -436,9 +436,7 @@ fn match_path_to_external_crate_in_scope(
                     } else {
                         item_aliases.insert(target_name.clone(), resolved_path_str);
                     }
-                } else if resolved_path_str != path {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
+                } else {
                     let result = match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 03e0067..0812409 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -154,33 +154,15 @@ where
         };
         let resolve_from_module_use_scope = |visited: &mut VisitedPaths| {
             let item_name = target_name.to_string();
-            resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item_inner(&resolved_path, &root_node, visited)
-                    } else {
-                        None
-                    }
-                },
-            )
+            resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node)
+                .find_map(|resolved_path| resolve_item_inner(&resolved_path, &root_node, visited))
         };
         let resolve_from_ref_item_use_scope = |visited: &mut VisitedPaths| {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
-                resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node).find_map(
-                    |resolved_path| {
-                        // Only recurse if the path resolved from use scope and aliases
-                        // is different from the current path argument.
-                        if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item_inner(&resolved_path, ref_node, visited)
-                        } else {
-                            None
-                        }
-                    },
-                )
+                resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node)
+                    .find_map(|resolved_path| resolve_item_inner(&resolved_path, ref_node, visited))
             } else {
                 None
             }
@@ -230,17 +212,8 @@ fn resolve_qualifier_inner(
         };
         let resolve_from_use_scope = || {
             let item_name = name.to_string();
-            resolve_item_path_from_use_scope_and_aliases!(item_name, root).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier_inner(&resolved_path, root, visited)
-                    } else {
-                        None
-                    }
-                },
-            )
+            resolve_item_path_from_use_scope_and_aliases!(item_name, root)
+                .find_map(|resolved_path| resolve_qualifier_inner(&resolved_path, root, visited))
         };
         resolve_child().or_else(resolve_from_use_scope)
     };
-- 
2.43.0


From 0060a99dc7daf40a457921b6bdeb1436505a69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:39 +0000
Subject: [PATCH 48/49] Restore migrate/e2e_test.rs: its name marks it as a
 test file, so repairs there are not kept

---
 .../analyzer/src/analysis/migrate/e2e_test.rs | 107 +++---------------
 1 file changed, 18 insertions(+), 89 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/e2e_test.rs b/crates/analyzer/src/analysis/migrate/e2e_test.rs
index b3faacc..2cafb28 100644
--- a/crates/analyzer/src/analysis/migrate/e2e_test.rs
+++ b/crates/analyzer/src/analysis/migrate/e2e_test.rs
@@ -3,9 +3,9 @@
 use std::collections::HashSet;
 use std::fmt;
 
-use ink_analyzer_ir::ast::{HasArgList, HasAttrs, HasDocComments, HasGenericParams, HasName};
+use ink_analyzer_ir::ast::{HasArgList, HasDocComments, HasName};
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, TextRange};
-use ink_analyzer_ir::{ast, Contract, InkArg, InkE2ETest, InkEntity, InkFile, IsInkFn};
+use ink_analyzer_ir::{ast, Contract, InkE2ETest, InkEntity, InkFile, IsInkFn};
 use itertools::Itertools;
 
 use super::common;
@@ -46,20 +46,16 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
             results.push(TextEdit::delete(meta.syntax().text_range()));
         }
     } else {
-        // Remove `additional_contracts` and `keep_attr` arguments (if any).
-        let removal_range =
-            |arg: Option<InkArg>| Some(utils::ink_arg_and_delimiter_removal_range(&arg?, None));
-        match (
-            removal_range(e2e_test.additional_contracts_arg()),
-            removal_range(e2e_test.keep_attr_arg()),
-        ) {
-            // Adjacent arguments share a delimiter.
-            (Some(range), Some(other_range)) if range.intersect(other_range).is_some() => {
-                results.push(TextEdit::delete(range.cover(other_range)));
-            }
-            (range, other_range) => {
-                results.extend(range.into_iter().chain(other_range).map(TextEdit::delete));
-            }
+        // Remove `additional_contracts` argument (if any).
+        if let Some(arg) = e2e_test.additional_contracts_arg() {
+            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            results.push(TextEdit::delete(range));
+        }
+
+        // Remove `keep_attr` argument (if any).
+        if let Some(arg) = e2e_test.keep_attr_arg() {
+            let range = utils::ink_arg_and_delimiter_removal_range(&arg, None);
+            results.push(TextEdit::delete(range));
         }
     }
 }
@@ -67,22 +63,10 @@ fn attribute(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
 /// Computes text edits for migrating ink! e2e test function signatures to ink! 5.0.
 fn fn_sig(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     if let Some(fn_item) = e2e_test.fn_item() {
-        // Ignore signatures that are already migrated.
-        let generic_param_list = fn_item.generic_param_list();
-        if generic_param_list
-            .as_ref()
-            .is_some_and(|list| list.to_string().contains("E2EBackend"))
-        {
-            return;
-        }
-
-        // Edit range for `fn` generic parameter and parameter lists.
+        // Edit range for `fn` parameter list.
         let range = fn_item
             .param_list()
-            .map(|param_list| {
-                let range = param_list.syntax().text_range();
-                generic_param_list.map_or(range, |list| range.cover(list.syntax().text_range()))
-            })
+            .map(|param_list| param_list.syntax().text_range())
             .or_else(|| {
                 fn_item.name().map(|name| {
                     // Default to inserting at end of function name (if any).
@@ -139,14 +123,9 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
         {
             let insert_offset = file_root
                 .doc_comments()
+                .last()
+                .as_ref()
                 .map(|comment| comment.syntax().text_range().end())
-                // Inner attributes are only permitted before all items.
-                .chain(
-                    file_root
-                        .attrs()
-                        .map(|attr| attr.syntax().text_range().end()),
-                )
-                .max()
                 .unwrap_or_else(|| file_root.syntax().text_range().start());
             insert_offset_and_indent = Some((insert_offset, String::new()));
         }
@@ -186,34 +165,7 @@ fn fn_body(results: &mut Vec<TextEdit>, e2e_test: &InkE2ETest) {
     }
 
     if let Some((insert_offset, indent)) = insert_offset_and_indent {
-        // Ignore traits that are already imported.
-        let is_imported = |e2e_trait: &E2ETrait| {
-            let path = e2e_trait.to_string();
-            let (qualifier, name) = path.split_once("::").unwrap_or_default();
-            let body_stmts = body.stmt_list().map(|it| it.syntax().clone());
-            e2e_test
-                .syntax()
-                .parent()
-                .into_iter()
-                .chain(body_stmts)
-                .flat_map(|node| node.children())
-                .filter_map(ast::Use::cast)
-                .any(|use_item| {
-                    let has_token = |text: &str| {
-                        use_item
-                            .syntax()
-                            .descendants_with_tokens()
-                            .filter_map(|elem| elem.into_token())
-                            .any(|token| token.text() == text)
-                    };
-                    has_token(qualifier) && has_token(name)
-                })
-        };
-        for e2e_trait in visitor
-            .required_traits
-            .into_iter()
-            .filter(|e2e_trait| !is_imported(e2e_trait))
-        {
+        for e2e_trait in visitor.required_traits {
             results.push(TextEdit::insert(
                 format!("\n{indent}use {e2e_trait};"),
                 insert_offset,
@@ -365,26 +317,6 @@ impl BodyVisitor {
             required_traits: HashSet::new(),
         }
     }
-
-    /// Returns the text of an expression after applying migration edits for its sub-expressions.
-    fn migrated_text(&mut self, expr: &ast::Expr) -> String {
-        let mut visitor = Self::new();
-        visitor.visit_expr(expr);
-        self.required_traits.extend(visitor.required_traits);
-
-        let mut text = expr.to_string();
-        let start = expr.syntax().text_range().start();
-        let mut edits = visitor.results;
-        edits.sort_by_key(|edit| std::cmp::Reverse(edit.range.start()));
-        for edit in edits {
-            let range = edit.range - start;
-            text.replace_range(
-                usize::from(range.start())..usize::from(range.end()),
-                &edit.text,
-            );
-        }
-        text
-    }
 }
 
 impl Visitor for BodyVisitor {
@@ -513,7 +445,6 @@ impl Visitor for BodyVisitor {
             .is_some_and(|receiver| receiver.to_string() == "client");
         if !is_client_receiver {
             walk_method_call(self, expr);
-            return;
         }
 
         let Some(method_name) = expr.name_ref() else {
@@ -530,7 +461,6 @@ impl Visitor for BodyVisitor {
                 if let Some((contract_name, signer, constructor, value, storage_deposit_limit)) =
                     args.collect_tuple()
                 {
-                    let constructor = self.migrated_text(&constructor);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({contract_name}, {signer}, {constructor}){}{}{}",
@@ -557,7 +487,6 @@ impl Visitor for BodyVisitor {
             name @ ("call" | "call_dry_run") => {
                 if let Some((signer, message, value, storage_deposit_limit)) = args.collect_tuple()
                 {
-                    let message = self.migrated_text(&message);
                     self.results.push(TextEdit::replace(
                         format!(
                             "({signer}, {message}){}{}{}",
@@ -616,7 +545,7 @@ impl Visitor for BodyVisitor {
                     self.required_traits.insert(E2ETrait::Chain);
                 }
             }
-            _ => walk_method_call(self, expr),
+            _ => (),
         }
 
         fn value_call(expr: &ast::Expr) -> Option<String> {
-- 
2.43.0


From 74da6317fe08e58b998370b922059b0128acdc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:02 +0000
Subject: [PATCH 49/49] fix: code inserted at the start of a module or impl
 goes after inner attributes

---
 crates/analyzer/src/analysis/utils.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index de8c1b8..67b15d6 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1626,6 +1626,13 @@ pub fn item_insert_offset_start(item_list: &ast::ItemList) -> TextSize {
         .filter(|it| matches!(it, ast::Item::Use(_)))
         .last()
         .map(|it| it.syntax().text_range().end())
+        // Determines position after the last inner attribute (if any).
+        .or_else(|| {
+            item_list
+                .attrs()
+                .last()
+                .map(|it| it.syntax().text_range().end())
+        })
         // Determines position after the left curly bracket.
         .or_else(|| item_list.l_curly_token().map(|it| it.text_range().end()))
         // Defaults to inserts before the first item in the item list.
@@ -1709,8 +1716,16 @@ pub fn item_insert_offset_by_scope_name(
 /// Returns the offset for the beginning of an associated item list (e.g body of an AST item - i.e `fn`, `trait` e.t.c).
 pub fn assoc_item_insert_offset_start(assoc_item_list: &ast::AssocItemList) -> TextSize {
     assoc_item_list
-        .l_curly_token()
-        .map(|it| it.text_range().end())
+        // Determines position after the last inner attribute (if any).
+        .attrs()
+        .last()
+        .map(|it| it.syntax().text_range().end())
+        // Determines position after the left curly bracket.
+        .or_else(|| {
+            assoc_item_list
+                .l_curly_token()
+                .map(|it| it.text_range().end())
+        })
         .or_else(|| {
             assoc_item_list
                 .assoc_items()
-- 
2.43.0

