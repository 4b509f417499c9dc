From fadf69ce0c02e8097105b8dc70450528b473cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:49 +0000
Subject: [PATCH 01/15] fix: size materialized array arguments from the values
 passed

A list of the wrong length made run_cairo_program panic on an assert_eq
instead of reporting the mismatch, and lists behind pointers nested in an
array were not counted, so that their cells overlapped the arguments.
---
 crates/runner/src/lib.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..f782107 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -96,19 +96,17 @@ fn calculate_array_materialization_size(ty: &AbiType) -> usize {
 /// number of cells to allocate inline.
 fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
     match (ty, val) {
-        // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        // Dynamic pointer: count elements and account for nested arrays in element
-        (AbiType::Pointer { element, len }, InputValue::List(values)) => {
+        // Arrays and pointers: one inline element per value, plus whatever each value materializes itself.
+        // A count that does not match the declared size is reported when the value is encoded.
+        (AbiType::FixedSizeArray { element, .. }, InputValue::List(values))
+        | (AbiType::Pointer { element, .. }, InputValue::List(values)) => {
             let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(values.len() as u32) as usize;
-            count * (element_call_size + nested_array_size)
+            values
+                .iter()
+                .map(|v| {
+                    element_call_size + calculate_array_materialization_size_with_value(element, v)
+                })
+                .sum()
         }
         // Numeric value for pointer means a single element
         (AbiType::Pointer { element, len }, InputValue::Number(_)) => {
-- 
2.43.0


From cd0894c10ee6f74b5eed043ad3f0bfb86ea55e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:49 +0000
Subject: [PATCH 02/15] fix: include materialized arrays in the public input
 range

With an array argument the input and output ranges published for the proof
were shifted below the cells holding the arguments and return values.
---
 crates/runner/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index f782107..455343a 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -464,10 +464,11 @@ pub fn run_cairo_program(
     let decoded_returns =
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
-    // Create public address ranges for proof generation
+    // Create public address ranges for proof generation: the input area is made of the
+    // materialized arrays followed by the argument slots
     let public_address_ranges = PublicAddressRanges::new(
         vm.program_length.0,
-        encoded_arguments.len(),
+        array_materialization_size + encoded_arguments.len(),
         return_slot_count,
     );
 
-- 
2.43.0


From 956f691062179dca62d2c4c0c32c0845c924fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 03/15] fix: keep the type annotation when formatting a
 constant

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From 1a35e9215d846ddc125bf28b732e3f4460c6b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 04/15] fix: keep the trailing comma of one-element tuples when
 formatting

---
 crates/compiler/formatter/src/rules/expressions.rs |  2 +-
 crates/compiler/formatter/src/rules/types.rs       |  2 +-
 crates/compiler/formatter/src/utils.rs             | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..24a6841 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -15,6 +15,16 @@ pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
 }
 
+/// Helper function to build a tuple: a single element needs a trailing comma,
+/// without it the parentheses only group
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        items.push(Doc::text(","));
+        return parens(Doc::concat(items));
+    }
+    parens(comma_separated(items))
+}
+
 /// Helper function to wrap in braces
 pub fn braces(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("{"), inner, Doc::text("}")])
-- 
2.43.0


From 2067e4716fa067ed6ff216eb932e82163ee5a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 05/15] fix: format a use of a single segment without a leading
 path separator

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..2aebcae 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -175,8 +175,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !self.path.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From f9aa9ea4b7ad4c838f3b7e7cccf6eb30af75e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 06/15] fix: keep the comments of statements in nested blocks
 when formatting

---
 crates/compiler/formatter/src/rules/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..9bbfad9 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -94,7 +94,7 @@ impl Format for Statement {
                 if !statements.is_empty() {
                     let stmts = statements
                         .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
+                        .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
                         .collect::<Vec<_>>();
 
                     parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
-- 
2.43.0


From ef7b7cd9c46f0d70752c7947cb970c380e569115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 07/15] fix: keep the parentheses of conditions that need them
 when formatting

---
 .../formatter/src/rules/statements.rs         | 56 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 9bbfad9..193bd99 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,8 +1,58 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::utils::parens;
+
+/// Formats the condition of an `if` or `while`. The parser drops the parentheses around it, so they
+/// are put back where the bare condition would read differently.
+fn format_condition(
+    condition: &Spanned<Expression>,
+    body: &Spanned<Statement>,
+    ctx: &mut FormatterCtx,
+) -> Doc {
+    let doc = condition.value().format(ctx);
+
+    let needs_parens = match body.value() {
+        // `if a {}` reads `a {}` as a struct literal
+        Statement::Block(statements) if statements.is_empty() => {
+            ends_with_identifier(condition.value())
+        }
+        Statement::Block(_) => false,
+        // `if a (b)();` reads `a (b)()` as a call
+        _ => true,
+    };
+
+    // `if (a) == b {` reads `(a)` as the whole condition
+    if needs_parens || starts_with_paren(condition.value()) {
+        parens(doc)
+    } else {
+        doc
+    }
+}
+
+fn starts_with_paren(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) | Expression::Tuple(_) => true,
+        Expression::BinaryOp { left, .. } => starts_with_paren(left.value()),
+        Expression::FunctionCall { callee, .. } => starts_with_paren(callee.value()),
+        Expression::MemberAccess { object, .. } => starts_with_paren(object.value()),
+        Expression::IndexAccess { array, .. } => starts_with_paren(array.value()),
+        Expression::TupleIndex { tuple, .. } => starts_with_paren(tuple.value()),
+        Expression::Cast { expr, .. } => starts_with_paren(expr.value()),
+        _ => false,
+    }
+}
+
+fn ends_with_identifier(expr: &Expression) -> bool {
+    match expr {
+        Expression::Identifier(_) => true,
+        Expression::UnaryOp { expr, .. } => ends_with_identifier(expr.value()),
+        Expression::BinaryOp { right, .. } => ends_with_identifier(right.value()),
+        _ => false,
+    }
+}
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -74,7 +124,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition, then_block, ctx),
                     Doc::text(" "),
                     then_block.value().format(ctx),
                 ];
@@ -112,7 +162,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition, body, ctx),
                 Doc::text(" "),
                 body.value().format(ctx),
             ]),
-- 
2.43.0


From a8e46694c202d09d23a166d5ad18a6f0ee950166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:19 +0000
Subject: [PATCH 08/15] fix: attach comments only where they are printed when
 formatting, so that none is lost

---
 .../formatter/src/comment_attachment.rs       | 143 +++++-------------
 .../formatter/src/rules/statements.rs         |   5 +-
 crates/compiler/formatter/src/trivia.rs       |   2 +-
 3 files changed, 43 insertions(+), 107 deletions(-)

diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..de90a90 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,10 +1,9 @@
-use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
-};
+use cairo_m_compiler_parser::parser::{FunctionDef, ParsedModule, Statement, TopLevelItem};
 use chumsky::span::SimpleSpan;
 
 use crate::trivia::{
-    Comment, CommentBuckets, CommentPosition, determine_comment_position, scan_comments,
+    Comment, CommentBuckets, CommentPosition, determine_comment_position,
+    is_only_whitespace_or_comments, scan_comments,
 };
 
 /// Trait for AST nodes that have spans
@@ -61,19 +60,14 @@ pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuc
                 Some(CommentPosition::Before) => {
                     buckets.add_leading(node_span, comment);
                 }
-                Some(CommentPosition::EndOfLine) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                Some(CommentPosition::After) => {
+                _ => {
                     buckets.add_trailing(node_span, comment);
                 }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
-                }
             }
+        } else if let Some(previous) = find_previous_node(&comment, &node_spans, source) {
+            buckets.add_trailing(previous, comment);
+        } else if let Some(enclosing) = find_enclosing_node(&comment, &node_spans) {
+            buckets.add_leading(enclosing, comment);
         }
     }
 
@@ -112,105 +106,37 @@ fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>
     }
 }
 
+/// Collects the statements of function bodies and blocks. Comments are only printed around these:
+/// attaching one to an expression, or to the block of a compound statement, would lose it.
 fn collect_statement_spans(
     stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
     spans: &mut Vec<SimpleSpan<usize>>,
 ) {
     spans.push(stmt.span());
+    collect_nested_statement_spans(stmt.value(), spans);
+}
 
-    // Recursively collect from nested statements and expressions
-    match stmt.value() {
+fn collect_nested_statement_spans(stmt: &Statement, spans: &mut Vec<SimpleSpan<usize>>) {
+    match stmt {
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
+            collect_nested_statement_spans(then_block.value(), spans);
             if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
+                collect_nested_statement_spans(else_stmt.value(), spans);
             }
         }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
+        Statement::While { body, .. } | Statement::For { body, .. } | Statement::Loop { body } => {
+            collect_nested_statement_spans(body.value(), spans);
         }
         Statement::Block(statements) => {
             for s in statements {
                 collect_statement_spans(s, spans);
             }
         }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
-        }
-        _ => {} // Other statement types
-    }
-}
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
-            }
-        }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
+        _ => {} // No nested statements
     }
 }
 
@@ -268,19 +194,30 @@ fn find_best_attachment(
         .map(|(span, _pos, _distance, _rank)| span)
 }
 
-/// Find the nearest node to a comment
-fn find_nearest_node(
+/// Find the last node before a comment that is separated from it by nothing but other comments
+fn find_previous_node(
     comment: &Comment,
     node_spans: &[SimpleSpan<usize>],
+    source: &str,
 ) -> Option<SimpleSpan<usize>> {
+    // The spans are sorted by start: of the nodes with the same end, the first is the outermost one
     node_spans
         .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
+        .rev()
+        .filter(|span| span.end <= comment.span.start)
+        .max_by_key(|span| span.end)
+        .filter(|span| is_only_whitespace_or_comments(&source[span.end..comment.span.start]))
+        .copied()
+}
+
+/// Find the innermost node around a comment
+fn find_enclosing_node(
+    comment: &Comment,
+    node_spans: &[SimpleSpan<usize>],
+) -> Option<SimpleSpan<usize>> {
+    node_spans
+        .iter()
+        .filter(|span| span.start <= comment.span.start && comment.span.end <= span.end)
+        .min_by_key(|span| span.end - span.start)
         .copied()
 }
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 193bd99..6c22f68 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -68,9 +68,8 @@ impl Format for Spanned<Statement> {
 
         // Add trailing comments (end-of-line)
         if let Some(trailing) = ctx.get_trailing_comments(span) {
-            if let Some(first_trailing) = trailing.first() {
-                doc = doc.with_eol_comment(Some(&first_trailing.text));
-            }
+            let comments: Vec<String> = trailing.iter().map(|c| c.text.clone()).collect();
+            doc = Doc::with_trailing_comments(doc, comments);
         }
 
         doc
diff --git a/crates/compiler/formatter/src/trivia.rs b/crates/compiler/formatter/src/trivia.rs
index e80af65..855f6a8 100644
--- a/crates/compiler/formatter/src/trivia.rs
+++ b/crates/compiler/formatter/src/trivia.rs
@@ -110,7 +110,7 @@ pub fn determine_comment_position(
 }
 
 /// Returns true if the slice contains only whitespace and line comments (// ...\n)
-fn is_only_whitespace_or_comments(slice: &str) -> bool {
+pub(crate) fn is_only_whitespace_or_comments(slice: &str) -> bool {
     let bytes = slice.as_bytes();
     let mut i = 0;
     while i < bytes.len() {
-- 
2.43.0


From f3330c418c3ef78e2cd97663bdf9bce517d18a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:50 +0000
Subject: [PATCH 09/15] fix: keep the comments of a file without code when
 formatting

---
 crates/compiler/formatter/src/simple_comment_preserver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
index bcbf092..43a4f76 100644
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ b/crates/compiler/formatter/src/simple_comment_preserver.rs
@@ -14,14 +14,14 @@ pub fn format_with_comments(formatted_content: &str, original_content: &str) ->
 
     let mut output = String::new();
 
-    // Find comments that appear before any code
+    // Find comments that appear before any code: all of them if there is none
     let first_non_comment_line = original_content
         .lines()
         .position(|line| {
             let trimmed = line.trim();
             !trimmed.is_empty() && !trimmed.starts_with("//")
         })
-        .unwrap_or(0);
+        .unwrap_or(usize::MAX);
 
     // Add leading comments
     for comment in &comments {
-- 
2.43.0


From 92e14699b150c75d950c8194b562ed4683b68ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 10/15] fix: report cyclic imports in module diagnostics
 instead of resolving names forever

---
 crates/compiler/semantic/src/db.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..5ca2f7e 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -479,6 +479,17 @@ pub fn module_semantic_diagnostics(
 
     let mut semantic_diag = DiagnosticCollection::default();
 
+    // Names are resolved across modules, which does not end on cyclic imports
+    if let Some(cycle) = detect_import_cycle(&project_import_graph(db, crate_id)) {
+        if cycle.contains(&module_name) {
+            semantic_diag.add(Diagnostic::error(
+                DiagnosticCode::SyntaxError,
+                format!("Cyclic import: {}", cycle.join(" -> ")),
+            ));
+        }
+        return semantic_diag;
+    }
+
     if let Some(file) = crate_id.modules(db).get(&module_name) {
         let index = match module_semantic_index(db, crate_id, module_name.clone()) {
             Ok(index) => index,
-- 
2.43.0


From 7bf18bdee2c05c543ed1f3b85d561d3d388e4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 11/15] fix: drop the cached diagnostics of removed modules

---
 crates/compiler/semantic/src/delta_diagnostics.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..a20e45a 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -69,6 +69,13 @@ impl DeltaDiagnosticsTracker {
         }
 
         let modules = crate_id.modules(db);
+
+        // Forget the modules that were removed
+        self.module_revisions
+            .retain(|name, _| modules.contains_key(name));
+        self.cached_diagnostics
+            .retain(|name, _| modules.contains_key(name));
+
         let mut total_diagnostics = DiagnosticCollection::default();
 
         for (module_name, _file) in modules.iter() {
-- 
2.43.0


From 7957dce0be6ff7892447b8b6488e832c65f5bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 12/15] fix: do not report the diagnostics of one crate for
 another

---
 crates/compiler/semantic/src/delta_diagnostics.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index a20e45a..57c5f5b 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -39,6 +39,8 @@ pub struct DeltaDiagnosticsTracker {
     cached_diagnostics: HashMap<String, DiagnosticCollection>,
     /// The overall project revision at last computation
     last_project_revision: Option<salsa::Revision>,
+    /// The crate of the last computation: what is cached belongs to it
+    last_crate: Option<Crate>,
 }
 
 impl DeltaDiagnosticsTracker {
@@ -48,6 +50,7 @@ impl DeltaDiagnosticsTracker {
             module_revisions: HashMap::new(),
             cached_diagnostics: HashMap::new(),
             last_project_revision: None,
+            last_crate: None,
         }
     }
 
@@ -57,6 +60,11 @@ impl DeltaDiagnosticsTracker {
         db: &dyn SemanticDb,
         crate_id: Crate,
     ) -> DiagnosticCollection {
+        if self.last_crate != Some(crate_id) {
+            *self = Self::new();
+            self.last_crate = Some(crate_id);
+        }
+
         let current_revision = db.zalsa().current_revision();
 
         // Check if this is the first computation or if anything has changed
-- 
2.43.0


From 566a86e55f95c9e38e3936f69b5ee9a0544c5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:06 +0000
Subject: [PATCH 13/15] fix: check the range of literals that initialise
 variables without a type annotation

---
 .../semantic/src/validation/literal_validator.rs  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..a016cb6 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -33,7 +33,7 @@ impl Validator for LiteralValidator {
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
-        // Check all let/const definitions with explicit u32 or felt type
+        // Check all let/const definitions of type u32 or felt
         for (def_idx, definition) in index.all_definitions() {
             match &definition.kind {
                 DefinitionKind::Let(let_ref) => {
@@ -74,6 +74,19 @@ impl Validator for LiteralValidator {
                                 _ => {}
                             }
                         }
+                    } else if let Some(expr_info) = let_ref
+                        .value_expr_id
+                        .and_then(|value_expr_id| index.expression(value_expr_id))
+                        .filter(|info| matches!(info.ast_node, Expression::Literal(..)))
+                    {
+                        // The type of an unannotated literal is inferred from its suffix
+                        let def_id = crate::semantic_index::DefinitionId::new(db, file, def_idx);
+                        let (expr, span) = (&expr_info.ast_node, expr_info.ast_span);
+                        match definition_semantic_type(db, crate_id, def_id).data(db) {
+                            TypeData::U32 => self.check_u32_literal(db, expr, span, file, sink),
+                            TypeData::Felt => self.check_felt_literal(db, expr, span, file, sink),
+                            _ => {}
+                        }
                     }
                 }
                 DefinitionKind::Const(const_ref) => {
-- 
2.43.0


From 3769f3d996fd5168c64cf00574c0dcb17ae729a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 14/15] fix: a loop that can be left by a break does not
 guarantee a return

---
 .../semantic/src/validation/control_flow_validator.rs    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..ae58579 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -294,9 +294,10 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
+                // Loop statements can provide returns if they contain return statements,
+                // unless a `break` may leave the loop without returning.
                 // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
+                Self::statement_provides_return_value(body) && !Self::contains_break(body)
             }
             Statement::While { .. } => {
                 // While loops might not execute, so they can't guarantee a return
@@ -331,8 +332,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
+                // Check if the loop body has a hard return that no `break` can skip
+                Self::statement_guarantees_hard_return(body) && !Self::contains_break(body)
             }
             Statement::While { .. } | Statement::For { .. } => {
                 // While and for loops might not execute, so they don't guarantee hard returns
-- 
2.43.0


From 86e8f70bcb17a7f6707b7e72240e419e3acffbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 15/15] fix: type a returned literal by the return type of its
 own function

---
 .../compiler/semantic/src/type_resolution.rs  | 67 +++++--------------
 1 file changed, 15 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..a3362df 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -336,58 +336,21 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // Get the return type of the function whose definition spans the expression
+                // as context for return expressions
+                let span = expr_info.ast_span;
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= span.start
+                            && span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0

