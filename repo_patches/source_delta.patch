From 9843f03f56eabf7d34df3c7a781cfb8161ce58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 001/100] fix: keep backslash escapes of any punctuation

A backslash that comrak dropped was a real escape, yet escapes of characters
outside the small set re-escaped by default came out as an escaped backslash
followed by the bare character, turning \! into a literal backslash and \[x\]
into a link.
---
 src/serializer/inline.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..8bda5dc 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -326,21 +326,10 @@ impl<'a> Serializer<'a> {
                     let escaped_char = source_chars[source_idx + 1];
                     if escaped_char == text_char {
                         // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
-                            result.push('\\');
-                            result.push(escaped_char);
-                        } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
-                        }
+                        // Comrak only drops a backslash that really escapes something,
+                        // so preserve the escape from source (e.g., \_ → \_)
+                        result.push('\\');
+                        result.push(escaped_char);
                         text_idx += 1;
                         source_idx += 2;
                     } else {
-- 
2.43.0


From ea928cb6e8d841fbb59306e95e351c3712c68194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 002/100] fix: keep a backslash escape at the start of a text

The parser's position of a text node that begins with an escaped character
starts after the backslash, so the escape was lost and \<tag> became raw HTML.
---
 src/serializer/inline.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 8bda5dc..becdf25 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -43,7 +43,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
@@ -136,7 +136,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
@@ -286,6 +286,24 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Extract the original source of a text node, including the backslash of
+    /// an escape at its very start, which comrak leaves out of the node's position.
+    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let starts_escaped = source.starts_with(|c: char| c.is_ascii_punctuation())
+            && start.column >= 2
+            && self.source_lines[start.line - 1]
+                .as_bytes()
+                .get(start.column - 2)
+                == Some(&b'\\');
+        if starts_escaped {
+            Some(format!("\\{source}"))
+        } else {
+            Some(source)
+        }
+    }
+
     /// Escape text while preserving escapes from the original source.
     ///
     /// When comrak parses text like `node\_modules`, it stores `node_modules` in the AST.
-- 
2.43.0


From 9020fab741451da53e0da0b19a8900da9a9e111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 003/100] fix: write empty headings in ATX style

---
 src/serializer/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..35d9d30 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -436,7 +436,11 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        if level == 1 && self.options.setext_h1 {
+        if heading_text.is_empty() {
+            // An empty heading has nothing to underline, so it is always ATX-style
+            self.output.push_str(&"#".repeat(level as usize));
+            self.output.push('\n');
+        } else if level == 1 && self.options.setext_h1 {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
-- 
2.43.0


From 9463fe8a80936fd0e3b1294b34719c39e58ed0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 004/100] fix: keep every kind of block in footnote definitions

---
 src/serializer/mod.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..9ad0972 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -642,25 +642,15 @@ impl<'a> Serializer<'a> {
                     .get_reference_line(&footnote_def.name)
                     .unwrap_or(0);
 
-                // Check if footnote contains block elements (code blocks, lists, etc.)
+                // Anything but a single paragraph (several paragraphs, headings, code, lists,
+                // HTML, alerts, etc.) has to be serialized as blocks, since collecting inline
+                // content would drop it
                 let has_blocks = {
                     let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                    children.len() > 1
+                        || children.iter().any(|child| {
+                            !matches!(&child.data.borrow().value, NodeValue::Paragraph)
+                        })
                 };
 
                 // Collect content from children
-- 
2.43.0


From d23a8ae473a8dcfc7b71c6818db44f5a01450c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 005/100] fix: do not underflow when a footnote name is wider
 than the line

---
 src/serializer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 9ad0972..a130f1b 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -427,8 +427,8 @@ impl<'a> Serializer<'a> {
 
         // Wrap content at line_width, accounting for prefix on first line
         let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
+        let first_line_width = line_width.saturating_sub(prefix.width());
+        let continuation_width = line_width.saturating_sub(continuation_indent.len());
 
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-- 
2.43.0


From 05ea262f45e460b8261f4ea9045cc2330d914d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 006/100] fix: indent the blocks of a footnote by four spaces

---
 src/serializer/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index a130f1b..fc282c5 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -407,6 +407,9 @@ impl<'a> Serializer<'a> {
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
+            // Four spaces are what a footnote's later blocks need: any more would become part
+            // of their content, or even turn them into indented code
+            let continuation_indent = "    ";
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
@@ -417,7 +420,7 @@ impl<'a> Serializer<'a> {
                     self.output.push_str("");
                 } else {
                     // Add continuation indent
-                    self.output.push_str(&continuation_indent);
+                    self.output.push_str(continuation_indent);
                     self.output.push_str(line);
                 }
                 self.output.push('\n');
-- 
2.43.0


From ec30ca241fe3f5fbb99923f5f94290182b93390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 007/100] fix: prefix every line of blocks nested in block
 quotes

---
 src/serializer/block.rs    | 40 ++++++++++++++++++++++++--------------
 src/serializer/code.rs     | 28 ++++++++++----------------
 src/serializer/document.rs |  6 +-----
 src/serializer/list.rs     | 34 ++++++++++++++++----------------
 src/serializer/mod.rs      | 12 ++++--------
 src/serializer/table.rs    | 13 ++++---------
 6 files changed, 61 insertions(+), 72 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..55233ef 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -13,28 +13,27 @@ struct BlockquoteState {
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
+    old_in_description_details: bool,
+    /// What precedes the quote marker on each line (for separator lines).
     indent: String,
 }
 
 impl<'a> Serializer<'a> {
     /// Enter blockquote context: save current state and set up for blockquote processing.
     fn enter_blockquote_context(&mut self) -> BlockquoteState {
-        let was_in_block_quote = self.in_block_quote;
-        self.in_block_quote = true;
-
-        let old_blockquote_prefix = self.blockquote_prefix.clone();
-        self.blockquote_prefix.push_str("> ");
-
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
+        // Everything before this quote's own marker: the prefix of the enclosing quote,
+        // if any, and the indent of the enclosing list item, in that order
+        let indent = format!("{}{}", self.quote_line_prefix(), self.list_item_indent);
+        let old_blockquote_prefix = std::mem::replace(&mut self.blockquote_prefix, "> ".into());
+        let old_blockquote_outer_indent =
+            std::mem::replace(&mut self.blockquote_outer_indent, indent.clone());
 
         let old_blockquote_entry_list_depth =
             std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
 
-        let indent = self.list_item_indent.clone();
+        let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, true);
+        let old_in_description_details =
+            std::mem::replace(&mut self.in_description_details, false);
 
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
@@ -48,6 +47,7 @@ impl<'a> Serializer<'a> {
             old_list_item_indent,
             old_list_type,
             old_list_depth,
+            old_in_description_details,
             indent,
         }
     }
@@ -61,6 +61,17 @@ impl<'a> Serializer<'a> {
         self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
         self.blockquote_prefix = state.old_blockquote_prefix;
         self.in_block_quote = state.was_in_block_quote;
+        self.in_description_details = state.old_in_description_details;
+    }
+
+    /// The prefix of every line inside the current block quote, including the prefixes and
+    /// indents of what encloses it. Empty outside of block quotes.
+    pub(super) fn quote_line_prefix(&self) -> String {
+        if self.in_block_quote {
+            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+        } else {
+            String::new()
+        }
     }
 
     /// Serialize children within blockquote context, adding blank quote lines between them.
@@ -72,7 +83,6 @@ impl<'a> Serializer<'a> {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
                 self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
                 self.output.push_str(">\n");
             }
             self.serialize_node(child);
@@ -95,8 +105,8 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
+        self.output.push_str(&self.quote_line_prefix());
         self.output.push_str(&self.list_item_indent);
-        self.output.push_str(&self.blockquote_prefix);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
         self.output.push_str("]\n");
@@ -112,8 +122,8 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
+            self.output.push_str(&self.quote_line_prefix());
             self.output.push_str(&self.list_item_indent);
-            self.output.push_str(&self.blockquote_prefix);
             self.output.push_str(">\n");
         }
 
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..2990118 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -186,9 +186,8 @@ impl<'a> Serializer<'a> {
         let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
 
         // Opening fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        let quote_prefix = self.quote_line_prefix();
+        self.output.push_str(&quote_prefix);
         self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
@@ -200,21 +199,17 @@ impl<'a> Serializer<'a> {
 
         // Content lines
         for line in content.lines() {
-            if self.in_block_quote {
-                if line.is_empty() {
-                    self.output.push('>');
-                } else {
-                    self.output.push_str("> ");
-                }
+            if line.is_empty() {
+                self.output.push_str(quote_prefix.trim_end());
+            } else {
+                self.output.push_str(&quote_prefix);
             }
             self.output.push_str(line);
             self.output.push('\n');
         }
 
         // Closing fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.output.push_str(&quote_prefix);
         self.output.push_str(&fence);
         self.output.push('\n');
     }
@@ -285,10 +280,9 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
 
         // Output content with indentation (skip indent for empty lines)
+        let quote_prefix = self.quote_line_prefix();
         for line in content.lines() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
+            self.output.push_str(&quote_prefix);
             if !line.is_empty() {
                 self.output.push_str(indent);
                 self.output.push_str(line);
@@ -297,9 +291,7 @@ impl<'a> Serializer<'a> {
         }
 
         // Output closing fence with indentation
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.output.push_str(&quote_prefix);
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 35d9d30..1255591 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -300,11 +300,7 @@ impl<'a> Serializer<'a> {
         self.in_description_details = true;
 
         // Determine the prefix for blockquote context
-        let blockquote_prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
-        } else {
-            String::new()
-        };
+        let blockquote_prefix = self.quote_line_prefix();
 
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..7455d0e 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -74,14 +74,14 @@ impl<'a> Serializer<'a> {
         self.list_item_index += 1;
 
         // For loose lists, add a blank line before items (except the first)
+        let quote_prefix = self.quote_line_prefix();
         if !self.list_tight && self.list_item_index > 1 {
+            self.output.push_str(quote_prefix.trim_end());
             self.output.push('\n');
         }
 
         // Add block quote prefix if we're inside a block quote
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.output.push_str(&quote_prefix);
 
         // Check if this is the first item of a list that starts on the same line as `:` in
         // definition details. In that case, skip base indentation for the first item only.
@@ -228,7 +228,9 @@ impl<'a> Serializer<'a> {
 
                     if has_blank_line_before {
                         // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
+                        self.output.push('\n');
+                        self.output.push_str(quote_prefix.trim_end());
+                        self.output.push('\n');
                     } else {
                         self.output.push('\n');
                     }
@@ -245,24 +247,25 @@ impl<'a> Serializer<'a> {
                             );
                         if prev_ends_with_newline {
                             // Previous element already ends with \n, so just add one more \n
+                            self.output.push_str(quote_prefix.trim_end());
                             self.output.push('\n');
                         } else {
                             // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
+                            self.output.push('\n');
+                            self.output.push_str(quote_prefix.trim_end());
+                            self.output.push('\n');
                         }
+                        self.output.push_str(&quote_prefix);
                         self.output.push_str(&base_indent);
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
                     // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
+                    self.output.push('\n');
+                    self.output.push_str(quote_prefix.trim_end());
+                    self.output.push('\n');
+                    self.output.push_str(&quote_prefix);
                     self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
@@ -273,14 +276,11 @@ impl<'a> Serializer<'a> {
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
+                    self.output.push('\n');
                     if !is_first {
-                        self.output.push_str("\n\n");
-                    } else {
+                        self.output.push_str(quote_prefix.trim_end());
                         self.output.push('\n');
                     }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
                     self.serialize_node(child);
                 }
                 _ => {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index fc282c5..5b5d27f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -557,14 +557,10 @@ impl<'a> Serializer<'a> {
                         // Add blank line between description items
                         // If inside a blockquote, we need to add the > prefix on the blank line
                         // to keep items within the same blockquote
-                        if self.in_block_quote {
-                            self.output.push_str(&self.list_item_indent);
-                            // Use blockquote_prefix without trailing space for blank lines
-                            self.output.push_str(self.blockquote_prefix.trim_end());
-                            self.output.push('\n');
-                        } else {
-                            self.output.push('\n');
-                        }
+                        // (without the trailing space of the prefix)
+                        let quote_prefix = self.quote_line_prefix();
+                        self.output.push_str(quote_prefix.trim_end());
+                        self.output.push('\n');
                     }
                     self.serialize_node(child);
                 }
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..41c28e8 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -51,10 +51,9 @@ impl<'a> Serializer<'a> {
         }
 
         // Output header row
+        let quote_prefix = self.quote_line_prefix();
         if let Some(header_cells) = all_cells.first() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
+            self.output.push_str(&quote_prefix);
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
                 self.output.push(' ');
@@ -68,9 +67,7 @@ impl<'a> Serializer<'a> {
         }
 
         // Output separator row with alignment
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.output.push_str(&quote_prefix);
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
             self.output.push(' ');
@@ -99,9 +96,7 @@ impl<'a> Serializer<'a> {
 
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
+            self.output.push_str(&quote_prefix);
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
                 self.output.push(' ');
-- 
2.43.0


From 101d815a0bbbd4fdc2f783697ca2c80b7829eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 008/100] fix: separate and indent every kind of block in list
 items

---
 src/serializer/block.rs | 23 +++++++++++++++--
 src/serializer/list.rs  | 57 ++++++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 55233ef..cb067a2 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -32,8 +32,7 @@ impl<'a> Serializer<'a> {
             std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
 
         let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, true);
-        let old_in_description_details =
-            std::mem::replace(&mut self.in_description_details, false);
+        let old_in_description_details = std::mem::replace(&mut self.in_description_details, false);
 
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
@@ -74,6 +73,26 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Serialize a block as if it stood alone, with `prefix` before every line of its output
+    /// except the first, whose prefix the caller has already written.
+    pub(super) fn serialize_block_with_prefix<'b>(&mut self, node: &'b AstNode<'b>, prefix: &str) {
+        let state = self.enter_blockquote_context();
+        self.in_block_quote = false;
+        let content = self.serialize_single_block(node);
+        self.exit_blockquote_context(state);
+        for (i, line) in content.lines().enumerate() {
+            if i > 0 {
+                self.output.push_str(if line.is_empty() {
+                    prefix.trim_end()
+                } else {
+                    prefix
+                });
+            }
+            self.output.push_str(line);
+            self.output.push('\n');
+        }
+    }
+
     /// Serialize children within blockquote context, adding blank quote lines between them.
     fn serialize_blockquote_children<'b>(
         &mut self,
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 7455d0e..ae9258e 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -239,11 +239,11 @@ impl<'a> Serializer<'a> {
                 NodeValue::Paragraph => {
                     // For paragraphs after the first, add blank line with proper indentation
                     if !is_first {
-                        // Check if previous child ends with a newline (code blocks, nested lists)
+                        // Check if previous child ends with a newline (anything but paragraphs)
                         let prev_ends_with_newline = i > 0
-                            && matches!(
+                            && !matches!(
                                 &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
+                                NodeValue::Paragraph
                             );
                         if prev_ends_with_newline {
                             // Previous element already ends with \n, so just add one more \n
@@ -261,12 +261,15 @@ impl<'a> Serializer<'a> {
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push('\n');
-                    self.output.push_str(quote_prefix.trim_end());
-                    self.output.push('\n');
-                    self.output.push_str(&quote_prefix);
-                    self.output.push_str(&base_indent);
+                    // Code blocks in list items need blank line and indentation,
+                    // except right after the marker, where a blank line would end the item
+                    if !is_first {
+                        self.output.push('\n');
+                        self.output.push_str(quote_prefix.trim_end());
+                        self.output.push('\n');
+                        self.output.push_str(&quote_prefix);
+                        self.output.push_str(&base_indent);
+                    }
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
@@ -283,8 +286,29 @@ impl<'a> Serializer<'a> {
                     }
                     self.serialize_node(child);
                 }
+                NodeValue::ThematicBreak if is_first => {
+                    // On the marker's line it could run into the marker, and with leading
+                    // spaces it could become indented code
+                    self.output.push('\n');
+                    self.output.push_str(&quote_prefix);
+                    self.output.push_str(&base_indent);
+                    self.output
+                        .push_str(self.options.thematic_break_style.as_str());
+                    self.output.push('\n');
+                }
                 _ => {
-                    self.serialize_node(child);
+                    // Other blocks (headings, tables, HTML, etc.) start on the marker's line
+                    // or after a blank line, and every line of them needs the item's indent
+                    let prefix = format!("{}{}", quote_prefix, base_indent);
+                    if !is_first {
+                        if !self.output.ends_with('\n') {
+                            self.output.push('\n');
+                        }
+                        self.output.push_str(quote_prefix.trim_end());
+                        self.output.push('\n');
+                        self.output.push_str(&prefix);
+                    }
+                    self.serialize_block_with_prefix(child, &prefix);
                 }
             }
         }
@@ -293,17 +317,10 @@ impl<'a> Serializer<'a> {
         self.list_item_indent = old_list_item_indent;
 
         // Only add newline if the last child doesn't already end with one
-        // (nested lists, code blocks, and blockquotes add their own newlines)
+        // (all blocks but paragraphs add their own newlines)
         let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
+        let last_child_ends_with_newline = last_child
+            .is_some_and(|child| !matches!(&child.data.borrow().value, NodeValue::Paragraph));
         if !last_child_ends_with_newline {
             self.output.push('\n');
         }
-- 
2.43.0


From 46b57ddfee8fbe1bfefccf8ba67162bb7ccda922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 009/100] fix: prefix headings, HTML and description lists in
 block quotes, keep empty quotes

---
 src/serializer/block.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index cb067a2..f498eb8 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,6 +1,6 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode};
+use comrak::nodes::{AlertType, AstNode, NodeValue};
 
 use super::Serializer;
 
@@ -104,13 +104,25 @@ impl<'a> Serializer<'a> {
                 self.output.push_str(&state.indent);
                 self.output.push_str(">\n");
             }
-            self.serialize_node(child);
+            match &child.data.borrow().value {
+                NodeValue::Heading(_) | NodeValue::HtmlBlock(_) | NodeValue::DescriptionList => {
+                    // These know nothing about block quotes
+                    let prefix = self.quote_line_prefix();
+                    self.output.push_str(&prefix);
+                    self.serialize_block_with_prefix(child, &prefix);
+                }
+                _ => self.serialize_node(child),
+            }
         }
     }
 
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
         let state = self.enter_blockquote_context();
         let children: Vec<_> = node.children().collect();
+        if children.is_empty() {
+            self.output.push_str(self.quote_line_prefix().trim_end());
+            self.output.push('\n');
+        }
         self.serialize_blockquote_children(&children, &state);
         self.exit_blockquote_context(state);
     }
-- 
2.43.0


From 3d2eeea12dc080c4ae4476d2bc9ed6d57619ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 010/100] fix: indent every kind of block in description
 details

---
 src/serializer/document.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1255591..e004e3c 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -359,7 +359,10 @@ impl<'a> Serializer<'a> {
                         // Other block types: serialize normally with indent
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        self.serialize_block_with_prefix(
+                            child,
+                            &format!("{}    ", blockquote_prefix),
+                        );
                     }
                 }
             } else {
@@ -405,7 +408,10 @@ impl<'a> Serializer<'a> {
                         // Other block types
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_node(child);
+                        self.serialize_block_with_prefix(
+                            child,
+                            &format!("{}    ", blockquote_prefix),
+                        );
                     }
                 }
             }
-- 
2.43.0


From f537fcc0512af0cb34a74721d8f27a66bd8b55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 011/100] fix: align what follows a leading list in description
 details

---
 src/serializer/document.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index e004e3c..a6d0ec4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -302,6 +302,12 @@ impl<'a> Serializer<'a> {
         // Determine the prefix for blockquote context
         let blockquote_prefix = self.quote_line_prefix();
 
+        // A list right after the `:` marker sits one column deeper than anything else does
+        let first_is_list = children
+            .first()
+            .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::List(_)));
+        let details_indent = if first_is_list { "     " } else { "    " };
+
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -366,15 +372,15 @@ impl<'a> Serializer<'a> {
                     }
                 }
             } else {
-                // Subsequent children: need blank line and 4-space indent
+                // Subsequent children: need blank line and indent
                 self.output.push('\n');
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        self.output.push_str(details_indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = format!("{}    ", blockquote_prefix);
+                        let continuation = format!("{}{}", blockquote_prefix, details_indent);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
                             "",
@@ -386,10 +392,10 @@ impl<'a> Serializer<'a> {
                     }
                     NodeValue::CodeBlock(code) => {
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        self.output.push_str(details_indent);
                         self.serialize_code_block_with_indent(
                             code,
-                            &format!("{}    ", blockquote_prefix),
+                            &format!("{}{}", blockquote_prefix, details_indent),
                         );
                     }
                     NodeValue::List(_) => {
@@ -399,18 +405,20 @@ impl<'a> Serializer<'a> {
                     NodeValue::BlockQuote | NodeValue::Alert(_) => {
                         // Block quotes and alerts need list_item_indent to be set
                         // so that their continuation lines are properly indented
-                        let old_list_item_indent =
-                            std::mem::replace(&mut self.list_item_indent, "    ".to_string());
+                        let old_list_item_indent = std::mem::replace(
+                            &mut self.list_item_indent,
+                            details_indent.to_string(),
+                        );
                         self.serialize_node(child);
                         self.list_item_indent = old_list_item_indent;
                     }
                     _ => {
                         // Other block types
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        self.output.push_str(details_indent);
                         self.serialize_block_with_prefix(
                             child,
-                            &format!("{}    ", blockquote_prefix),
+                            &format!("{}{}", blockquote_prefix, details_indent),
                         );
                     }
                 }
-- 
2.43.0


From 115b367a09531ff44d20365471bb299438fb48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 012/100] fix: never break a line inside a code span or an HTML
 tag

---
 src/serializer/wrap.rs | 115 +++++++++++++++++++++++++++++------------
 1 file changed, 83 insertions(+), 32 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..f41fc7f 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -200,8 +200,8 @@ fn wrap_text_first_line_segment(
 
 /// Wrap a single segment of text (no original line break markers).
 ///
-/// Handles special tokens like backtick-delimited code spans and bracketed
-/// content (links) as unbreakable units.
+/// Handles special tokens like backtick-delimited code spans, HTML tags, and
+/// bracketed content (links) as unbreakable units.
 pub fn wrap_single_segment(
     text: &str,
     first_prefix: &str,
@@ -218,44 +218,42 @@ pub fn wrap_single_segment(
 
     // Split into "tokens" where each token is either:
     // - A word (non-space characters) followed by optional spaces
-    // - Content inside backticks (treated as a single unbreakable unit)
+    // - A code span or HTML tag or comment (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let chars = text.chars();
+    let chars: Vec<char> = text.chars().collect();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut in_backticks = false;
+    let mut span_end = 0;
+    let last_tag_end = chars.iter().rposition(|&ch| ch == '>');
+    let last_comment_end = chars.windows(3).rposition(|w| w == ['-', '-', '>']);
     let mut bracket_depth = 0;
 
-    for ch in chars {
-        if ch == '`' && bracket_depth == 0 {
-            if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
-            } else {
-                // Start of backtick region - include any accumulated content first
-                if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                    // We have a previous word, output it
-                    add_token_to_line_with_prefix(
-                        &mut result,
-                        &mut current_line,
-                        &current_token,
-                        &trailing_spaces,
-                        first_prefix_width,
-                        prefix,
-                        line_width,
-                        &mut is_first_line,
-                    );
-                    current_token.clear();
-                    trailing_spaces.clear();
-                }
-                current_token.push(ch);
-                in_backticks = true;
+    for (i, &ch) in chars.iter().enumerate() {
+        if i < span_end {
+            // Inside a code span or HTML tag, everything is part of the token
+            current_token.push(ch);
+        } else if bracket_depth == 0
+            && let Some(end) = find_span_end(&chars, i, last_tag_end, last_comment_end)
+        {
+            // Start of a code span or HTML tag - include any accumulated content first
+            if !current_token.is_empty() && !trailing_spaces.is_empty() {
+                // We have a previous word, output it
+                add_token_to_line_with_prefix(
+                    &mut result,
+                    &mut current_line,
+                    &current_token,
+                    &trailing_spaces,
+                    first_prefix_width,
+                    prefix,
+                    line_width,
+                    &mut is_first_line,
+                );
+                current_token.clear();
+                trailing_spaces.clear();
             }
-        } else if in_backticks {
-            // Inside backticks, everything is part of the token
             current_token.push(ch);
+            span_end = end;
         } else if ch == '[' {
             // Start of bracket region
             if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
@@ -328,6 +326,59 @@ pub fn wrap_single_segment(
     result
 }
 
+/// If a code span or an HTML tag or comment starts at `start`, return the index after its end.
+/// A run of backticks nothing closes is returned as a span of its own.
+fn find_span_end(
+    chars: &[char],
+    start: usize,
+    last_tag_end: Option<usize>,
+    last_comment_end: Option<usize>,
+) -> Option<usize> {
+    if !matches!(chars[start], '`' | '<') {
+        return None;
+    }
+    let backslashes = chars[..start]
+        .iter()
+        .rev()
+        .take_while(|&&c| c == '\\')
+        .count();
+    if backslashes % 2 == 1 {
+        return None;
+    }
+    match chars[start] {
+        '`' => {
+            let run_length = |at: usize| chars[at..].iter().take_while(|&&c| c == '`').count();
+            let opening = run_length(start);
+            let mut pos = start + opening;
+            while pos < chars.len() {
+                let run = run_length(pos);
+                if run == opening {
+                    return Some(pos + run);
+                }
+                pos += run.max(1);
+            }
+            Some(start + opening)
+        }
+        '<' => {
+            let next = *chars.get(start + 1)?;
+            if chars[start..].starts_with(&['<', '!', '-', '-']) {
+                let end = last_comment_end.filter(|&end| end >= start + 4)?;
+                (start + 4..=end)
+                    .find(|&at| chars[at..].starts_with(&['-', '-', '>']))
+                    .map(|at| at + 3)
+            } else if next.is_ascii_alphabetic() || matches!(next, '/' | '!' | '?') {
+                let end = last_tag_end.filter(|&end| end >= start + 2)?;
+                (start + 2..=end)
+                    .find(|&at| chars[at] == '>')
+                    .map(|at| at + 1)
+            } else {
+                None
+            }
+        }
+        _ => None,
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
-- 
2.43.0


From 5575e68e3839e9754874455c91e15668065ab400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 013/100] fix: do not wrap a line before a word that would
 start a block

---
 src/serializer/wrap.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index f41fc7f..588beb2 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -230,6 +230,17 @@ pub fn wrap_single_segment(
     let mut bracket_depth = 0;
 
     for (i, &ch) in chars.iter().enumerate() {
+        if i >= span_end
+            && bracket_depth == 0
+            && ch != ' '
+            && !trailing_spaces.is_empty()
+            && would_start_block(&chars[i..])
+        {
+            // At the start of a line this word would no longer be text, so keep it with
+            // the previous one
+            current_token.push_str(&trailing_spaces);
+            trailing_spaces.clear();
+        }
         if i < span_end {
             // Inside a code span or HTML tag, everything is part of the token
             current_token.push(ch);
@@ -326,6 +337,24 @@ pub fn wrap_single_segment(
     result
 }
 
+/// Whether the word at the start of `text` would start a list, heading, block quote, code
+/// block, definition, etc., or underline a heading, if it stood at the start of a line.
+fn would_start_block(text: &[char]) -> bool {
+    let word: String = text.iter().take_while(|ch| !ch.is_whitespace()).collect();
+    let ordered_marker = word.strip_suffix(['.', ')']);
+    matches!(word.as_str(), "*" | "+" | "~")
+        || word.starts_with('>')
+        || word.starts_with("<!")
+        || word.starts_with("<?")
+        || word.starts_with("```")
+        || word.starts_with("~~~")
+        || word.starts_with("[^") && word.contains("]:")
+        || word.chars().all(|c| matches!(c, '-' | '=' | ':' | '|'))
+        || word.chars().all(|c| c == '_')
+        || word.chars().all(|c| c == '#') && word.len() <= 6
+        || ordered_marker.is_some_and(|number| number.parse::<u32>() == Ok(1))
+}
+
 /// If a code span or an HTML tag or comment starts at `start`, return the index after its end.
 /// A run of backticks nothing closes is returned as a span of its own.
 fn find_span_end(
-- 
2.43.0


From 603199ee0dce9da92048e7c5edad935ef6ea17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 014/100] fix: feed code formatters and read their output
 without deadlock

---
 src/serializer/formatter.rs | 56 +++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..e90deaf 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,8 +4,9 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
+use std::io::{Read, Write};
 use std::process::{Command, Stdio};
+use std::sync::mpsc;
 use std::thread;
 use std::time::{Duration, Instant};
 
@@ -95,13 +96,15 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
+    // Write code to stdin and collect the output in the background: neither a formatter
+    // that writes before it has read everything, nor one that never reads, may block us
+    let writer = child.stdin.take().map(|mut stdin| {
+        let code = code.to_owned();
+        // stdin is dropped in the thread, closing it
+        thread::spawn(move || stdin.write_all(code.as_bytes()))
+    });
+    let stdout = read_in_background(child.stdout.take());
+    let stderr = read_in_background(child.stderr.take());
 
     // Wait with timeout using polling
     let timeout = Duration::from_secs(timeout_secs);
@@ -112,13 +115,27 @@ pub fn run_formatter(
         match child.try_wait() {
             Ok(Some(status)) => {
                 // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
+                // (a process it left behind may still hold its output open)
+                let remaining = timeout.saturating_sub(start.elapsed()).max(poll_interval);
                 if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
+                    if let Some(Ok(Err(e))) = writer
+                        .filter(|writer| writer.is_finished())
+                        .map(|writer| writer.join())
+                        // It is up to the formatter how much of its input it reads
+                        && e.kind() != std::io::ErrorKind::BrokenPipe
+                    {
+                        return Err(FormatterError::Stdin(e));
+                    }
+                    let stdout = stdout
+                        .recv_timeout(remaining)
+                        .map_err(|_| FormatterError::Timeout)?
+                        .map_err(FormatterError::Spawn)?;
+                    return String::from_utf8(stdout).map_err(FormatterError::InvalidUtf8);
                 } else {
+                    let stderr = stderr.recv_timeout(remaining).ok().and_then(Result::ok);
                     return Err(FormatterError::NonZeroExit {
                         code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
+                        stderr: String::from_utf8_lossy(&stderr.unwrap_or_default()).to_string(),
                     });
                 }
             }
@@ -126,6 +143,7 @@ pub fn run_formatter(
                 // Still running
                 if start.elapsed() >= timeout {
                     let _ = child.kill();
+                    let _ = child.wait();
                     return Err(FormatterError::Timeout);
                 }
                 thread::sleep(poll_interval);
@@ -135,6 +153,22 @@ pub fn run_formatter(
     }
 }
 
+/// Read everything from `stream` in a thread of its own.
+fn read_in_background(
+    stream: Option<impl Read + Send + 'static>,
+) -> mpsc::Receiver<std::io::Result<Vec<u8>>> {
+    let (sender, receiver) = mpsc::channel();
+    thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let result = match stream {
+            Some(mut stream) => stream.read_to_end(&mut bytes),
+            None => Ok(0),
+        };
+        let _ = sender.send(result.map(|_| bytes));
+    });
+    receiver
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8bffc34106cfbf4318f85d3959db00d978788de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 015/100] fix: keep every kind of inline in headings

---
 src/serializer/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a6d0ec4..42544e7 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -429,8 +429,10 @@ impl<'a> Serializer<'a> {
     }
 
     pub(super) fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8) {
-        // Collect heading text first
-        let mut heading_text = self.collect_text(node);
+        // Collect heading text first, on a single line
+        let mut heading_text = String::new();
+        self.collect_inline_content(node, &mut heading_text);
+        let mut heading_text = heading_text.replace(['\x00', '\n'], " ");
 
         // Apply sentence case if enabled
         if self.options.heading_sentence_case {
-- 
2.43.0


From da10619c9642554282b8e659e5a74d888b49242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 016/100] fix: leave markup alone when converting headings to
 sentence case

---
 src/serializer/heading.rs | 78 +++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..f777091 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -61,7 +61,7 @@ pub fn to_sentence_case(
 /// Token types for parsing heading text.
 #[derive(Debug, PartialEq)]
 enum Token {
-    /// Code span with backticks (preserved as-is)
+    /// Code span with backticks, or other literal markup (preserved as-is)
     CodeSpan(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
@@ -186,14 +186,67 @@ fn normalize_quotes(text: &str) -> String {
     result
 }
 
-/// Tokenize text: first extract code spans, then normalize quotes and parse quotes in remaining text.
+/// Find the end of the markup starting at `start` whose letters and quotes mean something other
+/// than prose: a code span, an HTML tag, an autolink, a link destination or label, or a footnote
+/// reference.  Returns `None` if there is no such markup there.
+fn find_literal_end(chars: &[char], start: usize) -> Option<usize> {
+    let find = |from: usize, closing: char| {
+        (from..chars.len()).find(|&i| chars[i] == closing && chars[i - 1] != '\\')
+    };
+    match chars[start] {
+        '`' => {
+            let run = |from: usize| chars[from..].iter().take_while(|&&c| c == '`').count();
+            let opening = run(start);
+            let mut i = start + opening;
+            while i < chars.len() {
+                if chars[i] == '`' {
+                    let length = run(i);
+                    i += length;
+                    if length == opening {
+                        return Some(i);
+                    }
+                } else {
+                    i += 1;
+                }
+            }
+            None
+        }
+        '<' if matches!(chars.get(start + 1), Some(c) if c.is_ascii_alphabetic() || "/!?".contains(*c)) => {
+            find(start + 1, '>').map(|i| i + 1)
+        }
+        ']' => match chars.get(start + 1) {
+            Some('[') => find(start + 2, ']').map(|i| i + 1),
+            Some('(') => {
+                let mut depth = 0;
+                for i in start + 1..chars.len() {
+                    match chars[i] {
+                        _ if chars[i - 1] == '\\' => {}
+                        '(' => depth += 1,
+                        ')' if depth == 1 => return Some(i + 1),
+                        ')' => depth -= 1,
+                        _ => {}
+                    }
+                }
+                None
+            }
+            _ => None,
+        },
+        '[' if chars.get(start + 1) == Some(&'^') => find(start + 2, ']').map(|i| i + 1),
+        _ => None,
+    }
+}
+
+/// Tokenize text: first extract code spans and other literal markup, then normalize quotes and
+/// parse quotes in remaining text.
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
     let mut current = String::new();
-    let mut chars = text.chars().peekable();
+    let chars: Vec<char> = text.chars().collect();
+    let mut i = 0;
 
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
+    while i < chars.len() {
+        let escaped = i > 0 && chars[i - 1] == '\\';
+        if !escaped && let Some(end) = find_literal_end(&chars, i) {
             // Save any accumulated text (normalize quotes in it)
             if !current.is_empty() {
                 let normalized = normalize_quotes(&current);
@@ -201,17 +254,12 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
                 current.clear();
             }
 
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
-            }
-            tokens.push(Token::CodeSpan(code_span));
+            // Collect the literal (preserve as-is, no quote normalization)
+            tokens.push(Token::CodeSpan(chars[i..end].iter().collect()));
+            i = end;
         } else {
-            current.push(ch);
+            current.push(chars[i]);
+            i += 1;
         }
     }
 
-- 
2.43.0


From 0eb5e1e80b8396b57cf5bb45b87582d882510757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 017/100] fix: escape link destinations and titles

---
 src/serializer/escape.rs | 72 ++++++++++++++++++++++++++++++++++++++++
 src/serializer/inline.rs |  7 +---
 src/serializer/link.rs   | 31 ++++++++---------
 src/serializer/mod.rs    |  7 ++--
 4 files changed, 90 insertions(+), 27 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..7faddfa 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -136,6 +136,78 @@ pub fn is_valid_code_span(source: &str) -> bool {
     leading_backticks == trailing_backticks && leading_backticks <= source.len() / 2
 }
 
+/// Format the destination of an inline link, an image, or a link reference definition.
+/// The parser has already resolved escapes and entities in `url`, so whatever would read
+/// differently when written as it is has to be escaped again.
+pub fn format_link_destination(url: &str) -> String {
+    let bare_allowed = !url.is_empty()
+        && !url.starts_with('<')
+        && !url.contains(|c: char| c == ' ' || c.is_ascii_control());
+    let mut depth = 0i32;
+    let mut balanced = true;
+    for ch in url.chars() {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        balanced &= (0..=31).contains(&depth);
+    }
+    let bare = bare_allowed && balanced && depth == 0;
+
+    let mut result = String::with_capacity(url.len() + 2);
+    if !bare {
+        result.push('<');
+    }
+    for (i, ch) in url.char_indices() {
+        let rest = &url[i + ch.len_utf8()..];
+        let needs_escape = match ch {
+            '\\' => rest.starts_with(|c: char| c.is_ascii_punctuation()) || rest.is_empty(),
+            '&' => starts_like_entity(rest),
+            '<' | '>' => !bare,
+            _ => false,
+        };
+        if needs_escape {
+            result.push('\\');
+        }
+        result.push(ch);
+    }
+    if !bare {
+        result.push('>');
+    }
+    result
+}
+
+/// Format the title of a link, an image, or a link reference definition, with its quotes.
+pub fn format_link_title(title: &str) -> String {
+    let mut result = String::with_capacity(title.len() + 2);
+    result.push('"');
+    for (i, ch) in title.char_indices() {
+        let rest = &title[i + ch.len_utf8()..];
+        let needs_escape = match ch {
+            '"' => true,
+            '\\' => rest.starts_with(|c: char| c.is_ascii_punctuation()) || rest.is_empty(),
+            '&' => starts_like_entity(rest),
+            _ => false,
+        };
+        if needs_escape {
+            result.push('\\');
+        }
+        result.push(ch);
+    }
+    result.push('"');
+    result
+}
+
+/// Check if the text after an ampersand could make it an HTML entity.
+fn starts_like_entity(after_ampersand: &str) -> bool {
+    let end = after_ampersand.find(';').unwrap_or(0);
+    end > 0
+        && after_ampersand[..end]
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || c == '#')
+}
+
 /// Escape pipe characters in table cell content.
 /// Pipes must be escaped to prevent being interpreted as cell boundaries.
 pub fn escape_table_cell(content: &str) -> String {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index becdf25..7d63520 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -223,12 +223,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_node(child, content);
                     }
                     content.push_str("](");
-                    content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
+                    Self::push_link_target(content, &link.url, &link.title);
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..4828a84 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
+use super::escape;
 
 impl<'a> Serializer<'a> {
     /// Format a reference-style link and write to output buffer.
@@ -46,13 +47,19 @@ impl<'a> Serializer<'a> {
         output.push('[');
         output.push_str(text);
         output.push_str("](");
-        output.push_str(url);
+        Self::push_link_target(output, url, title);
+        output.push(')');
+    }
+
+    /// Write the destination of a link followed by its title, if it has one.
+    pub(super) fn push_link_target(output: &mut String, url: &str, title: &str) {
+        if !url.is_empty() || !title.is_empty() {
+            output.push_str(&escape::format_link_destination(url));
+        }
         if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
+            output.push(' ');
+            output.push_str(&escape::format_link_title(title));
         }
-        output.push(')');
     }
 
     /// Format an autolink and write to output buffer.
@@ -142,12 +149,7 @@ impl<'a> Serializer<'a> {
         output.push_str("![");
         output.push_str(alt_text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        Self::push_link_target(output, url, title);
         output.push(')');
     }
 
@@ -188,12 +190,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_node(child);
             }
             self.output.push_str("](");
-            self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
+            Self::push_link_target(&mut self.output, url, title);
             self.output.push(')');
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 5b5d27f..f7161c1 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -252,11 +252,10 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
+        output.push_str(&escape::format_link_destination(&reference.url));
         if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
+            output.push(' ');
+            output.push_str(&escape::format_link_title(&reference.title));
         }
         output.push('\n');
     }
-- 
2.43.0


From 0024ce429ee7831df4a5e276ceaabb6cd28cfa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 018/100] fix: never break a line inside a link destination

---
 src/serializer/wrap.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 588beb2..0b70392 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -355,7 +355,8 @@ fn would_start_block(text: &[char]) -> bool {
         || ordered_marker.is_some_and(|number| number.parse::<u32>() == Ok(1))
 }
 
-/// If a code span or an HTML tag or comment starts at `start`, return the index after its end.
+/// If a code span, an HTML tag or comment, or a link destination in angle brackets starts at
+/// `start`, return the index after its end.
 /// A run of backticks nothing closes is returned as a span of its own.
 fn find_span_end(
     chars: &[char],
@@ -395,6 +396,11 @@ fn find_span_end(
                 (start + 4..=end)
                     .find(|&at| chars[at..].starts_with(&['-', '-', '>']))
                     .map(|at| at + 3)
+            } else if chars[..start].ends_with(&[']', '(']) {
+                // A link destination with spaces in it
+                (start + 1..chars.len())
+                    .find(|&at| chars[at] == '>' && chars[at - 1] != '\\')
+                    .map(|at| at + 1)
             } else if next.is_ascii_alphabetic() || matches!(next, '/' | '!' | '?') {
                 let end = last_tag_end.filter(|&end| end >= start + 2)?;
                 (start + 2..=end)
-- 
2.43.0


From 3388222e176a9d848e7b998c669fc8237d91946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 019/100] fix: wrap footnotes like any other text

---
 src/serializer/mod.rs | 57 ++++++++-----------------------------------
 1 file changed, 10 insertions(+), 47 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index f7161c1..4f3c23f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -20,7 +20,6 @@ pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
 use comrak::nodes::{AstNode, NodeValue};
-use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
@@ -427,59 +426,23 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width.saturating_sub(prefix.width());
-        let continuation_width = line_width.saturating_sub(continuation_indent.len());
-
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
+        if content.is_empty() {
             self.output.push_str(&prefix);
             self.output.push('\n');
             return;
         }
 
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
+        // Wrap content at line_width, accounting for prefix on first line
+        let wrapped = wrap::wrap_text_first_line(
+            &content,
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        self.output.push('\n');
     }
 
     /// Serialize footnote content that contains block elements.
-- 
2.43.0


From 02742a004a47edc951303b0a1d763147117556cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 020/100] fix: find the text of a link past escaped and literal
 brackets

---
 src/serializer/escape.rs | 16 ++++++++++++++++
 src/serializer/mod.rs    | 30 ++++++++++++++++++++++++------
 src/serializer/wrap.rs   | 16 +++-------------
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 7faddfa..881acc4 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -136,6 +136,22 @@ pub fn is_valid_code_span(source: &str) -> bool {
     leading_backticks == trailing_backticks && leading_backticks <= source.len() / 2
 }
 
+/// Return the index after the code span whose opening backticks start at `start`, or after the
+/// backticks themselves if nothing closes them.
+pub fn code_span_end(chars: &[char], start: usize) -> usize {
+    let run_length = |at: usize| chars[at..].iter().take_while(|&&c| c == '`').count();
+    let opening = run_length(start);
+    let mut pos = start + opening;
+    while pos < chars.len() {
+        let run = run_length(pos);
+        if run == opening {
+            return pos + run;
+        }
+        pos += run.max(1);
+    }
+    start + opening
+}
+
 /// Format the destination of an inline link, an image, or a link reference definition.
 /// The parser has already resolved escapes and entities in `url`, so whatever would read
 /// differently when written as it is has to be escaped again.
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 4f3c23f..546b4a6 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -102,15 +102,25 @@ impl<'a> Serializer<'a> {
         // Remove leading ! for images
         let source = source.strip_prefix('!').unwrap_or(&source);
 
-        // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
+        // Track brackets from the opening '[' to find the matching ']'
+        // (an autolink has no such bracket)
+        if !source.starts_with('[') {
+            return None;
+        }
         let chars: Vec<char> = source.chars().collect();
 
-        // Find the closing bracket at depth 0 (the one that closes the text/content part)
+        // Find the closing bracket at depth 0 (the one that closes the text/content part),
+        // passing over escaped brackets and those in code spans
         let mut depth = 0;
         let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
+        let mut literal_end = 0;
+        for (i, &ch) in chars.iter().enumerate() {
+            if i < literal_end {
+                continue;
+            }
             match ch {
+                '\\' => literal_end = i + 2,
+                '`' => literal_end = escape::code_span_end(&chars, i),
                 '[' => depth += 1,
                 ']' => {
                     depth -= 1;
@@ -127,7 +137,7 @@ impl<'a> Serializer<'a> {
 
         // Convert char indices to strings for safe UTF-8 handling
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
-        let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
+        let text: String = chars[1..text_end_pos].iter().collect();
 
         // Normalize newlines to spaces in the text (for idempotency when text spans lines)
         let text = escape::normalize_whitespace(&text);
@@ -140,7 +150,15 @@ impl<'a> Serializer<'a> {
         // If followed by "[", it's full or collapsed reference style
         if let Some(label_content) = after_close.strip_prefix('[') {
             // Find the label between [ and ]
-            if let Some(label_end) = label_content.find(']') {
+            let label_end = label_content
+                .char_indices()
+                .scan(false, |escaped, (i, ch)| {
+                    let closing = ch == ']' && !*escaped;
+                    *escaped = ch == '\\' && !*escaped;
+                    Some((i, closing))
+                })
+                .find(|&(_, closing)| closing);
+            if let Some((label_end, _)) = label_end {
                 let label = label_content[..label_end].to_string();
                 // Normalize label too
                 let label = escape::normalize_whitespace(&label);
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 0b70392..35633c6 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,8 @@
 
 use unicode_width::UnicodeWidthStr;
 
+use super::escape;
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -376,19 +378,7 @@ fn find_span_end(
         return None;
     }
     match chars[start] {
-        '`' => {
-            let run_length = |at: usize| chars[at..].iter().take_while(|&&c| c == '`').count();
-            let opening = run_length(start);
-            let mut pos = start + opening;
-            while pos < chars.len() {
-                let run = run_length(pos);
-                if run == opening {
-                    return Some(pos + run);
-                }
-                pos += run.max(1);
-            }
-            Some(start + opening)
-        }
+        '`' => Some(escape::code_span_end(chars, start)),
         '<' => {
             let next = *chars.get(start + 1)?;
             if chars[start..].starts_with(&['<', '!', '-', '-']) {
-- 
2.43.0


From 344ed5a4c1942653ae32c756be08c3cf1b12f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 021/100] fix: keep external links inline where a reference
 would not mean the same

---
 src/serializer/document.rs |  1 +
 src/serializer/escape.rs   | 22 ++++++++++++++++++++++
 src/serializer/link.rs     | 31 +++++++++++++++++++++++++------
 src/serializer/mod.rs      | 14 ++++++++++++++
 src/serializer/state.rs    |  6 ++++++
 5 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 42544e7..bf1758d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -10,6 +10,7 @@ use super::wrap;
 
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
+        self.collect_reference_targets(node);
         let children: Vec<_> = node.children().collect();
 
         // Check for undefined reference links using AST
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 881acc4..8273db1 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -136,6 +136,28 @@ pub fn is_valid_code_span(source: &str) -> bool {
     leading_backticks == trailing_backticks && leading_backticks <= source.len() / 2
 }
 
+/// Normalize a reference label the way labels are matched.
+pub fn normalize_label(label: &str) -> String {
+    normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
+}
+
+/// Check if the text of a link can also serve as a reference label: it must not be empty or
+/// too long, contain brackets, or look like a footnote reference or a task marker.
+pub fn is_reference_label(text: &str) -> bool {
+    let mut escaped = false;
+    let has_bracket = text.chars().any(|ch| {
+        let found = matches!(ch, '[' | ']') && !escaped;
+        escaped = ch == '\\' && !escaped;
+        found
+    });
+    !has_bracket
+        && !escaped
+        && !text.trim().is_empty()
+        && text.chars().count() < 1000
+        && !text.starts_with('^')
+        && !text.eq_ignore_ascii_case("x")
+}
+
 /// Return the index after the code span whose opening backticks start at `start`, or after the
 /// backticks themselves if nothing closes them.
 pub fn code_span_end(chars: &[char], start: usize) -> usize {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 4828a84..b3b5f3e 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -74,6 +74,9 @@ impl<'a> Serializer<'a> {
     /// If `use_collapsed` is true, outputs `[text][]` (collapsed reference) instead of
     /// `[text]` (shortcut reference). This is needed to disambiguate when the link is
     /// immediately followed by something that starts with `[`, like a footnote reference.
+    ///
+    /// If the text cannot be a reference label, or is already the label of something else,
+    /// the link is written inline.
     pub(super) fn format_external_link_as_reference(
         &mut self,
         output: &mut String,
@@ -84,6 +87,17 @@ impl<'a> Serializer<'a> {
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
+        let target = (url.to_string(), title.to_string());
+        if !escape::is_reference_label(&normalized_text)
+            || *self
+                .reference_targets
+                .entry(escape::normalize_label(&normalized_text))
+                .or_insert_with(|| target.clone())
+                != target
+        {
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
@@ -95,14 +109,19 @@ impl<'a> Serializer<'a> {
     }
 
     /// Check if the next sibling of a node starts with `[`.
-    /// This includes footnote references, link references, and images.
+    /// This includes footnote references, link references, and images, as well as text.
+    /// Text starting with `(` would turn a shortcut reference into an inline link, and text
+    /// starting with `:` one that begins a paragraph into a definition.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
-            let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match &next.data.borrow().value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => {
+                    text.starts_with(['[', '('])
+                        || (text.starts_with(':') && node.previous_sibling().is_none())
+                }
+                _ => false,
+            }
         } else {
             false
         }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 546b4a6..c289b66 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -180,6 +180,20 @@ impl<'a> Serializer<'a> {
         Some((text.clone(), text))
     }
 
+    /// Record the target of every reference label used in the source.
+    fn collect_reference_targets<'b>(&mut self, root: &'b AstNode<'b>) {
+        for node in root.descendants() {
+            if let NodeValue::Link(link) | NodeValue::Image(link) = &node.data.borrow().value
+                && let Some((_, label)) = self.get_reference_style_info(node)
+            {
+                let label = escape::normalize_label(label.trim_start_matches('\x01'));
+                self.reference_targets
+                    .entry(label)
+                    .or_insert_with(|| (link.url.clone(), link.title.clone()));
+            }
+        }
+    }
+
     /// Ensure output ends with a blank line (two newlines).
     /// Used before emitting reference definitions and footnotes.
     fn ensure_blank_line(&mut self) {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..bbf067b 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -252,6 +252,10 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// What every reference label of the document stands for: the labels the source defines,
+    /// and the ones made up for external links so far
+    /// Key: normalized label, Value: (url, title)
+    pub reference_targets: std::collections::HashMap<String, (String, String)>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -304,6 +308,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -341,6 +346,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
-- 
2.43.0


From c6aa868cab7e22c9be8fa020d7130ff676e0f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 022/100] fix: reject thematic break styles that mix markers

---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..3e26da4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,7 +731,8 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        let used_markers = marker_counts.iter().filter(|(count, _)| *count > 0).count();
+        if used_markers > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
-- 
2.43.0


From d9fc7b3c8e25e2b6a6fd07f183508c34bbbb1ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 023/100] fix: report an invalid --line-width instead of
 panicking

---
 src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1d59371..65b6524 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,12 +53,18 @@ fn main() -> ExitCode {
     // Load configuration
     let (config, config_dir) = load_config(&args);
 
+    let line_width = match args.line_width.map(LineWidth::new) {
+        Some(Ok(line_width)) => line_width,
+        Some(Err(e)) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+        None => config.line_width,
+    };
+
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width,
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
-- 
2.43.0


From f161a5ba7bd59992f40589c7cf37d501692737d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 024/100] fix: do not warn about references whose brackets are
 escaped

---
 src/serializer/document.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index bf1758d..b4b9079 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -853,7 +853,8 @@ impl<'a> Serializer<'a> {
     }
 
     /// Check if a bracket pattern was escaped in the original source.
-    /// Returns true if the pattern appears as `\[...]` in the source.
+    /// Returns true if the pattern appears with a backslash before a bracket of it in the
+    /// source, as in `\[...]` or `\[...\]`, and never without.
     fn is_escaped_in_source(source_lines: &[&str], line_num: usize, pattern: &str) -> bool {
         if line_num == 0 || line_num > source_lines.len() {
             return false;
@@ -861,18 +862,20 @@ impl<'a> Serializer<'a> {
 
         let line = source_lines[line_num - 1];
 
-        // Look for the pattern in the line and check if it's preceded by backslash
-        if let Some(pos) = line.find(pattern)
-            && pos > 0
-        {
-            let bytes = line.as_bytes();
-            // Check if preceded by backslash (and not double backslash)
-            if bytes[pos - 1] == b'\\' && (pos < 2 || bytes[pos - 2] != b'\\') {
-                return true;
-            }
+        // Look for the pattern in the line and check if it's preceded by a backslash
+        // (and not by an escaped backslash)
+        let is_preceded_by_escape = |pos: usize| {
+            let backslashes = line[..pos].bytes().rev().take_while(|&b| b == b'\\');
+            backslashes.count() % 2 == 1
+        };
+        let positions: Vec<usize> = line.match_indices(pattern).map(|(pos, _)| pos).collect();
+        if !positions.is_empty() {
+            return positions.into_iter().all(is_preceded_by_escape);
         }
 
-        false
+        line.replace("\\[", "[")
+            .replace("\\]", "]")
+            .contains(pattern)
     }
 
     pub(super) fn serialize_thematic_break(&mut self) {
-- 
2.43.0


From dbd51913171fcd93e35279e1fe1648bbb608cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 025/100] fix: apply .gitignore to files that match an include
 pattern

---
 src/config.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 3e26da4..787a154 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1081,32 +1081,32 @@ impl Config {
             return Ok(Vec::new());
         }
 
-        // Build override patterns: include patterns are whitelist,
-        // exclude patterns are prefixed with ! to negate them
-        let mut override_builder = OverrideBuilder::new(base_dir);
-
-        // Add include patterns
+        // Include patterns are matched separately from the exclude patterns: given to the
+        // walker, they would take precedence over .gitignore
+        let mut include_builder = OverrideBuilder::new(base_dir);
         for pattern in &self.include {
-            override_builder.add(pattern).map_err(ConfigError::Ignore)?;
+            include_builder.add(pattern).map_err(ConfigError::Ignore)?;
         }
+        let includes = include_builder.build().map_err(ConfigError::Ignore)?;
 
         // Add exclude patterns with ! prefix (negation)
+        let mut exclude_builder = OverrideBuilder::new(base_dir);
         for pattern in &self.exclude {
-            override_builder
+            exclude_builder
                 .add(&format!("!{}", pattern))
                 .map_err(ConfigError::Ignore)?;
         }
-
-        let overrides = override_builder.build().map_err(ConfigError::Ignore)?;
+        let excludes = exclude_builder.build().map_err(ConfigError::Ignore)?;
 
         // Build walker with overrides
-        // This efficiently skips directories that don't match patterns
+        // This efficiently skips directories that are excluded
         let walker = WalkBuilder::new(base_dir)
             .hidden(false) // Don't automatically ignore hidden files
+            .ignore(false) // Only .gitignore is respected
             .git_ignore(self.git_aware) // Respect .gitignore if git_aware is enabled
             .git_global(false) // Don't use global gitignore (for consistency)
             .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
-            .overrides(overrides)
+            .overrides(excludes)
             .build();
 
         // Collect matching files
@@ -1114,7 +1114,7 @@ impl Config {
         for entry in walker {
             let entry = entry.map_err(ConfigError::Ignore)?;
             let path = entry.path();
-            if path.is_file() {
+            if path.is_file() && includes.matched(path, false).is_whitelist() {
                 files.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From a0802978edb4314a08a0e71e6763bc1e53169f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 026/100] fix: skip the .git directory when git_aware is set

---
 src/config.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 787a154..0aa919c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1096,6 +1096,9 @@ impl Config {
                 .add(&format!("!{}", pattern))
                 .map_err(ConfigError::Ignore)?;
         }
+        if self.git_aware {
+            exclude_builder.add("!.git").map_err(ConfigError::Ignore)?;
+        }
         let excludes = exclude_builder.build().map_err(ConfigError::Ignore)?;
 
         // Build walker with overrides
-- 
2.43.0


From a7a99f2a844653428c330a4c4227c2145691707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 027/100] fix: collect files when --config names a file in the
 current directory

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 65b6524..4aa822f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -406,6 +406,7 @@ fn load_config(args: &Args) -> (Config, PathBuf) {
             Ok(config) => {
                 let config_dir = config_path
                     .parent()
+                    .filter(|p| !p.as_os_str().is_empty())
                     .map(|p| p.to_path_buf())
                     .unwrap_or_else(|| cwd.clone());
                 return (config, config_dir);
-- 
2.43.0


From f9abd90a819f909f67bd50a6aae85947547c014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 028/100] fix: go on with the other files when one cannot be
 read

---
 src/main.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4aa822f..6244b10 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -257,12 +257,15 @@ fn process_files_parallel(
 
 /// Process files sequentially (for stdout mode where order matters).
 fn process_files_sequential(files: &[PathBuf], options: &Options) -> ExitCode {
+    let mut has_error = false;
+
     for file in files {
         let input = match fs::read_to_string(file) {
             Ok(content) => content,
             Err(e) => {
                 eprintln!("Error reading {}: {}", file.display(), e);
-                return ExitCode::FAILURE;
+                has_error = true;
+                continue;
             }
         };
 
@@ -281,22 +284,29 @@ fn process_files_sequential(files: &[PathBuf], options: &Options) -> ExitCode {
             }
             Err(e) => {
                 eprintln!("Error formatting {}: {}", file.display(), e);
-                return ExitCode::FAILURE;
+                has_error = true;
             }
         }
     }
 
-    ExitCode::SUCCESS
+    if has_error {
+        ExitCode::FAILURE
+    } else {
+        ExitCode::SUCCESS
+    }
 }
 
 /// Process files in diff mode.
 fn process_files_diff(files: &[PathBuf], options: &Options) -> ExitCode {
+    let mut has_error = false;
+
     for file in files {
         let input = match fs::read_to_string(file) {
             Ok(content) => content,
             Err(e) => {
                 eprintln!("Error reading {}: {}", file.display(), e);
-                return ExitCode::FAILURE;
+                has_error = true;
+                continue;
             }
         };
 
@@ -315,12 +325,16 @@ fn process_files_diff(files: &[PathBuf], options: &Options) -> ExitCode {
             }
             Err(e) => {
                 eprintln!("Error formatting {}: {}", file.display(), e);
-                return ExitCode::FAILURE;
+                has_error = true;
             }
         }
     }
 
-    ExitCode::SUCCESS
+    if has_error {
+        ExitCode::FAILURE
+    } else {
+        ExitCode::SUCCESS
+    }
 }
 
 /// Print a unified diff between original and formatted content.
-- 
2.43.0


From 9afbfdf2abc748fbcaaa694d3979ce03aec1192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 029/100] fix: honor --check for standard input

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6244b10..175169d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -168,7 +168,12 @@ fn main() -> ExitCode {
                 for warning in &result.warnings {
                     eprintln!("<stdin>:{}: warning: {}", warning.line, warning.message);
                 }
-                if args.diff {
+                if args.check {
+                    if input != result.output {
+                        eprintln!("<stdin>: not formatted");
+                        return ExitCode::FAILURE;
+                    }
+                } else if args.diff {
                     print_diff("<stdin>", &input, &result.output);
                 } else {
                     print!("{}", result.output);
-- 
2.43.0


From d29d9a735854e4f7442ad25be0c1f22d7e66c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 030/100] fix: process a file given in several ways only once

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 175169d..7347a45 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
+use std::collections::HashSet;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
@@ -373,6 +374,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
 ///
 /// If a path is a directory, recursively finds all `.md` files within it.
 /// If a path is a file, it is included as-is.
+/// A file reached in several ways is included only once, since two threads must not write it.
 fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
     let mut result = Vec::new();
     for path in paths {
@@ -382,6 +384,8 @@ fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
             result.push(path.clone());
         }
     }
+    let mut seen = HashSet::new();
+    result.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
     result
 }
 
-- 
2.43.0


From d88845891f120af4f67de969650e898fe5e0e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 031/100] fix: do not turn line breaks inside inline HTML into
 hard ones

---
 src/serializer/inline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 7d63520..5f53c44 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -265,8 +265,8 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                content.push_str(html);
+                // Preserve inline HTML as-is, but for its line breaks, which are soft ones
+                content.push_str(&html.replace('\n', "\x00"));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
-- 
2.43.0


From bd2c3a6f75b17291ee43a891d1c41e56c5e40133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 032/100] fix: keep list numbers and block-level tags from
 starting a wrapped line

---
 src/serializer/wrap.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 35633c6..28a2a8e 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -354,7 +354,31 @@ fn would_start_block(text: &[char]) -> bool {
         || word.chars().all(|c| matches!(c, '-' | '=' | ':' | '|'))
         || word.chars().all(|c| c == '_')
         || word.chars().all(|c| c == '#') && word.len() <= 6
-        || ordered_marker.is_some_and(|number| number.parse::<u32>() == Ok(1))
+        || ordered_marker.is_some_and(|number| {
+            // Only 1 interrupts a paragraph, but any number starts another item of the list
+            // the paragraph is in
+            (1..=9).contains(&number.len()) && number.bytes().all(|b| b.is_ascii_digit())
+        })
+        || starts_html_block(&word)
+}
+
+/// HTML elements whose tags start an HTML block even right after a line of a paragraph.
+const HTML_BLOCK_ELEMENTS: &str = "address article aside base basefont blockquote body caption \
+    center col colgroup dd details dialog dir div dl dt fieldset figcaption figure footer form \
+    frame frameset h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem \
+    nav noframes ol optgroup option p param pre script search section style summary table tbody \
+    td textarea tfoot th thead title tr track ul";
+
+/// Whether `word` starts with a tag that would start an HTML block.
+fn starts_html_block(word: &str) -> bool {
+    word.strip_prefix('<').is_some_and(|tag| {
+        let tag = tag.strip_prefix('/').unwrap_or(tag);
+        let name = tag.split(|c: char| !c.is_ascii_alphanumeric()).next();
+        let name = name.unwrap_or_default().to_ascii_lowercase();
+        HTML_BLOCK_ELEMENTS
+            .split(' ')
+            .any(|element| element == name)
+    })
 }
 
 /// If a code span, an HTML tag or comment, or a link destination in angle brackets starts at
-- 
2.43.0


From ce1338eae17a1a1d6bf7a670430a420c37162642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 033/100] fix: separate the blocks of a list item by exactly
 one line

---
 src/serializer/list.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index ae9258e..a8b2bdd 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -29,6 +29,13 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Ends the current line, unless the block before (anything but a paragraph) did so already.
+    fn end_line(&mut self) {
+        if !self.output.ends_with('\n') {
+            self.output.push('\n');
+        }
+    }
+
     pub(super) fn serialize_list<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -226,13 +233,11 @@ impl<'a> Serializer<'a> {
                         false
                     };
 
+                    self.end_line();
                     if has_blank_line_before {
-                        // Blank line to separate from preceding paragraph
-                        self.output.push('\n');
+                        // Blank line to separate from the preceding block
                         self.output.push_str(quote_prefix.trim_end());
                         self.output.push('\n');
-                    } else {
-                        self.output.push('\n');
                     }
                     self.serialize_node(child);
                 }
@@ -264,7 +269,7 @@ impl<'a> Serializer<'a> {
                     // Code blocks in list items need blank line and indentation,
                     // except right after the marker, where a blank line would end the item
                     if !is_first {
-                        self.output.push('\n');
+                        self.end_line();
                         self.output.push_str(quote_prefix.trim_end());
                         self.output.push('\n');
                         self.output.push_str(&quote_prefix);
@@ -279,7 +284,7 @@ impl<'a> Serializer<'a> {
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
-                    self.output.push('\n');
+                    self.end_line();
                     if !is_first {
                         self.output.push_str(quote_prefix.trim_end());
                         self.output.push('\n');
@@ -301,9 +306,7 @@ impl<'a> Serializer<'a> {
                     // or after a blank line, and every line of them needs the item's indent
                     let prefix = format!("{}{}", quote_prefix, base_indent);
                     if !is_first {
-                        if !self.output.ends_with('\n') {
-                            self.output.push('\n');
-                        }
+                        self.end_line();
                         self.output.push_str(quote_prefix.trim_end());
                         self.output.push('\n');
                         self.output.push_str(&prefix);
-- 
2.43.0


From a3b79aae4ee86c013979e1ba5febf0f862b5fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 034/100] fix: do not let an over-indented line of a paragraph
 become a block

---
 src/serializer/wrap.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 28a2a8e..28671ee 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -42,11 +42,11 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_original_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width);
+        return wrap_single_segment(&original_lines[0], prefix, prefix, line_width);
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -90,6 +90,27 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// Split text at its original line breaks. A line that only its deep indentation kept from
+/// starting a block (say, a list item) loses that indentation, so it joins the line before.
+fn split_original_lines(text: &str) -> Vec<String> {
+    let mut lines: Vec<String> = Vec::new();
+    for line in text.split('\x00') {
+        let chars: Vec<char> = line.trim_start().chars().collect();
+        let is_number = chars.first().is_some_and(|ch| ch.is_ascii_digit());
+        let interrupts =
+            would_start_block(&chars) && (!is_number || matches!(chars[..], ['1', '.' | ')', ..]));
+        match lines.last_mut() {
+            Some(last) if interrupts && !chars.is_empty() => {
+                last.truncate(last.trim_end().len());
+                last.push(' ');
+                last.extend(chars);
+            }
+            _ => lines.push(line.to_string()),
+        }
+    }
+    lines
+}
+
 /// Wrap text where the first line has a different prefix than continuation lines.
 ///
 /// This is used for list items where the marker is already output and continuation
@@ -143,11 +164,16 @@ fn wrap_text_first_line_segment(
     line_width: usize,
 ) -> String {
     // Split by soft break markers (original line breaks)
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_original_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_single_segment(
+            &original_lines[0],
+            first_prefix,
+            continuation_prefix,
+            line_width,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
-- 
2.43.0


From 13e05a853d823b81889d1e2673e8f9872a2f72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 035/100] fix: never break a line inside a link title

---
 src/serializer/wrap.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 28671ee..e6bc0c4 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -407,8 +407,8 @@ fn starts_html_block(word: &str) -> bool {
     })
 }
 
-/// If a code span, an HTML tag or comment, or a link destination in angle brackets starts at
-/// `start`, return the index after its end.
+/// If a code span, an HTML tag or comment, a link destination in angle brackets or a link title
+/// starts at `start`, return the index after its end.
 /// A run of backticks nothing closes is returned as a span of its own.
 fn find_span_end(
     chars: &[char],
@@ -416,7 +416,7 @@ fn find_span_end(
     last_tag_end: Option<usize>,
     last_comment_end: Option<usize>,
 ) -> Option<usize> {
-    if !matches!(chars[start], '`' | '<') {
+    if !matches!(chars[start], '`' | '<' | '"') {
         return None;
     }
     let backslashes = chars[..start]
@@ -429,6 +429,22 @@ fn find_span_end(
     }
     match chars[start] {
         '`' => Some(escape::code_span_end(chars, start)),
+        '"' => {
+            // Only a title follows a destination, and only `)` follows a title
+            let before = chars[..start].strip_suffix(&[' '])?;
+            let end = (start + 1..chars.len())
+                .find(|&at| chars[at] == '"' && chars[at - 1] != '\\')
+                .map(|at| at + 1)
+                .filter(|&end| chars.get(end) == Some(&')'))?;
+            let is_title = if before.ends_with(&['>']) {
+                let open = before.iter().rposition(|&ch| ch == '<')?;
+                before[..open].ends_with(&[']', '('])
+            } else {
+                let word = before.rsplit(|&ch| ch == ' ').next()?;
+                word.windows(2).any(|w| w == [']', '('])
+            };
+            is_title.then_some(end)
+        }
         '<' => {
             let next = *chars.get(start + 1)?;
             if chars[start..].starts_with(&['<', '!', '-', '-']) {
-- 
2.43.0


From 40a00900482d30fbbcea9421a8f4d60199414e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 036/100] fix: keep a link destination and its title on one
 line

---
 src/serializer/wrap.rs | 47 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index e6bc0c4..117332d 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -407,8 +407,8 @@ fn starts_html_block(word: &str) -> bool {
     })
 }
 
-/// If a code span, an HTML tag or comment, a link destination in angle brackets or a link title
-/// starts at `start`, return the index after its end.
+/// If a code span, an HTML tag or comment, or the target of a link starts at `start`, return the
+/// index after its end.
 /// A run of backticks nothing closes is returned as a span of its own.
 fn find_span_end(
     chars: &[char],
@@ -416,7 +416,7 @@ fn find_span_end(
     last_tag_end: Option<usize>,
     last_comment_end: Option<usize>,
 ) -> Option<usize> {
-    if !matches!(chars[start], '`' | '<' | '"') {
+    if !matches!(chars[start], '`' | '<' | '(') {
         return None;
     }
     let backslashes = chars[..start]
@@ -429,22 +429,7 @@ fn find_span_end(
     }
     match chars[start] {
         '`' => Some(escape::code_span_end(chars, start)),
-        '"' => {
-            // Only a title follows a destination, and only `)` follows a title
-            let before = chars[..start].strip_suffix(&[' '])?;
-            let end = (start + 1..chars.len())
-                .find(|&at| chars[at] == '"' && chars[at - 1] != '\\')
-                .map(|at| at + 1)
-                .filter(|&end| chars.get(end) == Some(&')'))?;
-            let is_title = if before.ends_with(&['>']) {
-                let open = before.iter().rposition(|&ch| ch == '<')?;
-                before[..open].ends_with(&[']', '('])
-            } else {
-                let word = before.rsplit(|&ch| ch == ' ').next()?;
-                word.windows(2).any(|w| w == [']', '('])
-            };
-            is_title.then_some(end)
-        }
+        '(' if chars[..start].ends_with(&[']']) => link_target_end(chars, start),
         '<' => {
             let next = *chars.get(start + 1)?;
             if chars[start..].starts_with(&['<', '!', '-', '-']) {
@@ -452,11 +437,6 @@ fn find_span_end(
                 (start + 4..=end)
                     .find(|&at| chars[at..].starts_with(&['-', '-', '>']))
                     .map(|at| at + 3)
-            } else if chars[..start].ends_with(&[']', '(']) {
-                // A link destination with spaces in it
-                (start + 1..chars.len())
-                    .find(|&at| chars[at] == '>' && chars[at - 1] != '\\')
-                    .map(|at| at + 1)
             } else if next.is_ascii_alphabetic() || matches!(next, '/' | '!' | '?') {
                 let end = last_tag_end.filter(|&end| end >= start + 2)?;
                 (start + 2..=end)
@@ -470,6 +450,25 @@ fn find_span_end(
     }
 }
 
+/// The index after the parentheses at `start` if they hold a link destination that may contain
+/// spaces, a title, or both.
+fn link_target_end(chars: &[char], start: usize) -> Option<usize> {
+    let closing = |from: usize, mark: char| {
+        (from..chars.len()).find(|&at| chars[at] == mark && chars[at - 1] != '\\')
+    };
+    let destination_end = if chars.get(start + 1) == Some(&'<') {
+        closing(start + 2, '>')? + 1
+    } else {
+        (start + 1..chars.len()).find(|&at| chars[at] == ' ')?
+    };
+    let end = if chars[destination_end..].starts_with(&[' ', '"']) {
+        closing(destination_end + 2, '"')? + 1
+    } else {
+        destination_end
+    };
+    (chars.get(end) == Some(&')')).then_some(end + 1)
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
-- 
2.43.0


From 8ab7e5961b6ef1a1c8c258b669f1efb80097f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 037/100] fix: keep headings whose text would start another
 block

---
 src/serializer/document.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b4b9079..7376242 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -1,6 +1,7 @@
 //! Document-level serialization logic.
 
 use comrak::nodes::{AstNode, NodeValue};
+use comrak::{Arena, Options as ComrakOptions, parse_document};
 use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
@@ -8,6 +9,22 @@ use super::Serializer;
 use super::state::{Directive, FormatSkipMode};
 use super::wrap;
 
+/// Whether `text` with a line of `mark` under it is a heading, rather than, say, a list item
+/// (`1. Introduction`) or a block quote.
+fn reads_as_setext_heading(text: &str, mark: &str) -> bool {
+    let mut options = ComrakOptions::default();
+    options.extension.table = true;
+    options.extension.description_lists = true;
+    options.extension.footnotes = true;
+    let arena = Arena::new();
+    let source = format!("{}\n{}\n", text, mark.repeat(text.width()));
+    let root = parse_document(&arena, &source, &options);
+    root.first_child().is_some_and(|child| {
+        matches!(&child.data.borrow().value, NodeValue::Heading(heading) if heading.setext)
+            && child.next_sibling().is_none()
+    })
+}
+
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         self.collect_reference_targets(node);
@@ -453,23 +470,36 @@ impl<'a> Serializer<'a> {
             // An empty heading has nothing to underline, so it is always ATX-style
             self.output.push_str(&"#".repeat(level as usize));
             self.output.push('\n');
-        } else if level == 1 && self.options.setext_h1 {
+        } else if level == 1
+            && self.options.setext_h1
+            && reads_as_setext_heading(&heading_text, "=")
+        {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
             self.output.push_str(&"=".repeat(heading_text.width()));
             self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
+        } else if level == 2
+            && self.options.setext_h2
+            && reads_as_setext_heading(&heading_text, "-")
+        {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
             self.output.push_str(&"-".repeat(heading_text.width()));
             self.output.push('\n');
         } else {
-            // ATX-style for level 3+ or when setext is disabled
+            // ATX-style for level 3+, when setext is disabled, or when the text would start
+            // another kind of block
             self.output.push_str(&"#".repeat(level as usize));
             self.output.push(' ');
-            self.output.push_str(&heading_text);
+            let text = heading_text.trim_end_matches('#');
+            self.output.push_str(text);
+            if text.len() < heading_text.len() && (text.is_empty() || text.ends_with(' ')) {
+                // Without a backslash these would be a closing sequence
+                self.output.push('\\');
+            }
+            self.output.push_str(&heading_text[text.len()..]);
             self.output.push('\n');
         }
     }
-- 
2.43.0


From 7a29c0ded6fc9d389662c056641319cf00d42f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 038/100] fix: keep escapes and entities next to typographic
 punctuation

---
 src/serializer/inline.rs | 49 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 5f53c44..7f48287 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use crate::DashSetting;
 
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
@@ -44,7 +45,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -137,7 +138,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -306,7 +307,7 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
+    fn escape_text_preserving_source(&self, text: &str, source: &str) -> String {
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -318,7 +319,14 @@ impl<'a> Serializer<'a> {
             let text_char = text_chars[text_idx];
             let source_char = source_chars[source_idx];
 
-            if source_char == '\\' && source_idx + 1 < source_chars.len() {
+            if let Some(replaced_len) =
+                self.replaced_source_len(text_char, &source_chars[source_idx..])
+            {
+                // Typographic punctuation stands for what the source has here
+                result.push(text_char);
+                text_idx += 1;
+                source_idx += replaced_len;
+            } else if source_char == '\\' && source_idx + 1 < source_chars.len() {
                 if text_char == '\\' {
                     // Both source and text have a backslash
                     // Check if source has an escaped backslash (\\)
@@ -396,6 +404,39 @@ impl<'a> Serializer<'a> {
         result
     }
 
+    /// If `text_char` is typographic punctuation that replaces the characters at the start of
+    /// `source`, return how many characters of `source` it replaces.
+    fn replaced_source_len(&self, text_char: char, source: &[char]) -> Option<usize> {
+        let dash = |setting: &'a DashSetting| match setting {
+            DashSetting::Pattern(pattern) => Some(pattern.as_str()),
+            DashSetting::Disabled => None,
+        };
+        let original = match text_char {
+            '\u{201C}' | '\u{201D}' => "\"",
+            '\u{2018}' | '\u{2019}' => "'",
+            '\u{2026}' => "...",
+            '\u{2014}' => dash(&self.options.em_dash)?,
+            '\u{2013}' => dash(&self.options.en_dash)?,
+            _ => return None,
+        };
+        let mut len = 0;
+        for ch in original.chars() {
+            // Each character may be written as it is, escaped, or as an entity
+            if source.get(len) == Some(&ch) {
+                len += 1;
+            } else if source.get(len) == Some(&'\\') && source.get(len + 1) == Some(&ch) {
+                len += 2;
+            } else {
+                let (entity, decoded) = Self::try_parse_html_entity(source, len)?;
+                if decoded != ch {
+                    return None;
+                }
+                len += entity.len();
+            }
+        }
+        Some(len)
+    }
+
     /// Try to parse an HTML entity starting at the given position.
     /// Returns the entity string and the decoded character if successful.
     fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
-- 
2.43.0


From 1d5ac613a86b49f55f7aba218c3b6e434bb88827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 039/100] fix: fence code in description details longer than
 any fence in it

---
 src/serializer/code.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 2990118..f581498 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -77,10 +77,8 @@ impl<'a> Serializer<'a> {
 
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
+        let min_fence_length = self.options.min_fence_length.get();
         let fence_char = self.options.fence_char.as_char();
-        let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,25 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // Find the longest sequence of fence characters in the content
+        let max_fence_in_content = literal
+            .lines()
+            .filter_map(|line| {
+                let trimmed = line.trim_start();
+                if trimmed.starts_with(fence_char) {
+                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
+                } else {
+                    None
+                }
+            })
+            .max()
+            .unwrap_or(0);
+
+        // Fence length must be greater than any fence sequence in content
+        let fence_length = std::cmp::max(min_fence_length, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -133,7 +144,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From b7136a1a786bfb8e169a4e1841c530ca6dfc157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 040/100] fix: do not add a blank line to formatted code in
 description details

---
 src/serializer/code.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index f581498..f474562 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -139,10 +139,6 @@ impl<'a> Serializer<'a> {
             }
             self.output.push('\n');
         }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
-- 
2.43.0


From 2aac24968e8937beb619d92ca773b67d432985db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 041/100] fix: use tildes for code whose info string has
 backticks

---
 src/serializer/code.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index f474562..74e6371 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -75,10 +75,20 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// The character to fence a code block with: the configured one, but an info string with
+    /// backticks in it can only follow a fence of tildes.
+    fn fence_char(&self, info: &str) -> char {
+        if info.contains('`') {
+            '~'
+        } else {
+            self.options.fence_char.as_char()
+        }
+    }
+
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char(&code.info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -147,7 +157,7 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -231,7 +241,7 @@ impl<'a> Serializer<'a> {
     ) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
-- 
2.43.0


From 32a8f96a26b328da5a63af2333e578a5af3cdb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 042/100] fix: write only absolute URLs as autolinks

---
 src/serializer/inline.rs |  3 +--
 src/serializer/link.rs   | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 7f48287..27eecac 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -190,8 +190,7 @@ impl<'a> Serializer<'a> {
                     .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
                 // Check if this is an autolink (link text equals URL)
-                let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = self.is_autolink(node, &link.url, &link.title);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index b3b5f3e..72ad7ec 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -62,6 +62,25 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether a link can be written as an autolink (`<url>`): its text is its URL, and its URL
+    /// is absolute (anything else between angle brackets would be an HTML tag or plain text).
+    pub(super) fn is_autolink<'b>(&self, node: &'b AstNode<'b>, url: &str, title: &str) -> bool {
+        let is_absolute = url.split_once(':').is_some_and(|(scheme, _)| {
+            (2..=32).contains(&scheme.len())
+                && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+                && scheme
+                    .chars()
+                    .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
+        });
+        title.is_empty()
+            && is_absolute
+            && !url.contains(|c: char| c.is_whitespace() || matches!(c, '<' | '>'))
+            && node
+                .children()
+                .all(|child| matches!(child.data.borrow().value, NodeValue::Text(_)))
+            && self.collect_raw_text(node) == url
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -179,8 +198,7 @@ impl<'a> Serializer<'a> {
             .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
         // Check if this is an autolink (link text equals URL)
-        let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = self.is_autolink(node, url, title);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
-- 
2.43.0


From 8d566d0efd1172087fe3f307475872541b9c1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 043/100] fix: keep the titles of alerts

---
 src/serializer/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index f498eb8..89984e5 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -140,7 +140,14 @@ impl<'a> Serializer<'a> {
         self.output.push_str(&self.list_item_indent);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        self.output.push(']');
+        if let NodeValue::Alert(alert) = &node.data.borrow().value
+            && let Some(title) = &alert.title
+        {
+            self.output.push(' ');
+            self.output.push_str(title);
+        }
+        self.output.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
-- 
2.43.0


From 7a9aa6a744fdea08d155a0ad3aa4fe3af56b20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 044/100] fix: keep the blank lines between HTML blocks that
 end a document

---
 src/serializer/document.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 7376242..ac93f63 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -287,23 +287,19 @@ impl<'a> Serializer<'a> {
         children: &[&'b AstNode<'b>],
         start_index: usize,
     ) {
-        let mut is_first = true;
         for (i, child) in children.iter().enumerate() {
             if i < start_index {
                 continue;
             }
 
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
-                // Add a blank line before the first trailing HTML block
-                if is_first {
-                    if !self.output.ends_with("\n\n") {
-                        if self.output.ends_with('\n') {
-                            self.output.push('\n');
-                        } else {
-                            self.output.push_str("\n\n");
-                        }
-                    }
-                    is_first = false;
+                // Add a blank line before each trailing HTML block, unless it directly
+                // follows another one
+                let follows_directly = i > start_index
+                    && children[i - 1].data.borrow().sourcepos.end.line + 1
+                        == child.data.borrow().sourcepos.start.line;
+                if !follows_directly && !self.output.is_empty() {
+                    self.ensure_blank_line();
                 }
                 self.output.push_str(&html_block.literal);
             }
-- 
2.43.0


From eb8947d2bac67a8e4a972df94defa26c4c16efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 045/100] fix: separate the items of a list whose items hold
 separated blocks

---
 src/serializer/list.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index a8b2bdd..17319d6 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -47,8 +47,15 @@ impl<'a> Serializer<'a> {
         let old_index = self.list_item_index;
         let old_max_items = self.ordered_list_max_items;
 
+        // Blocks other than nested lists get a blank line before them, which makes the list loose
+        let has_separated_blocks = node.children().any(|item| {
+            item.children()
+                .skip(1)
+                .any(|block| !matches!(block.data.borrow().value, NodeValue::List(_)))
+        });
+
         self.list_type = Some(list_type);
-        self.list_tight = tight;
+        self.list_tight = tight && !has_separated_blocks;
         self.list_item_index = 0;
         self.list_depth += 1;
 
-- 
2.43.0


From 1f4ebcf3b45bc89da12efc6a2521a758c78a1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 046/100] fix: do not take a link around an image for a
 shortcut reference

---
 src/serializer/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c289b66..38f53c0 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -173,10 +173,16 @@ impl<'a> Serializer<'a> {
 
                 return Some((text, final_label));
             }
+            // The position of the link is wrong if its label does not end in it
+            return None;
         }
 
         // Shortcut reference: just [text] with nothing following
-        // or followed by something that's not ( or [
+        // or followed by something that's not ( or [ (a label holds no brackets, so that a
+        // link around an image is none: its label must have got lost)
+        if source.starts_with("[![") {
+            return None;
+        }
         Some((text.clone(), text))
     }
 
-- 
2.43.0


From 647fcaed3aa13545db8ca9cfca8e1d8390848ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 047/100] fix: end an HTML block with a newline where the
 source has none

---
 src/serializer/document.rs | 23 ++++++++++++++++-------
 src/serializer/mod.rs      |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ac93f63..4ca2f29 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -100,7 +100,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                     Directive::DisableNextSection => {
@@ -116,7 +116,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                     Directive::Disable => {
@@ -132,7 +132,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                     Directive::Enable => {
@@ -141,7 +141,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                     Directive::ProperNouns(nouns) => {
@@ -151,7 +151,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                     Directive::CommonNouns(nouns) => {
@@ -161,7 +161,7 @@ impl<'a> Serializer<'a> {
                         if i > 0 {
                             self.output.push('\n');
                         }
-                        self.output.push_str(&html_block.literal);
+                        self.push_html_block(&html_block.literal);
                         continue;
                     }
                 }
@@ -281,6 +281,15 @@ impl<'a> Serializer<'a> {
         trailing_start
     }
 
+    /// Output an HTML block as is, ending its last line even where the source
+    /// ends without a newline.
+    pub(super) fn push_html_block(&mut self, literal: &str) {
+        self.output.push_str(literal);
+        if !literal.ends_with('\n') {
+            self.output.push('\n');
+        }
+    }
+
     /// Output trailing HTML blocks that were deferred until after references.
     fn output_trailing_html_blocks<'b>(
         &mut self,
@@ -301,7 +310,7 @@ impl<'a> Serializer<'a> {
                 if !follows_directly && !self.output.is_empty() {
                     self.ensure_blank_line();
                 }
-                self.output.push_str(&html_block.literal);
+                self.push_html_block(&html_block.literal);
             }
         }
     }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 38f53c0..9bbc5d4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -531,7 +531,7 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::HtmlBlock(html_block) => {
                 // Preserve HTML blocks (like comments) as-is
-                self.output.push_str(&html_block.literal);
+                self.push_html_block(&html_block.literal);
             }
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is
-- 
2.43.0


From 6275ac1cae480704e7998977e31dfee702e760e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 048/100] fix: do not panic on a source range that ends before
 it starts

---
 src/serializer/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index bbf067b..9ad7c8d 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -221,7 +221,8 @@ fn safe_str_slice(s: &str, start: usize, end: usize) -> &str {
             .unwrap_or(s.len())
     };
 
-    &s[safe_start..safe_end]
+    // Positions reported by the parser may be the wrong way round
+    s.get(safe_start..safe_end).unwrap_or("")
 }
 
 /// Code formatter callback type for WASM builds.
-- 
2.43.0


From c6b16c70d4c50fa4290b5ef52e65f88b7ff51047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 049/100] fix: separate front matter and disable-file
 directives by exactly one blank line

---
 src/serializer/document.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 4ca2f29..c443439 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -75,6 +75,9 @@ impl<'a> Serializer<'a> {
                         self.flush_footnote_references_before(Some(directive_line));
 
                         // Output the directive comment, then output remaining content as-is
+                        if i > 0 {
+                            self.output.push('\n');
+                        }
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
                         let directive_end_line = child.data.borrow().sourcepos.end.line;
@@ -192,7 +195,8 @@ impl<'a> Serializer<'a> {
                     NodeValue::FrontMatter(_)
                 );
                 if prev_is_front_matter {
-                    // No extra blank line needed after front matter
+                    // Just one blank line after front matter
+                    self.output.push('\n');
                 } else if is_h2 {
                     // Check if previous element was a heading (empty section)
                     let prev_is_heading =
@@ -585,9 +589,10 @@ impl<'a> Serializer<'a> {
 
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
         // Front matter content from comrak includes the delimiters,
-        // so we preserve it verbatim and add a trailing blank line
+        // so we preserve it verbatim. The blank line after it is added by the
+        // block that follows, if there is one.
         self.output.push_str(content.trim());
-        self.output.push_str("\n\n");
+        self.output.push('\n');
     }
 
     /// Recursively collect footnote reference lines from the AST.
-- 
2.43.0


From 1817bd1907375d3420d9f11a40aa9aa6819eba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 050/100] fix: keep the final newline after a disable-file
 directive that ends the document

---
 src/serializer/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index c443439..a94e9e8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -87,6 +87,8 @@ impl<'a> Serializer<'a> {
                         {
                             self.output.push('\n');
                             self.output.push_str(&remaining);
+                        } else if self.source_ends_with_newline {
+                            self.output.push('\n');
                         }
                         return;
                     }
-- 
2.43.0


From c4bd39dda67b2a255a371e9973a4789375d9361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 051/100] fix: keep quote prefixes and indentation of
 abbreviation definitions in quotes and lists

---
 src/serializer/document.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a94e9e8..f270f69 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -25,6 +25,20 @@ fn reads_as_setext_heading(text: &str, mark: &str) -> bool {
     })
 }
 
+/// The lines of a paragraph of abbreviation definitions, which stay as they are, with
+/// `prefix` before each line but the first.
+fn abbreviation_lines(content: &str, prefix: &str) -> String {
+    content
+        .trim()
+        .split('\x00')
+        .map(|line| match line.strip_prefix("\\*[") {
+            Some(rest) => format!("*[{rest}"),
+            None => line.to_string(),
+        })
+        .collect::<Vec<_>>()
+        .join(&format!("\n{prefix}"))
+}
+
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         self.collect_reference_targets(node);
@@ -518,9 +532,11 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_paragraph<'b>(&mut self, node: &'b AstNode<'b>) {
         // Check if this is a PHP Markdown Extra abbreviation definition (*[abbr]: ...)
         // These are not parsed by comrak, so we preserve them as-is
+        let mut is_abbreviation = false;
         if let Some(source) = self.extract_source(node) {
             let trimmed = source.trim();
-            if trimmed.starts_with("*[") && trimmed.contains("]:") {
+            is_abbreviation = trimmed.starts_with("*[") && trimmed.contains("]:");
+            if is_abbreviation && self.list_type.is_none() && !self.in_block_quote {
                 self.output.push_str(trimmed);
                 self.output.push('\n');
                 return;
@@ -569,6 +585,11 @@ impl<'a> Serializer<'a> {
             } else {
                 base_indent
             };
+            if is_abbreviation {
+                let lines = abbreviation_lines(&inline_content, &continuation);
+                self.output.push_str(&lines);
+                return;
+            }
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim(),
                 "",
@@ -583,6 +604,13 @@ impl<'a> Serializer<'a> {
             } else {
                 String::new()
             };
+            if is_abbreviation {
+                let lines = abbreviation_lines(&inline_content, &prefix);
+                self.output.push_str(&prefix);
+                self.output.push_str(&lines);
+                self.output.push('\n');
+                return;
+            }
             let wrapped = wrap::wrap_text(&inline_content, &prefix, self.options.line_width.get());
             self.output.push_str(&wrapped);
             self.output.push('\n');
-- 
2.43.0


From ea1c908c8658d8c5ba79886b13e762d33fe41479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 052/100] fix: do not warn about abbreviations defined in
 quotes and lists

---
 src/serializer/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f270f69..bf56e9b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -768,7 +768,7 @@ impl<'a> Serializer<'a> {
     /// Returns a set of abbreviation names (e.g., "HTML" from "*[HTML]: Hyper Text Markup Language").
     fn collect_abbreviations(source_lines: &[&str]) -> std::collections::HashSet<String> {
         let mut abbreviations = std::collections::HashSet::new();
-        let abbr_pattern = Regex::new(r"^\*\[([^\]]+)\]:").unwrap();
+        let abbr_pattern = Regex::new(r"^(?:[ \t>]|[-+*][ \t]|\d+[.)][ \t])*\*\[([^\]]+)\]:").unwrap();
 
         for line in source_lines {
             if let Some(caps) = abbr_pattern.captures(line)
-- 
2.43.0


From 89d3d9ebca0da46fd8e4c4f7a4d177474277379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 053/100] fix: replace NUL characters as CommonMark requires

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..dfdb171 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
+    let input = &replace_nul(input);
     let root = parse_document(&arena, input, &comrak_options);
     let output = serializer::serialize_with_source(root, options, Some(input));
 
@@ -263,6 +264,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
+    let input = &replace_nul(input);
     let root = parse_document(&arena, input, &comrak_options);
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
@@ -272,6 +274,15 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     })
 }
 
+/// Replaces the NUL character as CommonMark requires, since the serializer uses it internally.
+fn replace_nul(input: &str) -> std::borrow::Cow<'_, str> {
+    if input.contains('\0') {
+        input.replace('\0', "\u{fffd}").into()
+    } else {
+        input.into()
+    }
+}
+
 /// Errors that can occur during formatting.
 #[derive(Debug)]
 pub enum FormatError {
-- 
2.43.0


From 511d81f8ab5199f059d76a01420bc208b5c503ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 054/100] fix: keep blanks of reference link text, and drop
 quote marks inside it

---
 src/serializer/escape.rs | 20 ++++++++++++++++++++
 src/serializer/mod.rs    | 11 ++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 8273db1..08dfec4 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -5,6 +5,26 @@ pub fn normalize_whitespace(text: &str) -> String {
     text.split_whitespace().collect::<Vec<_>>().join(" ")
 }
 
+/// Join the lines of a source text in `quotes` block quotes with single spaces, leaving every
+/// other blank as it is.
+pub fn join_lines(text: &str, quotes: usize) -> String {
+    let mut lines = text.lines();
+    let mut result = lines.next().unwrap_or_default().to_string();
+    for line in lines {
+        let mut line = line.trim_start_matches([' ', '\t']);
+        for _ in 0..quotes {
+            match line.strip_prefix('>') {
+                Some(rest) => line = rest.trim_start_matches([' ', '\t']),
+                None => break,
+            }
+        }
+        result.truncate(result.trim_end_matches([' ', '\t']).len());
+        result.push(' ');
+        result.push_str(line);
+    }
+    result
+}
+
 /// Escape special Markdown characters in text content.
 /// Characters that could be misinterpreted as Markdown syntax need escaping.
 pub fn escape_text(text: &str) -> String {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 9bbc5d4..a3a91f2 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -140,7 +140,16 @@ impl<'a> Serializer<'a> {
         let text: String = chars[1..text_end_pos].iter().collect();
 
         // Normalize newlines to spaces in the text (for idempotency when text spans lines)
-        let text = escape::normalize_whitespace(&text);
+        let quotes = node
+            .ancestors()
+            .filter(|ancestor| {
+                matches!(
+                    ancestor.data.borrow().value,
+                    NodeValue::BlockQuote | NodeValue::Alert(_)
+                )
+            })
+            .count();
+        let text = escape::join_lines(&text, quotes);
 
         // If followed by "(", it's inline style
         if after_close.starts_with('(') {
-- 
2.43.0


From d6fde690570c48c44c56f21d2348424cb2e7e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 055/100] fix: escape what would start a block after a hard
 line break

---
 src/serializer/inline.rs | 15 ++++++++++++---
 src/serializer/wrap.rs   | 11 +++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 27eecac..4aae1ea 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use super::wrap;
 use crate::DashSetting;
 
 impl<'a> Serializer<'a> {
@@ -137,10 +138,18 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
+                let escaped = if let Some(source) = self.extract_text_source(node) {
+                    self.escape_text_preserving_source(&transformed, &source)
+                } else {
+                    escape::escape_text(&transformed)
+                };
+
+                // After a hard line break, the text starts a line (its indentation, which could
+                // have kept it from starting a block, is not preserved)
+                if content.ends_with('\n') {
+                    content.push_str(&wrap::escape_block_start(&escaped));
                 } else {
-                    content.push_str(&escape::escape_text(&transformed));
+                    content.push_str(&escaped);
                 }
             }
             NodeValue::SoftBreak => {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 117332d..acd4806 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -388,6 +388,17 @@ fn would_start_block(text: &[char]) -> bool {
         || starts_html_block(&word)
 }
 
+/// Escape what would start a block if `text` stood at the start of a line.
+pub fn escape_block_start(text: &str) -> String {
+    let chars: Vec<char> = text.chars().collect();
+    if chars.first().is_none_or(|ch| ch.is_whitespace()) || !would_start_block(&chars) {
+        return text.to_string();
+    }
+    let marker = text.find(|ch: char| !ch.is_ascii_digit());
+    let (number, rest) = text.split_at(marker.unwrap_or(0));
+    format!("{number}\\{rest}")
+}
+
 /// HTML elements whose tags start an HTML block even right after a line of a paragraph.
 const HTML_BLOCK_ELEMENTS: &str = "address article aside base basefont blockquote body caption \
     center col colgroup dd details dialog dir div dl dt fieldset figcaption figure footer form \
-- 
2.43.0


From b678d7d52531995ea1147f2aac70143ac51b7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 056/100] fix: keep the definitions that blocks output as is
 refer to

---
 src/serializer/document.rs | 40 +++++++++++++++++++++++++++++---------
 src/serializer/mod.rs      |  2 +-
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index bf56e9b..35a864d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -84,21 +84,23 @@ impl<'a> Serializer<'a> {
                         // Flush pending footnotes and references BEFORE the disable-file directive.
                         // Definitions that appear before the directive should stay before it.
                         let directive_line = child.data.borrow().sourcepos.start.line;
+                        // Get the line after the directive block ends
+                        let directive_end_line = child.data.borrow().sourcepos.end.line;
+                        // Extract everything from the next line to the end of file
+                        let remaining = self.extract_source_from_line(directive_end_line + 1);
+                        for rest in &children[i + 1..] {
+                            self.keep_references(rest, remaining.as_deref().unwrap_or_default());
+                        }
                         self.flush_footnotes_before(Some(directive_line));
                         self.flush_references();
                         self.flush_footnote_references_before(Some(directive_line));
 
                         // Output the directive comment, then output remaining content as-is
-                        if i > 0 {
+                        if !self.output.is_empty() {
                             self.output.push('\n');
                         }
                         self.output.push_str(html_block.literal.trim_end());
-                        // Get the line after the directive block ends
-                        let directive_end_line = child.data.borrow().sourcepos.end.line;
-                        // Extract everything from the next line to the end of file
-                        if let Some(remaining) =
-                            self.extract_source_from_line(directive_end_line + 1)
-                        {
+                        if let Some(remaining) = remaining {
                             self.output.push('\n');
                             self.output.push_str(&remaining);
                         } else if self.source_ends_with_newline {
@@ -195,7 +197,9 @@ impl<'a> Serializer<'a> {
             let is_h2 = heading_level == Some(2);
             let is_h2_or_h3 = matches!(heading_level, Some(2) | Some(3));
 
-            if is_h2_or_h3 && i > 0 {
+            // A heading in a region that is output as is starts no section
+            let ends_region = self.skip_mode == FormatSkipMode::UntilSection && is_h2;
+            if is_h2_or_h3 && i > 0 && (!self.should_skip_formatting() || ends_region) {
                 // Get the source line of the heading to flush only earlier footnotes
                 let heading_line = child.data.borrow().sourcepos.start.line;
                 // Footnotes come before link reference definitions
@@ -250,6 +254,7 @@ impl<'a> Serializer<'a> {
 
                 // Output the original source
                 if let Some(source) = self.extract_source(child) {
+                    self.keep_references(child, "");
                     self.output.push_str(&source);
                     self.output.push('\n');
                 } else {
@@ -270,6 +275,22 @@ impl<'a> Serializer<'a> {
         self.output_trailing_html_blocks(&children, trailing_html_start);
     }
 
+    /// Keep the definitions of the references in a block that is output as is, unless
+    /// `source`, output after it, holds them.
+    fn keep_references<'b>(&mut self, block: &'b AstNode<'b>, source: &str) {
+        let source = source.to_lowercase();
+        for node in block.descendants() {
+            if let NodeValue::Link(link) | NodeValue::Image(link) = &node.data.borrow().value
+                && let Some((_, label)) = self.get_reference_style_info(node)
+            {
+                let label = label.trim_start_matches('\x01');
+                if !source.contains(&format!("[{}]:", label.to_lowercase())) {
+                    self.add_reference(label.to_string(), link.url.clone(), link.title.clone());
+                }
+            }
+        }
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
@@ -768,7 +789,8 @@ impl<'a> Serializer<'a> {
     /// Returns a set of abbreviation names (e.g., "HTML" from "*[HTML]: Hyper Text Markup Language").
     fn collect_abbreviations(source_lines: &[&str]) -> std::collections::HashSet<String> {
         let mut abbreviations = std::collections::HashSet::new();
-        let abbr_pattern = Regex::new(r"^(?:[ \t>]|[-+*][ \t]|\d+[.)][ \t])*\*\[([^\]]+)\]:").unwrap();
+        let abbr_pattern =
+            Regex::new(r"^(?:[ \t>]|[-+*][ \t]|\d+[.)][ \t])*\*\[([^\]]+)\]:").unwrap();
 
         for line in source_lines {
             if let Some(caps) = abbr_pattern.captures(line)
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index a3a91f2..31c2a56 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -212,7 +212,7 @@ impl<'a> Serializer<'a> {
     /// Ensure output ends with a blank line (two newlines).
     /// Used before emitting reference definitions and footnotes.
     fn ensure_blank_line(&mut self) {
-        if !self.output.ends_with("\n\n") {
+        if !self.output.is_empty() && !self.output.ends_with("\n\n") {
             if self.output.ends_with('\n') {
                 self.output.push('\n');
             } else {
-- 
2.43.0


From 5c74a33eb4dd45ca822faedb1e9348a83de4e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 057/100] fix: output disabled blocks with the indentation of
 their first line

---
 src/serializer/document.rs |  2 +-
 src/serializer/state.rs    | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 35a864d..7ff80c8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -253,7 +253,7 @@ impl<'a> Serializer<'a> {
                 }
 
                 // Output the original source
-                if let Some(source) = self.extract_source(child) {
+                if let Some(source) = self.extract_source_lines(child) {
                     self.keep_references(child, "");
                     self.output.push_str(&source);
                     self.output.push('\n');
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 9ad7c8d..b123588 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -420,6 +420,16 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Extract the source lines of a top-level block, with all their blanks.
+    pub fn extract_source_lines<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let sourcepos = node.data.borrow().sourcepos;
+        let start = sourcepos.start.line.checked_sub(1)?;
+        let lines = self.source_lines.get(start..sourcepos.end.line)?;
+        // The position of some blocks includes the blank lines after them
+        let end = lines.iter().rposition(|line| !line.trim().is_empty())?;
+        Some(lines[..=end].join("\n"))
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From 25b6c97940abc9bfb89aab3bb20fe74e970ad377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 058/100] fix: keep references of footnotes before a
 disable-file directive where they are

---
 src/serializer/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 7ff80c8..b4339b3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -89,7 +89,11 @@ impl<'a> Serializer<'a> {
                         // Extract everything from the next line to the end of file
                         let remaining = self.extract_source_from_line(directive_end_line + 1);
                         for rest in &children[i + 1..] {
-                            self.keep_references(rest, remaining.as_deref().unwrap_or_default());
+                            // Footnotes come last, wherever they are defined
+                            if rest.data.borrow().sourcepos.start.line > directive_end_line {
+                                let source = remaining.as_deref().unwrap_or_default();
+                                self.keep_references(rest, source);
+                            }
                         }
                         self.flush_footnotes_before(Some(directive_line));
                         self.flush_references();
-- 
2.43.0


From 5532e9d29aa073ebffe875976847da261022b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 059/100] fix: output all lines of disabled lists that end with
 indented code

---
 src/serializer/state.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index b123588..c40b0e3 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -424,7 +424,18 @@ impl<'a> Serializer<'a> {
     pub fn extract_source_lines<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
         let sourcepos = node.data.borrow().sourcepos;
         let start = sourcepos.start.line.checked_sub(1)?;
-        let lines = self.source_lines.get(start..sourcepos.end.line)?;
+        // The position of a container ends too early if indented code ends it
+        let code_ends = node.descendants().filter_map(|descendant| {
+            let data = descendant.data.borrow();
+            match &data.value {
+                NodeValue::CodeBlock(code) if !code.fenced => {
+                    Some(data.sourcepos.start.line + code.literal.lines().count() - 1)
+                }
+                _ => None,
+            }
+        });
+        let end = code_ends.fold(sourcepos.end.line, usize::max);
+        let lines = self.source_lines.get(start..end)?;
         // The position of some blocks includes the blank lines after them
         let end = lines.iter().rposition(|line| !line.trim().is_empty())?;
         Some(lines[..=end].join("\n"))
-- 
2.43.0


From 588e068aea55e8fbb42df3d23096be90fd07752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 060/100] fix: output all lines of disabled lists that end with
 HTML

---
 src/serializer/state.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index c40b0e3..d68e837 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -424,17 +424,17 @@ impl<'a> Serializer<'a> {
     pub fn extract_source_lines<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
         let sourcepos = node.data.borrow().sourcepos;
         let start = sourcepos.start.line.checked_sub(1)?;
-        // The position of a container ends too early if indented code ends it
-        let code_ends = node.descendants().filter_map(|descendant| {
+        // The position of a container ends too early if indented code or HTML ends it
+        let literal_ends = node.descendants().filter_map(|descendant| {
             let data = descendant.data.borrow();
-            match &data.value {
-                NodeValue::CodeBlock(code) if !code.fenced => {
-                    Some(data.sourcepos.start.line + code.literal.lines().count() - 1)
-                }
-                _ => None,
-            }
+            let literal = match &data.value {
+                NodeValue::CodeBlock(code) if !code.fenced => &code.literal,
+                NodeValue::HtmlBlock(html) => &html.literal,
+                _ => return None,
+            };
+            Some(data.sourcepos.start.line + literal.lines().count() - 1)
         });
-        let end = code_ends.fold(sourcepos.end.line, usize::max);
+        let end = literal_ends.fold(sourcepos.end.line, usize::max);
         let lines = self.source_lines.get(start..end)?;
         // The position of some blocks includes the blank lines after them
         let end = lines.iter().rposition(|line| !line.trim().is_empty())?;
-- 
2.43.0


From 6d05a4341aaabd035aad79ccdde1ce809eabda72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 061/100] fix: place references of several footnotes in the
 section of the first

---
 src/serializer/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index d68e837..b4d9cf6 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -181,8 +181,11 @@ impl FootnoteSet {
 
     /// Add a reference link found within footnote content.
     pub fn add_reference(&mut self, label: String, reference: ReferenceLink) {
+        // The first footnote to use a reference determines its section
+        let line = self.current_reference_line;
         self.pending_references
-            .insert(label, (reference, self.current_reference_line));
+            .entry(label)
+            .or_insert((reference, line));
     }
 }
 
-- 
2.43.0


From 6eb472dffb7b372c497ed02f43c444dad3ac98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 062/100] fix: define labels that differ only in case or
 whitespace once

---
 src/serializer/mod.rs   | 17 ++++++++++++-----
 src/serializer/state.rs |  6 ++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 31c2a56..7fd26cb 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -232,7 +232,10 @@ impl<'a> Serializer<'a> {
         let refs: Vec<ReferenceLink> = self
             .pending_references
             .values()
-            .filter(|r| !self.emitted_references.contains(&r.label))
+            .filter(|r| {
+                let key = escape::normalize_label(&r.label);
+                !self.emitted_references.contains(&key)
+            })
             .cloned()
             .collect();
         self.pending_references.clear();
@@ -253,7 +256,8 @@ impl<'a> Serializer<'a> {
             // Less than 2 numeric refs: output all in insertion order
             for reference in &refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(escape::normalize_label(&reference.label));
             }
         } else {
             // 2+ numeric refs: separate, sort numeric ones, output regular first
@@ -274,13 +278,15 @@ impl<'a> Serializer<'a> {
             // Output regular references first (in insertion order)
             for reference in regular_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(escape::normalize_label(&reference.label));
             }
 
             // Output numeric references (sorted by number)
             for (_, reference) in numeric_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(escape::normalize_label(&reference.label));
             }
         }
     }
@@ -435,7 +441,8 @@ impl<'a> Serializer<'a> {
         // Output references in insertion order
         for reference in &to_emit {
             Self::write_reference(&mut self.output, reference);
-            self.emitted_references.insert(reference.label.clone());
+            self.emitted_references
+                .insert(escape::normalize_label(&reference.label));
         }
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index b4d9cf6..351c093 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -482,10 +482,12 @@ impl<'a> Serializer<'a> {
             url,
             title,
         };
+        // Labels that differ only in case or whitespace are one label
+        let key = super::escape::normalize_label(&label);
         if self.footnotes.collecting_content {
-            self.footnotes.add_reference(label, reference);
+            self.footnotes.add_reference(key, reference);
         } else {
-            self.pending_references.insert(label, reference);
+            self.pending_references.entry(key).or_insert(reference);
         }
     }
 
-- 
2.43.0


From 5e410fc549bedaaef9bc300af2da46357cc4c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 063/100] fix: judge table rows by the outer pipes they have

---
 src/serializer/table.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 41c28e8..ef3cdd3 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -148,29 +148,30 @@ impl<'a> Serializer<'a> {
             // Count unescaped pipe characters (column separators)
             let pipe_count = count_unescaped_pipes(line);
 
-            // A row with N columns has N+1 pipe characters (including leading and trailing)
-            // But some tables may omit leading/trailing pipes
-            // Expected: expected_cols + 1 pipes for a proper table row
-            // Allow expected_cols pipes if leading or trailing is omitted
-            let expected_pipes_full = expected_cols + 1;
-            let expected_pipes_min = expected_cols;
-
-            if pipe_count > expected_pipes_full {
+            // A row with N columns has N+1 pipe characters (including leading and trailing),
+            // but tables may omit leading/trailing pipes
+            let row = match line.get(sourcepos.start.column.saturating_sub(1)..) {
+                Some(row) if line_num == start_line => row,
+                _ => line,
+            };
+            let expected_pipes = (expected_cols + count_outer_pipes(row)).saturating_sub(1);
+
+            if pipe_count > expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected {} for {} columns; \
                          unescaped `|` in cell content? (table starts at line {})",
-                        pipe_count, expected_pipes_full, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
-            } else if pipe_count < expected_pipes_min {
+            } else if pipe_count < expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected at least {} for {} columns \
                          (table starts at line {})",
-                        pipe_count, expected_pipes_min, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
             }
@@ -221,3 +222,13 @@ fn count_unescaped_pipes(line: &str) -> usize {
 
     count
 }
+
+/// Count the pipes (none, one or two) that enclose a table row, which indentation and quote
+/// markers may precede.
+fn count_outer_pipes(row: &str) -> usize {
+    let row = row.trim_start_matches(|c: char| c.is_whitespace() || c == '>');
+    let leading = row.starts_with('|');
+    let row = row.trim_end();
+    let trailing = row.len() > 1 && row.ends_with('|') && !row.ends_with("\\|");
+    usize::from(leading) + usize::from(trailing)
+}
-- 
2.43.0


From 4fca032706a96776a9f1828dec5f3c9b0a8ded61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 064/100] fix: see words behind punctuation and markup in
 sentence case

---
 src/serializer/heading.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index f777091..220b4a2 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -764,6 +764,15 @@ fn process_word_simple(
         return word.to_string();
     }
 
+    // Punctuation and markup in front of the word (e.g., "(Deno", "**Deno**") are no part of it
+    if let Some(start) = word.find(|c: char| c.is_alphanumeric() || c == '@')
+        && start > 0
+    {
+        let (prefix, rest) = word.split_at(start);
+        let processed = process_word_simple(rest, is_first, user_proper_nouns, common_nouns);
+        return format!("{prefix}{processed}");
+    }
+
     // Check if all alphabetic characters are uppercase (intentional emphasis)
     let alphabetic_chars: Vec<char> = word.chars().filter(|c| c.is_alphabetic()).collect();
     if !alphabetic_chars.is_empty() && alphabetic_chars.iter().all(|c| c.is_uppercase()) {
-- 
2.43.0


From 2fe8fbe54a92a72539f8f17ade4a86513bc08109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 065/100] fix: do not capitalize the word after a quotation
 that opens a heading

---
 src/serializer/heading.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 220b4a2..25da523 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -42,6 +42,7 @@ pub fn to_sentence_case(
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
                 result.push_str(&processed);
+                is_first_word = false;
             }
             Token::Text(content) => {
                 let processed = process_text(
-- 
2.43.0


From d8dc0f558cb35ef32d8ac1b7bddc4cb2a609bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 066/100] fix: keep the capital of a word between two
 delimiters of a heading

---
 src/serializer/heading.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 25da523..05cc20f 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -616,9 +616,13 @@ fn process_text(
             // Including colon, semicolon, em dash (—), and en dash (–)
             if ch == ':' || ch == ';' || ch == '—' || ch == '–' {
                 if !current_word.is_empty() {
+                    // A word between two delimiters follows the first of them
+                    let should_capitalize = (word_count == 0 && *is_first_word)
+                        || (after_delimiter
+                            && current_word.chars().next().is_some_and(char::is_uppercase));
                     let processed = process_word(
                         &current_word,
-                        word_count == 0 && *is_first_word,
+                        should_capitalize,
                         user_proper_nouns,
                         common_nouns,
                     );
-- 
2.43.0


From 138f948939aaf2951b7f751ea2b254f82476a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 067/100] fix: leave character references of headings alone in
 sentence case

---
 src/serializer/heading.rs | 43 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 05cc20f..49394a4 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -558,6 +558,19 @@ fn restore_placeholders(text: &str, replacements: &[(String, String)]) -> String
     result
 }
 
+/// Length of the character reference (e.g., `&amp;`, `&#8212;`) that the text begins with.
+fn entity_len(text: &str) -> Option<usize> {
+    let name = &text.strip_prefix('&')?[..text.find(';')? - 1];
+    let valid = match name.strip_prefix('#') {
+        Some(number) => match number.strip_prefix(['x', 'X']) {
+            Some(hex) => !hex.is_empty() && hex.chars().all(|c| c.is_ascii_hexdigit()),
+            None => !number.is_empty() && number.chars().all(|c| c.is_ascii_digit()),
+        },
+        None => !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric()),
+    };
+    valid.then_some(name.len() + 2)
+}
+
 /// Process regular text with sentence case rules.
 fn process_text(
     text: &str,
@@ -578,7 +591,35 @@ fn process_text(
     let mut word_count = 0;
     let mut after_delimiter = false; // Track if we're after :, ;, or —
 
-    for ch in text_with_placeholders.chars() {
+    let mut entity_end = 0;
+
+    for (pos, ch) in text_with_placeholders.char_indices() {
+        if pos < entity_end {
+            result.push(ch);
+            continue;
+        }
+        if let Some(len) = entity_len(&text_with_placeholders[pos..]) {
+            // The name of a character reference has no case to change
+            if !current_word.is_empty() {
+                let should_capitalize = (word_count == 0 && *is_first_word)
+                    || (after_delimiter
+                        && current_word.chars().next().is_some_and(char::is_uppercase));
+                let processed = process_word(
+                    &current_word,
+                    should_capitalize,
+                    user_proper_nouns,
+                    common_nouns,
+                );
+                result.push_str(&processed);
+                current_word.clear();
+                word_count += 1;
+                *is_first_word = false;
+                after_delimiter = false;
+            }
+            result.push(ch);
+            entity_end = pos + len;
+            continue;
+        }
         if ch.is_whitespace() {
             if !current_word.is_empty() {
                 // Check if the current word starts with uppercase in original text
-- 
2.43.0


From dbe254735b7e4daaca2914e72aa23f9d10170707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 068/100] fix: take code spans of table cells from the source
 only where it has their content

---
 src/serializer/escape.rs | 7 +++++++
 src/serializer/inline.rs | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 08dfec4..16f84e0 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -156,6 +156,13 @@ pub fn is_valid_code_span(source: &str) -> bool {
     leading_backticks == trailing_backticks && leading_backticks <= source.len() / 2
 }
 
+/// Check if a string is a code span with the given content (escaped pipe characters stand for
+/// plain ones in tables).
+pub fn is_code_span_of(source: &str, literal: &str) -> bool {
+    let content = |text: &str| text.trim_matches(' ').replace("\\|", "|");
+    is_valid_code_span(source) && content(source.trim_matches('`')) == content(literal)
+}
+
 /// Normalize a reference label the way labels are matched.
 pub fn normalize_label(label: &str) -> String {
     normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 4aae1ea..87b83f4 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -58,7 +58,7 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if !source.contains('\n') && escape::is_code_span_of(&source, &code.literal) {
                         text.push_str(&source);
                     } else {
                         text.push_str(&escape::format_code_span(&code.literal));
@@ -183,7 +183,7 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if !source.contains('\n') && escape::is_code_span_of(&source, &code.literal) {
                         content.push_str(&source);
                     } else {
                         content.push_str(&escape::format_code_span(&code.literal));
-- 
2.43.0


From 943ba33abf4e487a8d5e5cba71b9dd58f43c4225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 069/100] fix: indent what is in an ordered item as far as its
 number needs

---
 src/serializer/block.rs |  4 ++++
 src/serializer/list.rs  | 49 ++++++++++++++++++-----------------------
 src/serializer/state.rs |  4 ++++
 3 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 89984e5..b0590d6 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -13,6 +13,7 @@ struct BlockquoteState {
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
+    old_list_extra_indent: usize,
     old_in_description_details: bool,
     /// What precedes the quote marker on each line (for separator lines).
     indent: String,
@@ -37,6 +38,7 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let old_list_extra_indent = std::mem::replace(&mut self.list_extra_indent, 0);
 
         BlockquoteState {
             was_in_block_quote,
@@ -46,6 +48,7 @@ impl<'a> Serializer<'a> {
             old_list_item_indent,
             old_list_type,
             old_list_depth,
+            old_list_extra_indent,
             old_in_description_details,
             indent,
         }
@@ -54,6 +57,7 @@ impl<'a> Serializer<'a> {
     /// Exit blockquote context: restore the saved state.
     fn exit_blockquote_context(&mut self, state: BlockquoteState) {
         self.list_depth = state.old_list_depth;
+        self.list_extra_indent = state.old_list_extra_indent;
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
         self.blockquote_outer_indent = state.old_blockquote_outer_indent;
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 17319d6..99099ad 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -22,8 +22,12 @@ impl<'a> Serializer<'a> {
             }
             Some(ListType::Ordered) => {
                 // Fixed width based on ordered_list_indent_width (default 4)
-                // e.g., "1.  " (4), "10. " (4), "100." (4, min 1 trailing space)
-                self.options.ordered_list_indent_width.get()
+                // e.g., "1.  " (4), "10. " (4), unless the number needs more ("100. ")
+                let number_width = self.list_item_index.to_string().len();
+                self.options
+                    .ordered_list_indent_width
+                    .get()
+                    .max(number_width + 2)
             }
             None => 0,
         }
@@ -120,16 +124,10 @@ impl<'a> Serializer<'a> {
             Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
             _ => self.options.indent_width.get(),
         };
-        if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
-            self.output.push_str(&indent);
-        } else {
-            self.output.push_str(desc_base_indent);
-        }
+        let level_indent =
+            indent_width * self.list_depth.saturating_sub(1) + self.list_extra_indent;
+        self.output.push_str(desc_base_indent);
+        self.output.push_str(&" ".repeat(level_indent));
 
         match self.list_type {
             Some(ListType::Bullet) => {
@@ -195,7 +193,7 @@ impl<'a> Serializer<'a> {
                 }
                 Some(ListType::Ordered) => {
                     // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
+                    marker_width
                 }
                 None => 0,
             }
@@ -204,23 +202,19 @@ impl<'a> Serializer<'a> {
         };
         let base_indent = if self.in_description_details {
             // Inside description details, add extra 5-space indent
-            format!(
-                "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width_for_indent)
-            )
-        } else if self.list_depth > 1 {
-            // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
+            " ".repeat(5 + level_indent + marker_width_for_indent)
         } else {
-            // Top-level list: just marker width
-            " ".repeat(marker_width)
+            // Outer indent (none at the top level) + marker width
+            " ".repeat(level_indent + marker_width)
         };
 
+        // What is nested in an item whose number is too wide for the indentation moves right
+        let old_list_extra_indent = self.list_extra_indent;
+        if matches!(self.list_type, Some(ListType::Ordered)) {
+            self.list_extra_indent +=
+                marker_width.saturating_sub(self.options.ordered_list_indent_width.get());
+        }
+
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
@@ -325,6 +319,7 @@ impl<'a> Serializer<'a> {
 
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
+        self.list_extra_indent = old_list_extra_indent;
 
         // Only add newline if the last child doesn't already end with one
         // (all blocks but paragraphs add their own newlines)
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 351c093..ebc4fb9 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -264,6 +264,8 @@ pub struct Serializer<'a> {
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
     pub list_depth: usize,
+    /// How far the numbers of the enclosing ordered items exceed the indentation width
+    pub list_extra_indent: usize,
     /// Current formatting skip mode
     pub skip_mode: FormatSkipMode,
     /// Whether we're inside a description details block (for indentation)
@@ -315,6 +317,7 @@ impl<'a> Serializer<'a> {
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
+            list_extra_indent: 0,
             skip_mode: FormatSkipMode::None,
             in_description_details: false,
             description_details_first_list: false,
@@ -353,6 +356,7 @@ impl<'a> Serializer<'a> {
             reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
+            list_extra_indent: 0,
             skip_mode: FormatSkipMode::None,
             in_description_details: false,
             description_details_first_list: false,
-- 
2.43.0


From dae10a9dcfa563723bb61e42a2ac1c60ea9f3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 070/100] fix: report directories that cannot be read

---
 src/main.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7347a45..3938c3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -125,6 +125,7 @@ fn main() -> ExitCode {
     let stdin_requested = args.stdin || args.files.iter().any(|f| f.to_str() == Some("-"));
 
     // Determine files to process
+    let mut unreadable = false;
     let files: Vec<PathBuf> = if args.files.is_empty() && !stdin_requested {
         // No files specified and stdin not requested, try to use include patterns from config
         if !config.include.is_empty() {
@@ -150,12 +151,12 @@ fn main() -> ExitCode {
             .filter(|f| f.to_str() != Some("-"))
             .cloned()
             .collect();
-        expand_paths(&filtered)
+        expand_paths(&filtered, &mut unreadable)
     } else {
-        expand_paths(&args.files)
+        expand_paths(&args.files, &mut unreadable)
     };
 
-    if stdin_requested {
+    let exit_code = if stdin_requested {
         // Read from stdin
         let mut input = String::new();
         if let Err(e) = io::stdin().read_to_string(&mut input) {
@@ -195,6 +196,12 @@ fn main() -> ExitCode {
     } else {
         // Sequential processing for stdout mode (order matters)
         process_files_sequential(&files, &options)
+    };
+
+    if unreadable {
+        ExitCode::FAILURE
+    } else {
+        exit_code
     }
 }
 
@@ -375,11 +382,12 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
 /// If a path is a directory, recursively finds all `.md` files within it.
 /// If a path is a file, it is included as-is.
 /// A file reached in several ways is included only once, since two threads must not write it.
-fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
+/// Sets `unreadable` if a directory could not be read.
+fn expand_paths(paths: &[PathBuf], unreadable: &mut bool) -> Vec<PathBuf> {
     let mut result = Vec::new();
     for path in paths {
         if path.is_dir() {
-            result.extend(collect_md_files(path));
+            result.extend(collect_md_files(path, unreadable));
         } else {
             result.push(path.clone());
         }
@@ -390,10 +398,24 @@ fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
 }
 
 /// Recursively collect all Markdown files (`.md` and `.markdown`) from a directory.
-fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
+///
+/// Reports directories that cannot be read, and sets `unreadable` if there are any.
+/// Dangling symbolic links and loops of them are skipped.
+fn collect_md_files(dir: &Path, unreadable: &mut bool) -> Vec<PathBuf> {
     let mut files = Vec::new();
     for entry in WalkDir::new(dir).follow_links(true) {
-        let Ok(entry) = entry else { continue };
+        let entry = match entry {
+            Ok(entry) => entry,
+            Err(e) => {
+                let path = e.path().unwrap_or(dir).to_path_buf();
+                let broken_link = path.is_symlink() && !path.exists();
+                if let Some(e) = e.into_io_error().filter(|_| !broken_link) {
+                    eprintln!("Error reading {}: {}", path.display(), e);
+                    *unreadable = true;
+                }
+                continue;
+            }
+        };
         let path = entry.path();
         if path.is_file() {
             let is_markdown = path.extension().is_some_and(|ext| {
-- 
2.43.0


From 03b4d075bf4b16c93c8885e651397a0a98e17315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 071/100] fix: reject thematic break styles with line breaks
 around them

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0aa919c..69f8a2d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -680,7 +680,7 @@ impl ThematicBreakStyle {
         // - Can have spaces between characters
         // - No other characters allowed (except spaces)
 
-        let trimmed = style.trim();
+        let trimmed = style.trim_matches([' ', '\t']);
         if trimmed.is_empty() {
             return Err("thematic_break style cannot be empty.".to_string());
         }
-- 
2.43.0


From 6cec1d1a6fda796f4c5a49f1f3281f5f8f7c867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 072/100] hook: expose the conversion of JavaScript options
 under cfg(hongdown_verif)

---
 src/lib.rs  | 9 +++++++++
 src/wasm.rs | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dfdb171..444858e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,9 @@
 //! let output = format(input, &options).unwrap();
 //! ```
 
+// `hongdown_verif` is set by the verification machinery only.
+#![allow(unexpected_cfgs)]
+
 use std::collections::HashMap;
 
 pub mod config;
@@ -19,6 +22,12 @@ mod serializer;
 #[cfg(feature = "wasm")]
 mod wasm;
 
+/// Hooks for the verification machinery, which is built with `--cfg hongdown_verif`.
+#[cfg(all(feature = "wasm", hongdown_verif))]
+pub mod verif {
+    pub use crate::wasm::verif_js_options as js_options;
+}
+
 pub use config::{
     DashPattern, DashSetting, FenceChar, IndentWidth, LeadingSpaces, LineWidth, MinFenceLength,
     OrderedListPad, OrderedMarker, ThematicBreakStyle, TrailingSpaces, UnorderedMarker,
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..a67a8cc 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -122,6 +122,12 @@ impl JsDashSetting {
     }
 }
 
+/// Reads options as `format` does, outside JavaScript.
+#[cfg(hongdown_verif)]
+pub fn verif_js_options<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Options, D::Error> {
+    JsOptions::deserialize(d).map(|o| o.to_options())
+}
+
 impl JsOptions {
     /// Convert JavaScript options to Rust Options.
     fn to_options(&self) -> Options {
-- 
2.43.0


From 124bc3059109c9918af0123bfa095e39b65b860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 073/100] fix: process a file that include patterns reach in
 several ways once

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3938c3a..98a03ac 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -130,7 +130,7 @@ fn main() -> ExitCode {
         // No files specified and stdin not requested, try to use include patterns from config
         if !config.include.is_empty() {
             match config.collect_files(&config_dir) {
-                Ok(collected) => collected,
+                Ok(collected) => without_duplicates(collected),
                 Err(e) => {
                     eprintln!("Error collecting files: {}", e);
                     return ExitCode::FAILURE;
@@ -381,7 +381,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
 ///
 /// If a path is a directory, recursively finds all `.md` files within it.
 /// If a path is a file, it is included as-is.
-/// A file reached in several ways is included only once, since two threads must not write it.
+/// A file reached in several ways is included only once.
 /// Sets `unreadable` if a directory could not be read.
 fn expand_paths(paths: &[PathBuf], unreadable: &mut bool) -> Vec<PathBuf> {
     let mut result = Vec::new();
@@ -392,9 +392,14 @@ fn expand_paths(paths: &[PathBuf], unreadable: &mut bool) -> Vec<PathBuf> {
             result.push(path.clone());
         }
     }
+    without_duplicates(result)
+}
+
+/// Keep one path of each file, since two threads must not write it.
+fn without_duplicates(mut paths: Vec<PathBuf>) -> Vec<PathBuf> {
     let mut seen = HashSet::new();
-    result.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
-    result
+    paths.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
+    paths
 }
 
 /// Recursively collect all Markdown files (`.md` and `.markdown`) from a directory.
-- 
2.43.0


From 94306b9c93993634c285ef20e969ea74c2fbe61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 074/100] fix: escape only punctuation with backslashes where
 positions are off

---
 src/serializer/inline.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 87b83f4..4076e1e 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -353,10 +353,11 @@ impl<'a> Serializer<'a> {
                 } else {
                     // Source has an escape sequence, text doesn't have a backslash
                     let escaped_char = source_chars[source_idx + 1];
-                    if escaped_char == text_char {
+                    if escaped_char == text_char && escaped_char.is_ascii_punctuation() {
                         // The escape in source corresponds to this character in text
-                        // Comrak only drops a backslash that really escapes something,
-                        // so preserve the escape from source (e.g., \_ → \_)
+                        // Before anything but punctuation, the backslash would be text (of
+                        // another place, if the position of the node is off), so preserve only
+                        // real escapes from source (e.g., \_ → \_)
                         result.push('\\');
                         result.push(escaped_char);
                         text_idx += 1;
-- 
2.43.0


From 4bef0b988c333bf61abbb1a97363f2571bd70eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 075/100] fix: keep thematic breaks in items that start with a
 list, quote or break

---
 src/serializer/list.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 99099ad..300da30 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -219,6 +219,17 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
+        // Nothing follows the marker on its line, so the content starts one column after it
+        let marker_is_alone = children.first().is_some_and(|child| {
+            matches!(
+                &child.data.borrow().value,
+                NodeValue::List(_)
+                    | NodeValue::BlockQuote
+                    | NodeValue::Alert(_)
+                    | NodeValue::ThematicBreak
+            )
+        });
+
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
             match &child.data.borrow().value {
@@ -292,10 +303,14 @@ impl<'a> Serializer<'a> {
                     }
                     self.serialize_node(child);
                 }
-                NodeValue::ThematicBreak if is_first => {
+                NodeValue::ThematicBreak if marker_is_alone => {
                     // On the marker's line it could run into the marker, and with leading
                     // spaces it could become indented code
-                    self.output.push('\n');
+                    self.end_line();
+                    if !is_first {
+                        self.output.push_str(quote_prefix.trim_end());
+                        self.output.push('\n');
+                    }
                     self.output.push_str(&quote_prefix);
                     self.output.push_str(&base_indent);
                     self.output
-- 
2.43.0


From 10251a951f78f039a426fb27b63d991e63581fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 076/100] fix: keep quotes and thematic breaks that start a
 description in it

---
 src/serializer/document.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b4339b3..918b6f3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -423,7 +423,12 @@ impl<'a> Serializer<'a> {
                         // Block quotes and alerts as first child: output marker, newline,
                         // then serialize with proper list_item_indent for continuation lines
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str(":\n");
+                        if matches!(child_value, NodeValue::BlockQuote) {
+                            // Without a space after it, the colon would be text
+                            self.output.push_str(":   \n");
+                        } else {
+                            self.output.push_str(":\n");
+                        }
                         let old_list_item_indent =
                             std::mem::replace(&mut self.list_item_indent, "    ".to_string());
                         self.serialize_node(child);
@@ -433,6 +438,12 @@ impl<'a> Serializer<'a> {
                         // Other block types: serialize normally with indent
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
+                        if matches!(child_value, NodeValue::ThematicBreak) {
+                            // Next to the marker, its leading spaces would make it code
+                            self.output.push('\n');
+                            self.output.push_str(&blockquote_prefix);
+                            self.output.push_str("    ");
+                        }
                         self.serialize_block_with_prefix(
                             child,
                             &format!("{}    ", blockquote_prefix),
-- 
2.43.0


From 500d7974d3f63dabec292d69b7df9663854d2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 077/100] fix: do not let a thematic break at the start of a
 document open front matter

---
 src/serializer/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 918b6f3..60c0d8f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -995,6 +995,13 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&prefix);
         }
 
+        // At the very start, three hyphens would open front matter
+        let leading_spaces = if self.output.is_empty() && style.trim_end() == "---" {
+            leading_spaces.max(1)
+        } else {
+            leading_spaces
+        };
+
         // Add leading spaces
         for _ in 0..leading_spaces {
             self.output.push(' ');
-- 
2.43.0


From 5f52012a08e35450158e9d6f877025e4fe0e19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 078/100] fix: indent continuation lines of list items as far
 as their content

---
 src/serializer/block.rs    |  6 ------
 src/serializer/document.rs | 35 +----------------------------------
 src/serializer/state.rs    |  5 -----
 3 files changed, 1 insertion(+), 45 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index b0590d6..9bae8ff 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -9,7 +9,6 @@ struct BlockquoteState {
     was_in_block_quote: bool,
     old_blockquote_prefix: String,
     old_blockquote_outer_indent: String,
-    old_blockquote_entry_list_depth: usize,
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
@@ -29,9 +28,6 @@ impl<'a> Serializer<'a> {
         let old_blockquote_outer_indent =
             std::mem::replace(&mut self.blockquote_outer_indent, indent.clone());
 
-        let old_blockquote_entry_list_depth =
-            std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
-
         let was_in_block_quote = std::mem::replace(&mut self.in_block_quote, true);
         let old_in_description_details = std::mem::replace(&mut self.in_description_details, false);
 
@@ -44,7 +40,6 @@ impl<'a> Serializer<'a> {
             was_in_block_quote,
             old_blockquote_prefix,
             old_blockquote_outer_indent,
-            old_blockquote_entry_list_depth,
             old_list_item_indent,
             old_list_type,
             old_list_depth,
@@ -61,7 +56,6 @@ impl<'a> Serializer<'a> {
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
         self.blockquote_outer_indent = state.old_blockquote_outer_indent;
-        self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
         self.blockquote_prefix = state.old_blockquote_prefix;
         self.in_block_quote = state.was_in_block_quote;
         self.in_description_details = state.old_in_description_details;
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 60c0d8f..99f0423 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -587,40 +587,7 @@ impl<'a> Serializer<'a> {
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
-            //
-            // There are two cases:
-            // 1. List inside blockquote: list_depth > blockquote_entry_list_depth
-            //    - Use base_indent for the inner list's continuation
-            // 2. Blockquote inside list: list_depth == blockquote_entry_list_depth
-            //    - Don't add base_indent, just use the outer prefix
-            let inner_list_depth = self
-                .list_depth
-                .saturating_sub(self.blockquote_entry_list_depth);
-            let base_indent = if self.in_description_details && inner_list_depth > 0 {
-                // Inside description details, add extra 5-space indent for `:    ` prefix.
-                // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
-                // For nested lists, use the standard 4-char indent.
-                let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(inner_list_depth.saturating_sub(1));
-                format!(
-                    "     {}{}",
-                    " ".repeat(first_level_marker_width),
-                    nested_indent
-                )
-            } else {
-                "    ".repeat(inner_list_depth)
-            };
-            let continuation = if self.in_block_quote {
-                // Inside a blockquote, continuation lines need > prefix + indent
-                // Use blockquote_outer_indent (the outer list's indent, if any)
-                // rather than list_item_indent (which is for the list inside the blockquote)
-                format!(
-                    "{}{}{}",
-                    self.blockquote_outer_indent, self.blockquote_prefix, base_indent
-                )
-            } else {
-                base_indent
-            };
+            let continuation = format!("{}{}", self.quote_line_prefix(), self.list_item_indent);
             if is_abbreviation {
                 let lines = abbreviation_lines(&inline_content, &continuation);
                 self.output.push_str(&lines);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index ebc4fb9..a8566db 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -285,9 +285,6 @@ pub struct Serializer<'a> {
     /// Indentation prefix for content inside a blockquote that's nested inside a list.
     /// This is the outer list's indent that should appear before each `>` in the blockquote.
     pub blockquote_outer_indent: String,
-    /// The list depth when entering the current blockquote.
-    /// Used to determine if a list exists inside vs outside the blockquote.
-    pub blockquote_entry_list_depth: usize,
     /// Proper nouns defined via directives for sentence case (merged with config)
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
@@ -326,7 +323,6 @@ impl<'a> Serializer<'a> {
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             #[cfg(feature = "wasm")]
@@ -365,7 +361,6 @@ impl<'a> Serializer<'a> {
             source_ends_with_newline,
             list_item_indent: String::new(),
             blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             code_formatter_callback: callback,
-- 
2.43.0


From 5bd88f86582b187414c922efb949ec6ef1af5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 079/100] fix: keep no-break and ideographic spaces at the ends
 of lines

---
 src/serializer/document.rs |  6 +++---
 src/serializer/mod.rs      |  6 +++---
 src/serializer/wrap.rs     | 24 ++++++++++++++----------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 99f0423..161cd04 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -389,7 +389,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(wrap::BLANKS),
                             "",
                             &continuation,
                             self.options.line_width.get(),
@@ -461,7 +461,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}{}", blockquote_prefix, details_indent);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(wrap::BLANKS),
                             "",
                             &continuation,
                             self.options.line_width.get(),
@@ -594,7 +594,7 @@ impl<'a> Serializer<'a> {
                 return;
             }
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim(),
+                inline_content.trim_matches(wrap::BLANKS),
                 "",
                 &continuation,
                 self.options.line_width.get(),
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 7fd26cb..fb60be7 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -516,7 +516,7 @@ impl<'a> Serializer<'a> {
             first_block = false;
         }
 
-        result.trim_end().to_string()
+        result.trim_end_matches(wrap::BLANKS).to_string()
     }
 
     /// Serialize a single block element for footnote content.
@@ -525,7 +525,7 @@ impl<'a> Serializer<'a> {
         let old_output = std::mem::take(&mut self.output);
         self.serialize_node(node);
         let block_output = std::mem::replace(&mut self.output, old_output);
-        block_output.trim_end().to_string()
+        block_output.trim_end_matches(wrap::BLANKS).to_string()
     }
 
     pub fn serialize_node<'b>(&mut self, node: &'b AstNode<'b>) {
@@ -682,7 +682,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
                     }
-                    content.trim().to_string()
+                    content.trim_matches(wrap::BLANKS).to_string()
                 };
 
                 self.footnotes.stop_collecting();
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index acd4806..0c349aa 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -4,6 +4,10 @@ use unicode_width::UnicodeWidthStr;
 
 use super::escape;
 
+/// What Markdown ignores at the ends of lines. Other blanks, like no-break and ideographic
+/// spaces, are text.
+pub const BLANKS: [char; 4] = [' ', '\t', '\n', '\r'];
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -55,7 +59,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches(BLANKS);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -71,7 +75,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(BLANKS);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -95,13 +99,13 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
 fn split_original_lines(text: &str) -> Vec<String> {
     let mut lines: Vec<String> = Vec::new();
     for line in text.split('\x00') {
-        let chars: Vec<char> = line.trim_start().chars().collect();
+        let chars: Vec<char> = line.trim_start_matches(BLANKS).chars().collect();
         let is_number = chars.first().is_some_and(|ch| ch.is_ascii_digit());
         let interrupts =
             would_start_block(&chars) && (!is_number || matches!(chars[..], ['1', '.' | ')', ..]));
         match lines.last_mut() {
             Some(last) if interrupts && !chars.is_empty() => {
-                last.truncate(last.trim_end().len());
+                last.truncate(last.trim_end_matches(BLANKS).len());
                 last.push(' ');
                 last.extend(chars);
             }
@@ -183,7 +187,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches(BLANKS);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -205,7 +209,7 @@ fn wrap_text_first_line_segment(
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(BLANKS);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -357,7 +361,7 @@ pub fn wrap_single_segment(
     }
 
     // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end();
+    let final_line = current_line.trim_end_matches(BLANKS);
     if !final_line.is_empty() {
         result.push_str(final_line);
     }
@@ -368,7 +372,7 @@ pub fn wrap_single_segment(
 /// Whether the word at the start of `text` would start a list, heading, block quote, code
 /// block, definition, etc., or underline a heading, if it stood at the start of a line.
 fn would_start_block(text: &[char]) -> bool {
-    let word: String = text.iter().take_while(|ch| !ch.is_whitespace()).collect();
+    let word: String = text.iter().take_while(|ch| !BLANKS.contains(ch)).collect();
     let ordered_marker = word.strip_suffix(['.', ')']);
     matches!(word.as_str(), "*" | "+" | "~")
         || word.starts_with('>')
@@ -391,7 +395,7 @@ fn would_start_block(text: &[char]) -> bool {
 /// Escape what would start a block if `text` stood at the start of a line.
 pub fn escape_block_start(text: &str) -> String {
     let chars: Vec<char> = text.chars().collect();
-    if chars.first().is_none_or(|ch| ch.is_whitespace()) || !would_start_block(&chars) {
+    if chars.first().is_none_or(|ch| BLANKS.contains(ch)) || !would_start_block(&chars) {
         return text.to_string();
     }
     let marker = text.find(|ch: char| !ch.is_ascii_digit());
@@ -509,7 +513,7 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end();
+        let trimmed = current_line.trim_end_matches(BLANKS);
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
-- 
2.43.0


From 9f252160523f9621fc310e01c7971cfeccf289bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 080/100] fix: keep lines of no-break spaces at the end of
 disabled blocks

---
 src/serializer/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index a8566db..6a60e1a 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -6,6 +6,8 @@ use comrak::nodes::{AstNode, ListType, NodeValue};
 
 use crate::Options;
 
+use super::wrap;
+
 /// The current formatting skip mode.
 ///
 /// Controls whether and how formatting should be skipped for content.
@@ -439,7 +441,8 @@ impl<'a> Serializer<'a> {
         let end = literal_ends.fold(sourcepos.end.line, usize::max);
         let lines = self.source_lines.get(start..end)?;
         // The position of some blocks includes the blank lines after them
-        let end = lines.iter().rposition(|line| !line.trim().is_empty())?;
+        let is_blank = |line: &&str| line.trim_matches(wrap::BLANKS).is_empty();
+        let end = lines.iter().rposition(|line| !is_blank(line))?;
         Some(lines[..=end].join("\n"))
     }
 
-- 
2.43.0


From 46e97c4e8909dfd820e85d033adbda06f54ceb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 081/100] fix: keep formatting disabled after directives within
 a disabled region

A disable-next-line or disable-next-section directive between disable and enable
replaced the mode, so that formatting resumed before the enable directive.
---
 src/serializer/document.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 161cd04..ecd281f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -120,7 +120,15 @@ impl<'a> Serializer<'a> {
                         self.flush_references();
                         self.flush_footnote_references_before(Some(directive_line));
 
-                        self.skip_mode = FormatSkipMode::NextBlock;
+                        // Within a region that is disabled already, it changes nothing
+                        let ends_region = self.skip_mode == FormatSkipMode::UntilSection
+                            && children.get(i + 1).is_some_and(|next| {
+                                matches!(&next.data.borrow().value,
+                                    NodeValue::Heading(h) if h.level <= 2)
+                            });
+                        if !self.should_skip_formatting() || ends_region {
+                            self.skip_mode = FormatSkipMode::NextBlock;
+                        }
                         // Output the directive comment
                         if i > 0 {
                             self.output.push('\n');
@@ -136,7 +144,10 @@ impl<'a> Serializer<'a> {
                         self.flush_references();
                         self.flush_footnote_references_before(Some(directive_line));
 
-                        self.skip_mode = FormatSkipMode::UntilSection;
+                        // Within a disabled region, it changes nothing
+                        if self.skip_mode != FormatSkipMode::Disabled {
+                            self.skip_mode = FormatSkipMode::UntilSection;
+                        }
                         // Output the directive comment
                         if i > 0 {
                             self.output.push('\n');
-- 
2.43.0


From 61e3a206830b0be854306cd7c4008dbd66a6d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 082/100] fix: convert every three dots of a run to an ellipsis

Four dots were consumed at once, so a run of six left three dots, which formatting
again converted.
---
 src/serializer/punctuation.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..9307821 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -123,17 +123,9 @@ fn transform_ellipsis(text: &str) -> String {
 
     while i < chars.len() {
         if i + 2 < chars.len() && chars[i] == '.' && chars[i + 1] == '.' && chars[i + 2] == '.' {
-            // Check if there's a 4th dot
-            if i + 3 < chars.len() && chars[i + 3] == '.' {
-                // Four dots: ellipsis + period
-                result.push(ELLIPSIS);
-                result.push('.');
-                i += 4;
-            } else {
-                // Three dots: just ellipsis
-                result.push(ELLIPSIS);
-                i += 3;
-            }
+            // A fourth dot stays a period, unless two more follow it
+            result.push(ELLIPSIS);
+            i += 3;
         } else {
             result.push(chars[i]);
             i += 1;
-- 
2.43.0


From c7973299092fb2df1b120e7dfcb5a2159abd99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:32 +0000
Subject: [PATCH 083/100] fix: close quotes that directly follow other inlines

---
 src/serializer/inline.rs      | 22 ++++++++++++++++++++--
 src/serializer/punctuation.rs | 33 +++++++++++++++++++++++----------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 4076e1e..0e252c4 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -38,11 +38,25 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether another inline than a line break stands directly before the node.
+    fn follows_inline<'b>(node: &'b AstNode<'b>) -> bool {
+        node.previous_sibling().is_some_and(|prev| {
+            !matches!(
+                prev.data.borrow().value,
+                NodeValue::SoftBreak | NodeValue::LineBreak
+            )
+        })
+    }
+
     fn collect_text_recursive<'b>(&mut self, node: &'b AstNode<'b>, text: &mut String) {
         match &node.data.borrow().value {
             NodeValue::Text(t) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(t, self.options);
+                let transformed = punctuation::transform_punctuation_of_run(
+                    t,
+                    Self::follows_inline(node),
+                    self.options,
+                );
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
@@ -135,7 +149,11 @@ impl<'a> Serializer<'a> {
         match &node.data.borrow().value {
             NodeValue::Text(text) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(text, self.options);
+                let transformed = punctuation::transform_punctuation_of_run(
+                    text,
+                    Self::follows_inline(node),
+                    self.options,
+                );
 
                 // Try to preserve escapes from the original source
                 let escaped = if let Some(source) = self.extract_text_source(node) {
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 9307821..c962670 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -76,7 +76,10 @@ pub fn validate_dash_settings(options: &Options) -> Result<(), PunctuationError>
 /// - Straight apostrophes to curly apostrophes (if enabled)
 /// - Three dots to ellipsis character
 /// - Dash patterns to en-dash or em-dash
-pub fn transform_punctuation(text: &str, options: &Options) -> String {
+///
+/// `after_inline` says that another inline (emphasis, a link, a code span, etc.) stands directly
+/// before the text, so that a quote at its start is not one at the start of a line.
+pub fn transform_punctuation_of_run(text: &str, after_inline: bool, options: &Options) -> String {
     let mut result = text.to_string();
 
     // Apply transformations in order (longer patterns first to avoid conflicts)
@@ -98,12 +101,12 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
 
     // 4. Double quotes
     if options.curly_double_quotes {
-        result = transform_double_quotes(&result);
+        result = transform_double_quotes(&result, after_inline);
     }
 
     // 5. Single quotes (before apostrophes since they share the same character)
     if options.curly_single_quotes {
-        result = transform_single_quotes(&result);
+        result = transform_single_quotes(&result, after_inline);
     }
 
     // 6. Apostrophes (only if enabled, processed after single quotes)
@@ -114,6 +117,11 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
     result
 }
 
+#[cfg(test)]
+fn transform_punctuation(text: &str, options: &Options) -> String {
+    transform_punctuation_of_run(text, false, options)
+}
+
 /// Transform three consecutive dots to ellipsis character.
 fn transform_ellipsis(text: &str) -> String {
     // Replace ... with ellipsis, but handle .... (4 dots) as ellipsis + period
@@ -136,7 +144,7 @@ fn transform_ellipsis(text: &str) -> String {
 }
 
 /// Transform straight double quotes to curly double quotes.
-fn transform_double_quotes(text: &str) -> String {
+fn transform_double_quotes(text: &str, after_inline: bool) -> String {
     let mut result = String::with_capacity(text.len());
     let chars: Vec<char> = text.chars().collect();
     let mut expecting_open = true;
@@ -144,7 +152,7 @@ fn transform_double_quotes(text: &str) -> String {
     for (i, &ch) in chars.iter().enumerate() {
         if ch == STRAIGHT_DOUBLE_QUOTE {
             // Determine if this should be an opening or closing quote
-            let is_opening = should_be_opening_quote(&chars, i, expecting_open);
+            let is_opening = should_be_opening_quote(&chars, i, after_inline, expecting_open);
 
             if is_opening {
                 result.push(LEFT_DOUBLE_QUOTE);
@@ -165,7 +173,7 @@ fn transform_double_quotes(text: &str) -> String {
 /// This only handles quotes that appear to be used as quotation marks,
 /// not apostrophes within words.
 #[allow(clippy::collapsible_if)]
-fn transform_single_quotes(text: &str) -> String {
+fn transform_single_quotes(text: &str, after_inline: bool) -> String {
     let mut result = String::with_capacity(text.len());
     let chars: Vec<char> = text.chars().collect();
     let mut expecting_open = true;
@@ -265,7 +273,7 @@ fn transform_single_quotes(text: &str) -> String {
             }
 
             // Determine if this should be an opening or closing quote
-            let is_opening = should_be_opening_quote(&chars, i, expecting_open);
+            let is_opening = should_be_opening_quote(&chars, i, after_inline, expecting_open);
 
             if is_opening {
                 result.push(LEFT_SINGLE_QUOTE);
@@ -427,7 +435,12 @@ fn transform_dashes(text: &str, pattern: &str, replacement: char) -> String {
 }
 
 /// Determine if a quote at position `i` should be an opening quote.
-fn should_be_opening_quote(chars: &[char], i: usize, expecting_open: bool) -> bool {
+fn should_be_opening_quote(
+    chars: &[char],
+    i: usize,
+    after_inline: bool,
+    expecting_open: bool,
+) -> bool {
     let prev_char = if i > 0 { Some(chars[i - 1]) } else { None };
     let next_char = if i + 1 < chars.len() {
         Some(chars[i + 1])
@@ -436,11 +449,11 @@ fn should_be_opening_quote(chars: &[char], i: usize, expecting_open: bool) -> bo
     };
 
     // Opening quote indicators:
-    // - At start of text
+    // - At start of text (unless another inline stands before it)
     // - After whitespace
     // - After opening brackets/parens
     // - After other opening quotes
-    let prev_suggests_open = prev_char.is_none()
+    let prev_suggests_open = (prev_char.is_none() && !after_inline)
         || prev_char.is_some_and(|c| {
             c.is_whitespace()
                 || c == '('
-- 
2.43.0


From a36b6d7a2c5ae144137bc0fc23d36438b09a8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 084/100] fix: read line endings of every kind alike

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 444858e..982f844 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,7 +227,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
-    let input = &replace_nul(input);
+    let input = &normalize_input(input);
     let root = parse_document(&arena, input, &comrak_options);
     let output = serializer::serialize_with_source(root, options, Some(input));
 
@@ -273,7 +273,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
 
-    let input = &replace_nul(input);
+    let input = &normalize_input(input);
     let root = parse_document(&arena, input, &comrak_options);
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
@@ -283,10 +283,15 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
     })
 }
 
-/// Replaces the NUL character as CommonMark requires, since the serializer uses it internally.
-fn replace_nul(input: &str) -> std::borrow::Cow<'_, str> {
-    if input.contains('\0') {
-        input.replace('\0', "\u{fffd}").into()
+/// Replaces the NUL character as CommonMark requires, since the serializer uses it internally, and
+/// gives every line the ending that the output has.
+fn normalize_input(input: &str) -> std::borrow::Cow<'_, str> {
+    if input.contains(['\0', '\r']) {
+        input
+            .replace('\0', "\u{fffd}")
+            .replace("\r\n", "\n")
+            .replace('\r', "\n")
+            .into()
     } else {
         input.into()
     }
-- 
2.43.0


From c97c06640f78d7ce38711d6081646e5c81cb1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 085/100] fix: count the columns of table rows that look like
 the separator row

---
 src/serializer/table.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index ef3cdd3..3047393 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -130,6 +130,7 @@ impl<'a> Serializer<'a> {
             return;
         }
 
+        let mut separator_seen = false;
         for line_num in start_line..=end_line {
             let line_idx = line_num - 1;
             if line_idx >= self.source_lines.len() {
@@ -137,11 +138,13 @@ impl<'a> Serializer<'a> {
             }
             let line = self.source_lines[line_idx];
 
-            // Skip separator row (contains only |, -, :, and spaces)
-            if line
-                .chars()
-                .all(|c| c == '|' || c == '-' || c == ':' || c == ' ')
+            // Skip separator row (contains only |, -, :, and spaces), but not rows like it
+            if !separator_seen
+                && line
+                    .chars()
+                    .all(|c| c == '|' || c == '-' || c == ':' || c == ' ')
             {
+                separator_seen = true;
                 continue;
             }
 
-- 
2.43.0


From 7ba238b3b943a206c3aa825283dc5f92501e88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 086/100] fix: take two single quotes after a word as closing
 quotes

---
 src/serializer/punctuation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index c962670..1a7f0ed 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -197,6 +197,12 @@ fn transform_single_quotes(text: &str, after_inline: bool) -> String {
                 continue;
             }
 
+            // TeX-style closing quotes like ``quoted'' - both are quotes, neither an apostrophe
+            if expecting_open && prev_is_letter && next_char == Some(STRAIGHT_SINGLE_QUOTE) {
+                result.push(RIGHT_SINGLE_QUOTE);
+                continue;
+            }
+
             // Word-final apostrophes like goin', diggin' - leave for apostrophe transform
             // BUT only if we're not expecting a closing quote (no unmatched opening quote)
             // (letter followed by apostrophe followed by space, punctuation, or end of text)
-- 
2.43.0


From 4556f7f96ccd9a6bfab68e86e45c01b45445b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:05 +0000
Subject: [PATCH 087/100] fix: keep asterisks around emphasis within a word

---
 src/serializer/state.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 6a60e1a..6840e60 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -499,11 +499,12 @@ impl<'a> Serializer<'a> {
     }
 
     /// Get the emphasis delimiter character.
-    /// Uses '_' if the content contains '*' (to avoid escaping).
+    /// Uses '_' if the content contains '*' (to avoid escaping), unless it stands within a word,
+    /// where '_' does not make emphasis.
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && !Self::touches_word(node) {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -516,11 +517,12 @@ impl<'a> Serializer<'a> {
     }
 
     /// Get the strong emphasis delimiter string.
-    /// Uses "__" if the content contains '*' (to avoid escaping).
+    /// Uses "__" if the content contains '*' (to avoid escaping), unless it stands within a word,
+    /// where "__" does not make strong emphasis.
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && !Self::touches_word(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -532,6 +534,19 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Check if text stands directly before or after the given node with no space or punctuation
+    /// in between.
+    fn touches_word<'b>(node: &'b AstNode<'b>) -> bool {
+        let is_word = |c: char| !c.is_whitespace() && !c.is_ascii_punctuation();
+        let before = node.previous_sibling().is_some_and(|sibling| {
+            matches!(&sibling.data.borrow().value, NodeValue::Text(t) if t.ends_with(is_word))
+        });
+        let after = node.next_sibling().is_some_and(|sibling| {
+            matches!(&sibling.data.borrow().value, NodeValue::Text(t) if t.starts_with(is_word))
+        });
+        before || after
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From 5b4b8bb438cdaae3ddb722018a3bd99b71089e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 088/100] fix: escape headings of number signs in one pass

---
 src/serializer/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ecd281f..3575be5 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -538,6 +538,11 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
+        if !heading_text.is_empty() && heading_text.chars().all(|c| c == '#') {
+            // Without a backslash these would be an empty heading or a closing sequence
+            heading_text.insert(0, '\\');
+        }
+
         if heading_text.is_empty() {
             // An empty heading has nothing to underline, so it is always ATX-style
             self.output.push_str(&"#".repeat(level as usize));
@@ -567,7 +572,7 @@ impl<'a> Serializer<'a> {
             self.output.push(' ');
             let text = heading_text.trim_end_matches('#');
             self.output.push_str(text);
-            if text.len() < heading_text.len() && (text.is_empty() || text.ends_with(' ')) {
+            if text.len() < heading_text.len() && text.ends_with(' ') {
                 // Without a backslash these would be a closing sequence
                 self.output.push('\\');
             }
-- 
2.43.0


From b22bf7347bb65be2c77eeec1f908285541410be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 089/100] fix: leave no blank after the marker of an empty
 footnote

---
 src/serializer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index fb60be7..bcdb66e 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -483,7 +483,7 @@ impl<'a> Serializer<'a> {
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
         if content.is_empty() {
-            self.output.push_str(&prefix);
+            self.output.push_str(prefix.trim_end());
             self.output.push('\n');
             return;
         }
-- 
2.43.0


From d8a8be426b41ecf6806d4e5ebc4ef944edb3a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 090/100] fix: join the mark of a task and text on the line
 after it

---
 src/serializer/document.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 3575be5..bc3ead1 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -598,6 +598,8 @@ impl<'a> Serializer<'a> {
         // Collect all inline content first
         let mut inline_content = String::new();
         self.collect_inline_content(node, &mut inline_content);
+        // The text of a task may start on the line after its mark
+        let inline_content = inline_content.trim_start_matches('\x00');
 
         if self.list_type.is_some() {
             // Inside a list item, wrap with proper continuation indent
@@ -605,7 +607,7 @@ impl<'a> Serializer<'a> {
             // Continuation lines need appropriate indent
             let continuation = format!("{}{}", self.quote_line_prefix(), self.list_item_indent);
             if is_abbreviation {
-                let lines = abbreviation_lines(&inline_content, &continuation);
+                let lines = abbreviation_lines(inline_content, &continuation);
                 self.output.push_str(&lines);
                 return;
             }
@@ -624,13 +626,13 @@ impl<'a> Serializer<'a> {
                 String::new()
             };
             if is_abbreviation {
-                let lines = abbreviation_lines(&inline_content, &prefix);
+                let lines = abbreviation_lines(inline_content, &prefix);
                 self.output.push_str(&prefix);
                 self.output.push_str(&lines);
                 self.output.push('\n');
                 return;
             }
-            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.options.line_width.get());
+            let wrapped = wrap::wrap_text(inline_content, &prefix, self.options.line_width.get());
             self.output.push_str(&wrapped);
             self.output.push('\n');
         }
-- 
2.43.0


From b712db6a0ad15bbf0b0a0e0606c5ac97ebb51d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:24 +0000
Subject: [PATCH 091/100] fix: escape markers that text after a definition or a
 lone colon starts with

---
 src/serializer/inline.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 0e252c4..0beba49 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -135,6 +135,29 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether a text starts a paragraph that is one only because of how its source was split
+    /// into lines: it followed a link reference definition, or its marker stood alone.
+    fn starts_like_other_block<'b>(node: &'b AstNode<'b>, text: &str) -> bool {
+        let starts_paragraph = node.previous_sibling().is_none()
+            && node.parent().is_some_and(|parent| {
+                // The mark of a task stands before its text
+                let in_task = parent.previous_sibling().is_none()
+                    && parent.parent().is_some_and(|item| {
+                        matches!(item.data.borrow().value, NodeValue::TaskItem(_))
+                    });
+                matches!(parent.data.borrow().value, NodeValue::Paragraph) && !in_task
+            });
+        if !starts_paragraph {
+            return false;
+        }
+        if text == ":" {
+            return node.next_sibling().is_some_and(|sibling| {
+                matches!(sibling.data.borrow().value, NodeValue::SoftBreak)
+            });
+        }
+        text.starts_with(|c: char| c == '-' || c == '+' || c.is_ascii_digit())
+    }
+
     pub(super) fn collect_inline_content<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -164,7 +187,7 @@ impl<'a> Serializer<'a> {
 
                 // After a hard line break, the text starts a line (its indentation, which could
                 // have kept it from starting a block, is not preserved)
-                if content.ends_with('\n') {
+                if content.ends_with('\n') || Self::starts_like_other_block(node, &escaped) {
                     content.push_str(&wrap::escape_block_start(&escaped));
                 } else {
                     content.push_str(&escaped);
-- 
2.43.0


From 4caeaebb10e3e52482be2d9ee8467861034d1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 092/100] fix: keep headings that start with a colon from
 describing the paragraph before

---
 src/serializer/document.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index bc3ead1..b449eb4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -17,12 +17,16 @@ fn reads_as_setext_heading(text: &str, mark: &str) -> bool {
     options.extension.description_lists = true;
     options.extension.footnotes = true;
     let arena = Arena::new();
-    let source = format!("{}\n{}\n", text, mark.repeat(text.width()));
+    // After a paragraph, a text that starts with a colon would be its description
+    let source = format!("text\n\n{}\n{}\n", text, mark.repeat(text.width()));
     let root = parse_document(&arena, &source, &options);
-    root.first_child().is_some_and(|child| {
-        matches!(&child.data.borrow().value, NodeValue::Heading(heading) if heading.setext)
-            && child.next_sibling().is_none()
-    })
+    let paragraph = root.first_child();
+    paragraph
+        .and_then(|p| p.next_sibling())
+        .is_some_and(|child| {
+            matches!(&child.data.borrow().value, NodeValue::Heading(heading) if heading.setext)
+                && child.next_sibling().is_none()
+        })
 }
 
 /// The lines of a paragraph of abbreviation definitions, which stay as they are, with
-- 
2.43.0


From b94737f613e1fea9bc788dac593e8a5a0f11aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:16 +0000
Subject: [PATCH 093/100] fix: keep a nested list whose first marker stands
 alone apart from the text before

---
 src/serializer/list.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 300da30..bd6ba20 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -84,6 +84,19 @@ impl<'a> Serializer<'a> {
     /// * `node` - The list item node.
     /// * `task_marker` - For task list items: `Some(Some('x'))` for checked,
     ///   `Some(None)` for unchecked, `None` for regular list items.
+    /// Whether an item starts with a block that stands on the line after the marker.
+    fn starts_with_block_after_marker<'b>(item: &'b AstNode<'b>) -> bool {
+        item.first_child().is_some_and(|child| {
+            matches!(
+                &child.data.borrow().value,
+                NodeValue::List(_)
+                    | NodeValue::BlockQuote
+                    | NodeValue::Alert(_)
+                    | NodeValue::ThematicBreak
+            )
+        })
+    }
+
     pub(super) fn serialize_list_item<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -220,22 +233,28 @@ impl<'a> Serializer<'a> {
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
         // Nothing follows the marker on its line, so the content starts one column after it
-        let marker_is_alone = children.first().is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-                    | NodeValue::ThematicBreak
-            )
-        });
+        let marker_is_alone = Self::starts_with_block_after_marker(node);
 
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
             match &child.data.borrow().value {
                 NodeValue::List(_) => {
                     // Check if there's a blank line before this nested list in the original
-                    let has_blank_line_before = if i > 0 {
+                    let has_line_before = match children.get(i.wrapping_sub(1)) {
+                        Some(prev_child) => {
+                            matches!(&prev_child.data.borrow().value, NodeValue::Paragraph)
+                        }
+                        None => task_marker.is_some(),
+                    };
+                    let has_blank_line_before = if has_line_before
+                        && child.first_child().is_some_and(|item| {
+                            item.first_child().is_none()
+                                || Self::starts_with_block_after_marker(item)
+                        }) {
+                        // A marker with nothing after it would belong to the text before it,
+                        // or underline it
+                        true
+                    } else if i > 0 {
                         let prev_child = children[i - 1];
                         let prev_end_line = prev_child.data.borrow().sourcepos.end.line;
                         let curr_start_line = child.data.borrow().sourcepos.start.line;
-- 
2.43.0


From 710b5edc75d2ead2cd5529137aaa9b5e2d710e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:17 +0000
Subject: [PATCH 094/100] fix: escape a colon that a definition kept from
 starting a description

---
 src/serializer/inline.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 0beba49..706533b 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -150,6 +150,18 @@ impl<'a> Serializer<'a> {
         if !starts_paragraph {
             return false;
         }
+        if text.starts_with(": ") {
+            // A definition, which is put elsewhere, kept it from being a description
+            return node
+                .parent()
+                .and_then(|paragraph| paragraph.previous_sibling())
+                .is_some_and(|before| {
+                    matches!(
+                        before.data.borrow().value,
+                        NodeValue::Paragraph | NodeValue::DescriptionList
+                    )
+                });
+        }
         if text == ":" {
             return node.next_sibling().is_some_and(|sibling| {
                 matches!(sibling.data.borrow().value, NodeValue::SoftBreak)
-- 
2.43.0


From e5737e123d26f8441c6c915569c73ec304a3fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 095/100] fix: read text right after link definitions where it
 stands

---
 src/serializer/document.rs  |  2 +
 src/serializer/mod.rs       |  1 +
 src/serializer/positions.rs | 91 +++++++++++++++++++++++++++++++++++++
 3 files changed, 94 insertions(+)
 create mode 100644 src/serializer/positions.rs

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b449eb4..61b0b9e 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -6,6 +6,7 @@ use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
+use super::positions;
 use super::state::{Directive, FormatSkipMode};
 use super::wrap;
 
@@ -45,6 +46,7 @@ fn abbreviation_lines(content: &str, prefix: &str) -> String {
 
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
+        positions::correct_after_definitions(node, &self.source_lines);
         self.collect_reference_targets(node);
         let children: Vec<_> = node.children().collect();
 
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index bcdb66e..0f67c90 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -10,6 +10,7 @@ pub mod heading;
 mod inline;
 mod link;
 mod list;
+mod positions;
 pub mod punctuation;
 mod state;
 mod table;
diff --git a/src/serializer/positions.rs b/src/serializer/positions.rs
new file mode 100644
index 0000000..7418687
--- /dev/null
+++ b/src/serializer/positions.rs
@@ -0,0 +1,91 @@
+//! Corrects source positions that comrak reports wrongly.
+
+use comrak::nodes::{AstNode, NodeValue};
+use comrak::{Arena, Options as ComrakOptions, parse_document};
+
+/// Correct the positions of the inlines of paragraphs and headings that follow link reference
+/// definitions without a blank line in between.
+///
+/// comrak removes the definitions from the text, but counts lines as though they had not been
+/// there.
+pub fn correct_after_definitions<'b>(root: &'b AstNode<'b>, source_lines: &[&str]) {
+    for node in root.descendants() {
+        let sourcepos = node.data.borrow().sourcepos;
+        let underlines = match &node.data.borrow().value {
+            NodeValue::Paragraph => 0,
+            NodeValue::Heading(heading) if heading.setext => 1,
+            _ => continue,
+        };
+        let Some(start) = sourcepos.start.line.checked_sub(1) else {
+            continue;
+        };
+        let end = sourcepos.end.line.saturating_sub(underlines);
+        let Some(lines) = source_lines.get(start..end) else {
+            continue;
+        };
+        // Where the text of each line starts, after the markers of the blocks around it
+        let text_starts: Vec<usize> = lines
+            .iter()
+            .enumerate()
+            .map(|(i, line)| {
+                if i == 0 {
+                    (sourcepos.start.column - 1).min(line.len())
+                } else {
+                    line.len() - line.trim_start_matches([' ', '\t', '>']).len()
+                }
+            })
+            .collect();
+        let texts: Vec<&str> = lines
+            .iter()
+            .zip(&text_starts)
+            .map(|(line, &at)| line.get(at..).unwrap_or_default())
+            .collect();
+        // comrak seems to end the text early by as many lines as it removed
+        let inlines = node.descendants().skip(1);
+        let last_line = inlines
+            .map(|inline| inline.data.borrow().sourcepos.end.line)
+            .max();
+        let missing = end.saturating_sub(last_line.unwrap_or(end));
+        let definition_lines = count_definition_lines(&texts, missing);
+        if definition_lines == 0 {
+            continue;
+        }
+        for inline in node.descendants().skip(1) {
+            let sourcepos = &mut inline.data.borrow_mut().sourcepos;
+            for position in [&mut sourcepos.start, &mut sourcepos.end] {
+                let Some(index) = position.line.checked_sub(start + 1) else {
+                    continue;
+                };
+                let Some(&text_start) = text_starts.get(index + definition_lines) else {
+                    continue;
+                };
+                position.line += definition_lines;
+                position.column = (position.column + text_start).saturating_sub(text_starts[index]);
+            }
+        }
+    }
+}
+
+/// How many of the lines of a paragraph's source, at its start, are link reference definitions,
+/// if at most `at_most` are.
+fn count_definition_lines(texts: &[&str], at_most: usize) -> usize {
+    if !texts
+        .first()
+        .is_some_and(|text| text.trim_start().starts_with('['))
+    {
+        return 0;
+    }
+    // Some line of the definitions has the colon after a label
+    if !texts.iter().any(|text| text.contains("]:")) {
+        return 0;
+    }
+    (1..texts.len().min(at_most + 1))
+        .rev()
+        .find(|&count| {
+            let arena = Arena::new();
+            let source = texts[..count].join("\n");
+            let root = parse_document(&arena, &source, &ComrakOptions::default());
+            root.first_child().is_none()
+        })
+        .unwrap_or(0)
+}
-- 
2.43.0


From b2b3512d522cbd34fdbc934274d50266e463fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 096/100] fix: keep a repeated label apart from the bracket or
 colon after it

---
 src/serializer/inline.rs | 2 +-
 src/serializer/mod.rs    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 706533b..e87669e 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -167,7 +167,7 @@ impl<'a> Serializer<'a> {
                 matches!(sibling.data.borrow().value, NodeValue::SoftBreak)
             });
         }
-        text.starts_with(|c: char| c == '-' || c == '+' || c.is_ascii_digit())
+        text.starts_with(|c: char| matches!(c, '-' | '+' | '>' | '#') || c.is_ascii_digit())
     }
 
     pub(super) fn collect_inline_content<'b>(
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0f67c90..13daa89 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -174,8 +174,11 @@ impl<'a> Serializer<'a> {
                 let label = escape::normalize_whitespace(&label);
 
                 // If label is empty, it's collapsed reference - mark with special prefix
-                // to distinguish from shortcut reference
-                let final_label = if label.is_empty() {
+                // to distinguish from shortcut reference. A label that only repeats the text is
+                // dropped, and what follows must not be read as the new label, target, etc.
+                let final_label = if label.is_empty()
+                    || label == text && Self::next_sibling_starts_with_bracket(node)
+                {
                     format!("\x01{}", text) // Use \x01 as marker for collapsed reference
                 } else {
                     label
-- 
2.43.0


From a548ff2884faa615389ffa00c593e69d653ad8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 097/100] fix: keep the spaces at both ends of a code span

---
 src/serializer/escape.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 16f84e0..0007ff8 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -118,14 +118,15 @@ pub fn format_code_span(content: &str) -> String {
     // Determine if we need space padding.
     // Per CommonMark: space padding is needed when content begins or ends with
     // a backtick character. This is because backticks adjacent to the delimiter
-    // would be ambiguous. Spaces at the start/end do NOT require padding -
-    // they are preserved as-is.
+    // would be ambiguous. A space at the start or end does NOT require padding -
+    // it is preserved as-is - but spaces at both would lose one each.
     let needs_space = if content.is_empty() {
         false
     } else {
         let first = content.chars().next().unwrap();
         let last = content.chars().last().unwrap();
-        first == '`' || last == '`'
+        let spaces_stripped = first == ' ' && last == ' ' && content.contains(|c| c != ' ');
+        first == '`' || last == '`' || spaces_stripped
     };
 
     if needs_space {
-- 
2.43.0


From 9a67015b2ba8fd94bd0c13f61738b479299a67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 098/100] fix: escape backslashes and entities in info strings

---
 src/serializer/code.rs   |  7 ++++---
 src/serializer/escape.rs | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 74e6371..7f9c002 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::NodeCodeBlock;
 
 use super::Serializer;
+use super::escape;
 
 /// The keyword to skip code formatting for a code block.
 const NO_FORMAT_KEYWORD: &str = "hongdown-no-format";
@@ -138,7 +139,7 @@ impl<'a> Serializer<'a> {
             if self.options.space_after_fence {
                 self.output.push(' ');
             }
-            self.output.push_str(output_info);
+            self.output.push_str(&escape::escape_info(output_info));
         }
         self.output.push('\n');
         // Add indent to each line of code (skip indent for empty lines)
@@ -210,7 +211,7 @@ impl<'a> Serializer<'a> {
             if self.options.space_after_fence {
                 self.output.push(' ');
             }
-            self.output.push_str(output_info);
+            self.output.push_str(&escape::escape_info(output_info));
         }
         self.output.push('\n');
 
@@ -292,7 +293,7 @@ impl<'a> Serializer<'a> {
             if self.options.space_after_fence {
                 self.output.push(' ');
             }
-            self.output.push_str(output_info);
+            self.output.push_str(&escape::escape_info(output_info));
         }
         self.output.push('\n');
 
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 0007ff8..a0df6f5 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -274,6 +274,25 @@ fn starts_like_entity(after_ampersand: &str) -> bool {
             .all(|c| c.is_ascii_alphanumeric() || c == '#')
 }
 
+/// Escape the backslashes and ampersands of a code block's info string that would be read as
+/// escapes and entities.
+pub fn escape_info(info: &str) -> String {
+    let mut result = String::with_capacity(info.len());
+    for (i, ch) in info.char_indices() {
+        let after = &info[i + ch.len_utf8()..];
+        let special = match ch {
+            '\\' => after.starts_with(|c: char| c.is_ascii_punctuation()),
+            '&' => starts_like_entity(after),
+            _ => false,
+        };
+        if special {
+            result.push('\\');
+        }
+        result.push(ch);
+    }
+    result
+}
+
 /// Escape pipe characters in table cell content.
 /// Pipes must be escaped to prevent being interpreted as cell boundaries.
 pub fn escape_table_cell(content: &str) -> String {
-- 
2.43.0


From 9d91d01ea58fc3d5ead5abb198905e48699c9cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 099/100] fix: keep the delimiters of nested emphasis that
 contains asterisks

---
 src/serializer/state.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 6840e60..930ddf2 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -500,11 +500,14 @@ impl<'a> Serializer<'a> {
 
     /// Get the emphasis delimiter character.
     /// Uses '_' if the content contains '*' (to avoid escaping), unless it stands within a word,
-    /// where '_' does not make emphasis.
+    /// where '_' does not make emphasis, or within other emphasis, which may use '_'.
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') && !Self::touches_word(node) {
+        if self.node_text_contains_char(node, '*')
+            && !Self::touches_word(node)
+            && !Self::touches_emphasis(node)
+        {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -518,11 +521,14 @@ impl<'a> Serializer<'a> {
 
     /// Get the strong emphasis delimiter string.
     /// Uses "__" if the content contains '*' (to avoid escaping), unless it stands within a word,
-    /// where "__" does not make strong emphasis.
+    /// where "__" does not make strong emphasis, or within other emphasis, which may use '_'.
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') && !Self::touches_word(node) {
+        if self.node_text_contains_char(node, '*')
+            && !Self::touches_word(node)
+            && !Self::touches_emphasis(node)
+        {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -547,6 +553,20 @@ impl<'a> Serializer<'a> {
         before || after
     }
 
+    /// Check if the given node is within other emphasis, around it, or next to it.
+    fn touches_emphasis<'b>(node: &'b AstNode<'b>) -> bool {
+        let is_emphasis = |other: &'b AstNode<'b>| {
+            matches!(
+                other.data.borrow().value,
+                NodeValue::Emph | NodeValue::Strong
+            )
+        };
+        node.ancestors().skip(1).any(is_emphasis)
+            || node.descendants().skip(1).any(is_emphasis)
+            || node.previous_sibling().is_some_and(is_emphasis)
+            || node.next_sibling().is_some_and(is_emphasis)
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From b09b7aa63a6363265f693341c0023d4b2b1828ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 100/100] fix: mark a hard line break with nothing before it
 with a backslash

---
 src/serializer/document.rs |  6 +++---
 src/serializer/mod.rs      |  2 +-
 src/serializer/wrap.rs     | 26 +++++++++++++++++++++-----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 61b0b9e..53609f3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -406,7 +406,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim_matches(wrap::BLANKS),
+                            wrap::trim_content(&content),
                             "",
                             &continuation,
                             self.options.line_width.get(),
@@ -478,7 +478,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = format!("{}{}", blockquote_prefix, details_indent);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim_matches(wrap::BLANKS),
+                            wrap::trim_content(&content),
                             "",
                             &continuation,
                             self.options.line_width.get(),
@@ -618,7 +618,7 @@ impl<'a> Serializer<'a> {
                 return;
             }
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim_matches(wrap::BLANKS),
+                wrap::trim_content(inline_content),
                 "",
                 &continuation,
                 self.options.line_width.get(),
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 13daa89..9e78a11 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -686,7 +686,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
                     }
-                    content.trim_matches(wrap::BLANKS).to_string()
+                    wrap::trim_content(&content).to_string()
                 };
 
                 self.footnotes.stop_collecting();
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 0c349aa..1238273 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -8,6 +8,12 @@ use super::escape;
 /// spaces, are text.
 pub const BLANKS: [char; 4] = [' ', '\t', '\n', '\r'];
 
+/// Content of a paragraph without the blanks at its ends. A hard line break may come first.
+pub fn trim_content(text: &str) -> &str {
+    let end = text.trim_end_matches(BLANKS);
+    end.trim_start_matches([' ', '\t', '\r'])
+}
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -30,8 +36,8 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     let mut result = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
-            // Add two trailing spaces for hard line break, then newline and prefix
-            result.push_str("  \n");
+            // Mark the hard line break, then newline and prefix
+            result.push_str(hard_break_after(hard_break_segments[idx - 1]));
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
@@ -42,6 +48,16 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// The mark of a hard line break and the newline after it: two trailing spaces, or a
+/// backslash where nothing stands before them, as a line of spaces would be a blank one.
+fn hard_break_after(segment: &str) -> &'static str {
+    if segment.chars().all(|c| c == '\x00' || BLANKS.contains(&c)) {
+        "\\\n"
+    } else {
+        "  \n"
+    }
+}
+
 /// Wrap a single segment of text (between hard line breaks).
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
@@ -140,10 +156,10 @@ pub fn wrap_text_first_line(
     // Process each segment separated by hard line breaks
     let mut result = String::new();
     let mut is_first_segment = true;
-    for segment in hard_break_segments {
+    for (idx, segment) in hard_break_segments.iter().enumerate() {
         if !is_first_segment {
-            // Add two trailing spaces for hard line break, then newline
-            result.push_str("  \n");
+            // Mark the hard line break, then newline
+            result.push_str(hard_break_after(hard_break_segments[idx - 1]));
             result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
-- 
2.43.0

