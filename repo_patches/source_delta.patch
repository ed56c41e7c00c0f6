From 55cc6a800712d63e718668e85375cc3e8bc8ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 01/38] fix: lexer no longer loops forever on a backslash at
 end of input

---
 crates/seam/src/parse/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..3135c6d 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -140,6 +140,9 @@ impl<'a> Lexer {
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
         let c = self.peek_char();
+        if c.is_none() {
+            return None; // Never advance past the end of the source.
+        }
         self.increment_byte_offsets(1);
         while !self.source.is_char_boundary(self.byte_offset.get()) {
             self.increment_byte_offsets(1);
-- 
2.43.0


From c866d0a087a83a6e6bf49dbacd8df6888831516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 02/38] fix: keep an escaped backslash in symbols

---
 crates/seam/src/parse/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..71a1729 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,8 +522,11 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
-        builder.push(c)
+        if c != '\\' {
+            builder.push(c);
+        } else if let Some(escaped) = chars.next() {
+            builder.push(escaped);
+        }
     }
     builder
 }
-- 
2.43.0


From cc900ec8e70605b00740da2537e118d7a87820ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 03/38] fix: count each newline inside strings and escaped
 symbols once, and report the starting line

---
 crates/seam/src/parse/lexer.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 3135c6d..1d60aa7 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -173,9 +173,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -188,11 +190,8 @@ impl<'a> Lexer {
             let Some(kind) = character_kind(c) else { break };
             // Symbols can contain escaped characters.
             if c == '\\' {
-                let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // `\`.
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -210,9 +209,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -236,7 +237,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -267,7 +267,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -293,9 +292,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From 573762ad87b63636603285000321c2dc7bc67279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 04/38] fix: error messages no longer panic on lines or tokens
 wider than a format width allows

---
 crates/seam/src/assemble/mod.rs   | 4 ++--
 crates/seam/src/parse/expander.rs | 4 ++--
 crates/seam/src/parse/lexer.rs    | 4 ++--
 crates/seam/src/parse/parser.rs   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..8fe382b 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -32,8 +32,8 @@ impl<'a> fmt::Display for GenerationError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+            text_offset=(self.site.line_column() - 1).min(u16::MAX as usize),
+            length=self.site.width().min(u16::MAX as usize))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..ffbae48 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -45,8 +45,8 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 1d60aa7..0eec40b 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -17,8 +17,8 @@ impl<'a> fmt::Display for LexError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 71a1729..d05e772 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -392,8 +392,8 @@ impl<'a> fmt::Display for ParseError<'a> {
         writeln!(f, "{} {}", line_prefix, line_view)?;
         writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
             prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+            text_offset=(site.line_column() - 1).min(u16::MAX as usize),
+            length=site.width().min(u16::MAX as usize))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From 5a3ca603bcb33d00cf123b64bb4a1a147b6b75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 05/38] fix: report an attribute whose value expands to nothing
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index ffbae48..9039a8b 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1837,7 +1837,12 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
-                let new_node = Box::new(expanded_nodes[0].clone());
+                let Some(value) = expanded_nodes.first().cloned() else {
+                    return Err(ExpansionError(
+                        format!("Value of attribute `:{}` expanded to nothing.", keyword),
+                        site));
+                };
+                let new_node = Box::new(value);
                 expanded_nodes[0] = ParseNode::Attribute {
                     keyword: keyword.clone(),
                     node: new_node,
-- 
2.43.0


From a09ce45d730cca50f144bc48b542e15b0b0b4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 06/38] fix: report empty tag names in HTML and XML instead of
 panicking

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..4234b52 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "Tag names cannot be empty.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..b038171 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -44,6 +44,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "Tag names cannot be empty.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From 139725836c9ac398f96d54805402dbcf256061a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 07/38] fix: report invalid %date format strings instead of
 panicking

---
 crates/seam/src/parse/expander.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9039a8b..310b574 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2,7 +2,7 @@ use super::parser::{Node, ParseNode, ParseTree, Parser};
 use super::tokens::Site;
 
 use std::{
-    fmt,
+    fmt::{self, Write as _},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -915,7 +915,13 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if write!(formatted, "{}", time.format(&date_format)).is_err() {
+            return Err(ExpansionError(
+                format!("Invalid date format string `{}`.", date_format),
+                args.number.1.site,
+            ));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From 6f1d6c7830652c8ffc61b711aaca5bd3ff59c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 08/38] fix: report out of range :timezone offsets instead of
 overflowing

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 310b574..706df0e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -883,9 +883,11 @@ impl<'a> Expander<'a> {
             optional("timezone"): number,
         }?;
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|hours| hours.checked_mul_int(60 * 60))
+                .and_then(|seconds| seconds.checked_round()) {
+                Some(seconds) => seconds.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
@@ -942,9 +944,11 @@ impl<'a> Expander<'a> {
         let date_string = args.number.2.value;
 
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|hours| hours.checked_mul_int(60 * 60))
+                .and_then(|seconds| seconds.checked_round()) {
+                Some(seconds) => seconds.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
-- 
2.43.0


From f45ed0fe8cc8eef3769877c721980cd60d677296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 09/38] fix: report CSS rules without selectors instead of
 panicking

---
 crates/seam/src/assemble/css.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..dae2c40 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -172,14 +173,14 @@ fn generate_special_selector<'a>(f: Formatter,
                 unexpected_node(&arg, parsing_rules)?;
                 write!(f, "({}: {}) ", keyword, css_value(keyword, &*node)?)?;
             },
-            ParseNode::List { nodes: ref rule, leading_whitespace, .. } => {
+            ParseNode::List { nodes: ref rule, site, leading_whitespace, .. } => {
                 // Now we parse nested rules!
                 if !parsing_rules {
                     writeln!(f, "{{")?;
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, site, rule.into_iter())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +192,13 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +208,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             site));
     };
 
     // Handle special @-rule selectors.
@@ -255,9 +255,9 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
         let mut tree_iter = self.tree.iter().peekable();
         while let Some(node) = tree_iter.next() {
             match node {
-                ParseNode::List { nodes: list, leading_whitespace, .. } => {
+                ParseNode::List { nodes: list, site, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, site, list.into_iter())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From a4e3c855fcc26c8d1cec9fc71ceb78f98106b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 10/38] fix: accept CSS rules which have selectors but no
 properties

---
 crates/seam/src/assemble/css.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index dae2c40..a3fa4ba 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -193,11 +193,12 @@ fn generate_special_selector<'a>(f: Formatter,
 }
 
 fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
+    // Index of first property.
+    let prop_i = iter.clone().take_while(|n| n.atomic().is_some()).count();
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
+        .take(prop_i)
         .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
@@ -225,7 +226,7 @@ fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    let properties = iter.skip(prop_i);
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
-- 
2.43.0


From 127b523919d6896eaf93959bf38247bf8caf9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 11/38] fix: end CSS at-rules without nested rules with a
 semicolon, not an unmatched brace

---
 crates/seam/src/assemble/css.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index a3fa4ba..56c07f2 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -188,7 +188,11 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        write!(f, ";")?; // No block was opened.
+    }
     Ok(())
 }
 
-- 
2.43.0


From 4b7cd41133a2459aa96796bf3d469b4749e11f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 12/38] fix: report YAML aliases and non-scalar keys instead of
 panicking or misaligning data

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 706df0e..1f71242 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1933,6 +1933,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// The first unsupported construct encountered.
+        error: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1952,7 +1954,14 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
             );
+            if self.error.is_some() { return; }
+            let expecting_key = self.mode == Some(Mode::Map) && self.defining.is_none();
             match event {
+                // Constructs which do not correspond to any definition.
+                yaml::Event::Alias(..) =>
+                    self.error = Some("Aliases are not supported."),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) if expecting_key =>
+                    self.error = Some("Keys must be scalars."),
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
                     let mut string = ParseNode::String(Node {
@@ -2102,6 +2111,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        error: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2110,6 +2120,12 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
         ))?;
+    if let Some(error) = sink.error {
+        return Err(ExpansionError(
+            format!("Failed to parse YAML: {}", error),
+            site.to_owned()
+        ));
+    }
 
     Ok(sink.nodes.into_boxed_slice())
 }
-- 
2.43.0


From 5ddead0743b31bff0654011a4545f71b4860406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 13/38] fix: separate the items of XML declarations with spaces

---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index b038171..a10ea30 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -70,7 +70,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From d15c95344c3adabc0dc52ff0777e88c270a5f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 14/38] fix: emit raw-content strings in XML instead of
 rejecting them

---
 crates/seam/src/assemble/xml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index a10ea30..ad36846 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -37,6 +37,11 @@ impl<'a> XMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", escape_xml(&node.value))?
             },
+            ParseNode::Raw(node) => {
+                // Don't escape any symbols in a raw-content string.
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", &node.value)?;
+            },
             ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
-- 
2.43.0


From d5fda108b9caca633fa0d8e7fb7597bd0e39684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 15/38] fix: escape attribute values in HTML and XML

---
 crates/seam/src/assemble/html.rs | 6 +++++-
 crates/seam/src/assemble/xml.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 4234b52..c8345f9 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -101,7 +101,11 @@ impl<'a> HTMLFormatter<'a> {
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        let value = match **node {
+                            ParseNode::Raw(..) => atom.value.to_owned(),
+                            _ => escape_xml(&atom.value),
+                        };
+                        write!(f, "{}=\"{}\"", keyword, value)?;
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index ad36846..74fdb95 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -178,7 +178,11 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
         panic!("Passed non-attribute to display_attribute.")
     };
     if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+        let value = match **node {
+            ParseNode::Raw(..) => symbol.value.to_owned(),
+            _ => escape_xml(&symbol.value),
+        };
+        Ok(format!("{}=\"{}\"", keyword, value))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From cec1b9ac390e3eea2a6dfdefdef06066bb1bec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 16/38] fix: %sort compares mixed numbers and text by a total
 order

---
 crates/seam/src/parse/expander.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 1f71242..08536dd 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1474,16 +1474,19 @@ impl<'a> Expander<'a> {
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
-            }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
+            // Numbers (integers and floats) are compared by value and come before all
+            // other keys, which are compared as strings. This must be a total order.
+            let number = |key: &str| key.parse::<f64>().ok().filter(|f| !f.is_nan());
+            match (number(&item0.key), number(&item1.key)) {
+                (Some(f0), Some(f1)) => f0.partial_cmp(&f1).unwrap().then_with(|| {
+                    // Distinguish integers too large to be exact as floats.
+                    let exact = |key: &str, f| key.parse::<i64>().map_or(f as i128, i128::from);
+                    exact(&item0.key, f0).cmp(&exact(&item1.key, f1))
+                }),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From 9e082dee41f7fa32b9bc9d1069d103afd8415ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 17/38] fix: &&-captures keep named arguments in the order they
 were given

---
 crates/seam/src/parse/expander.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 08536dd..31a6759 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -385,12 +385,13 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1 {
+                let Some((attr, _)) = node1.attribute() else { continue };
+                if let Some(named) = rhs_named.remove(attr) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From 0baa52aa6b43ce9f77dedd6b54591f59fa888f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 18/38] fix: errors about excess named arguments no longer
 depend on hash order

---
 crates/seam/src/parse/expander.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 31a6759..95a717f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -403,19 +403,22 @@ impl<'a> Expander<'a> {
         // Any remaining RHS named nodes not covered by the LHS, are excess/errors.
         if !rhs_named.is_empty() {
             // Go through RHS named nodes and list all the excess/invalid names.
-            let mut excess_keywords: Vec<&str> = vec![];
-            let mut rhs = rhs_named.iter();
-            let (keyword, some_node) = rhs.next().unwrap(); // Non-empty.
-            excess_keywords.push(keyword);
-            for (keyword, _) in rhs {
-                excess_keywords.push(keyword.as_ref());
-            }
+            // They are listed in the order given, so that errors are reproducible.
+            let excess_nodes: Vec<&ParseNode> = nodes1.iter()
+                .filter(|node1| rhs_named.values().any(|named| std::ptr::eq(*named, *node1)))
+                .collect();
+            let excess_keywords: Vec<&str> = excess_nodes.iter()
+                .filter_map(|node1| node1.attribute())
+                .map(|(keyword, _)| keyword)
+                .collect();
+            let some_node = excess_nodes[0]; // Non-empty.
             let excess_keywords: Vec<String> = excess_keywords
                 .iter()
                 .map(|kw| format!("`:{}`", kw))
                 .collect();
-            let known_keywords: Vec<String> = lhs_named
+            let known_keywords: Vec<String> = nodes0
                 .iter()
+                .filter_map(ParseNode::attribute)
                 .map(|(kw, _)| format!("`:{}`", kw))
                 .collect();
             let excess_keywords = excess_keywords.join(", ");
-- 
2.43.0


From ec75f25703b02206272ddfa1f135af03d7135e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 19/38] fix: search include directories in the order they are
 given

---
 crates/seam/src/bin.rs            |  5 ++---
 crates/seam/src/parse/expander.rs | 11 ++++-------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..bbaa9da 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Default::default();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 95a717f..baeef88 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -8,10 +8,7 @@ use std::{
     ffi::OsString,
     error::Error,
     rc::Rc,
-    collections::{
-        HashMap,
-        BTreeSet,
-    },
+    collections::HashMap,
 };
 
 use chrono::TimeZone;
@@ -88,7 +85,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
     invocations: RefCell<Vec<ParseNode<'a>>>,
@@ -99,7 +96,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: RefCell::new(Vec::new()),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
@@ -119,7 +116,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From 858ca3877a5120e9cfb8536d7e45e4908c749d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 20/38] fix: command line options containing dashes are no
 longer truncated or misread

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index bbaa9da..5c03405 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix("-") {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From eb378528063d2c8e75c2f90817277ffc22af3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 21/38] fix: %glob no longer panics on dangling symbolic links

---
 crates/seam/src/parse/expander.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index baeef88..3cb2242 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1287,7 +1287,14 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            // Dangling symbolic links do not lead to any metadata but their own.
+            let meta = match std::fs::metadata(&path).or_else(|_| std::fs::symlink_metadata(&path)) {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}", err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From 1050d56a09b3154ebd19bc984d856b9e62cce2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 22/38] fix: use after free of macro call nodes while nested
 calls expand

---
 crates/seam/src/parse/expander.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3cb2242..11afaf3 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -88,7 +88,6 @@ pub struct Expander<'a> {
     includes: Vec<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
 }
 
@@ -99,7 +98,6 @@ impl<'a> Expander<'a> {
             includes: vec![PathBuf::from(".")],
             subparsers: RefCell::new(Vec::new()),
             subcontexts: RefCell::new(Vec::new()),
-            invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
     }
@@ -157,14 +155,6 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
-    }
-
     /// Update variable (macro) for this scope.
     fn insert_variable(&self, name: String, var: Rc<Macro<'a>>) {
         let mut defs = self.definitions.borrow_mut();
@@ -1827,7 +1817,6 @@ impl<'a> Expander<'a> {
 
                 // Pathway: (%_ _ _) macro invocation.
                 if let Some(symbol) = head.symbol() {
-                    let node = self.register_invocation(node.clone());
                     let name = symbol.value.clone();
                     if name.starts_with("%") {
                         // Rebuild node...
@@ -1839,7 +1828,7 @@ impl<'a> Expander<'a> {
                                 leading.set_leading_whitespace(String::from(""));
                             }
                         }
-                        return self.expand_invocation(name, node, params.into_boxed_slice());
+                        return self.expand_invocation(name, &node, params.into_boxed_slice());
                     }
                 }
                 // Otherwise, if not a macro, just expand child nodes incase they are macros.
-- 
2.43.0


From df0cbaec10e95aed93b48d98a5abd840da41674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 23/38] fix: use after free of sources included from within
 macro bodies and other subcontexts

---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 11afaf3..93117fd 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -86,7 +86,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: Vec<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files, shared between contexts since the
+    /// nodes they produced may outlive the context that included them.
+    subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     definitions: Scope<'a>,
 }
@@ -96,7 +98,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: vec![PathBuf::from(".")],
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
@@ -122,7 +124,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Box::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -130,7 +132,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(Box::as_ref) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 7119892d69bdffe052e88f075d93fa539935d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 24/38] fix: cloning a formatter after it generated nested
 markup no longer recurses forever

---
 crates/seam/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..191e807 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -41,8 +41,12 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $tra:ty) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone the contents (not the box), and keep their vtable.
+                let mut contents = &**self as *const $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    let data = &mut contents as *mut *const $tra as *mut *mut ();
+                    *data = (**self).clone_box();
+                    Box::from_raw(contents as *mut $tra)
                 }
             }
         }
@@ -50,8 +54,12 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
         impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone the contents (not the box), and keep their vtable.
+                let mut contents = &**self as *const $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    let data = &mut contents as *mut *const $tra as *mut *mut ();
+                    *data = (**self).clone_box();
+                    Box::from_raw(contents as *mut $tra)
                 }
             }
         }
-- 
2.43.0


From abc46c18fc5382fa65ffed8cd521b95c8015658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 25/38] fix: report <pre> contents without a common source text
 instead of panicking

---
 crates/seam/src/assemble/html.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index c8345f9..0405aee 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -164,7 +164,12 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let start_node = rest_with_preserved_whitespace.first();
+                        let Some(pre) = raw_text(start_node, end_token) else {
+                            return Err(GenerationError::new("HTML",
+                                "Start of preformatted text tag must belong to the same source location.",
+                                start_node.map_or(&end_token.site, |node| node.site())));
+                        };
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -324,20 +329,20 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (there is no such text in this case).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> Option<&'a str> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Some(end_token.leading_whitespace);
     };
     if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
+        return None;
     }
     let source: &'a str = end_token.site.source_code;
     let first_node_offset =
           start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
+            .checked_sub(start_node.leading_whitespace().len())?
         + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    source.get(first_node_offset..end_token.site.bytes_from_start)
 }
-- 
2.43.0


From 92cd741fc54c0059935d8f2517c84b92f91e581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 26/38] fix: do not add whitespace to the end of <pre> text

---
 crates/seam/src/assemble/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 0405aee..b174ce9 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -220,7 +220,9 @@ impl<'a> HTMLFormatter<'a> {
                     },
                 }
                 // Closing tag should be equally as spaced as opening tag (?)
-                if end_token.leading_whitespace.is_empty() {
+                if tag == "pre" {
+                    // The raw text already reaches up to the closing parenthesis.
+                } else if end_token.leading_whitespace.is_empty() {
                     if is_first_node_on_next_line || tag == "style" {
                         write!(f, "{}", leading_whitespace)?;
                     }
-- 
2.43.0


From a0826cafa91cb3568071ea645c743e5ee3741db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 27/38] fix: HTML documents open the <body> after a leading
 <head>, not before it

---
 crates/seam/src/assemble/html.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index b174ce9..13f0e26 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -287,6 +287,7 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
         let body_tag
             = self.tree.search_node(SearchType::ListHead, "body", true, 2);
 
+        let mut content = &self.tree[..];
         if doctype_tag.is_none() {
             #[cfg(feature="debug")]
             eprintln!("html: no doctype found in document");
@@ -297,12 +298,21 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
                     doc += "<head></head>\n"
                 }
                 if body_tag.is_none() {
-                    doc += "<body>\n"
+                    // The body starts after a <head> which comes first.
+                    let first = &self.tree[0];
+                    if first.search_node(SearchType::ListHead, "head", true, 1).is_some() {
+                        self.generate_html_node(&mut doc, first)?;
+                        doc += "\n";
+                        content = &self.tree[1..];
+                    }
+                    doc += "<body>\n";
                 }
             }
         }
         // Populate.
-        doc += &self.display()?;
+        for node in content {
+            self.generate_html_node(&mut doc, node)?;
+        }
         doc += "\n";
 
         if doctype_tag.is_none() {
-- 
2.43.0


From bd5a191704c8ac63b6629c08041517720661a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 28/38] fix: s-expressions no longer write a null before a
 digit as another octal escape

---
 crates/seam/src/assemble/sexp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5c812f4..7b53905 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -11,6 +11,17 @@ pub struct SExpFormatter<'a> {
     formatters: RefCell<Vec<Box<dyn MarkupFormatter + 'a>>>,
 }
 
+/// Quote and escape a string such that it reads back as the same string.
+/// A null is not written as `\0`, since digits following it would be
+/// read as a part of the (octal) escape sequence.
+fn quote(value: &str) -> String {
+    let parts: Vec<String> = value.split('\0').map(|part| {
+        let quoted = format!("{:?}", part);
+        quoted[1..quoted.len() - 1].to_owned()
+    }).collect();
+    format!("\"{}\"", parts.join("\\x00"))
+}
+
 impl<'a> SExpFormatter<'a> {
     pub fn new(tree: ParseTree<'a>) -> Self {
         Self {
@@ -39,13 +50,13 @@ impl<'a> SExpFormatter<'a> {
                 // that we parsed, so we send it to the debug view to get a string
                 // with quotes and escaped special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{:?}", node.value)?;
+                write!(f, "{}", quote(&node.value))?;
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
                 // the `(%raw ...)` macro. It is meaningful.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "(%raw {:?})", node.value)?;
+                write!(f, "(%raw {})", quote(&node.value))?;
             },
             ParseNode::List { nodes, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
-- 
2.43.0


From a44807ad06d46efe46a09b04697961929c261dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 29/38] fix: s-expressions keep an empty string apart from a
 string touching it

---
 crates/seam/src/assemble/sexp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 7b53905..7b95093 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -38,7 +38,7 @@ impl<'a> SExpFormatter<'a> {
         }
     }
 
-    fn generate_node(&self, f: Formatter, node: &ParseNode<'a>) -> Result<(), GenerationError<'a>> {
+    fn generate_node(&self, f: Formatter, node: &ParseNode<'a>, next: Option<&ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
         match node {
             ParseNode::Symbol(node)
           | ParseNode::Number(node) => {
@@ -50,7 +50,14 @@ impl<'a> SExpFormatter<'a> {
                 // that we parsed, so we send it to the debug view to get a string
                 // with quotes and escaped special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{}", quote(&node.value))?;
+                // An empty string which touches the next string must not
+                // look like the start of a triple-quoted string.
+                let touching = matches!(next, Some(ParseNode::String(next)) if next.leading_whitespace.is_empty());
+                if node.value.is_empty() && touching {
+                    write!(f, "\"\"\"\"\"\"")?;
+                } else {
+                    write!(f, "{}", quote(&node.value))?;
+                }
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
@@ -72,7 +79,7 @@ impl<'a> SExpFormatter<'a> {
             ParseNode::Attribute { keyword, node, leading_whitespace, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 write!(f, ":{}", keyword)?;
-                self.generate_node(f, node)?;
+                self.generate_node(f, node, next)?;
             },
         }
         Ok(())
@@ -88,7 +95,7 @@ impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn generate(&self, f: Formatter) -> Result<(), GenerationError> {
         let mut tree_iter = self.tree.iter().peekable();
         while let Some(node) = tree_iter.next() {
-            self.generate_node(f, node)?;
+            self.generate_node(f, node, tree_iter.peek().copied())?;
         }
         Ok(())
     }
-- 
2.43.0


From 8d3a800e881cc367611abb27f5688a61c0b85088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 30/38] fix: %format no longer panics on malformed templates,
 rescans values, or depends on hash order

---
 crates/seam/src/parse/expander.rs | 117 ++++++++++++++++++++++++++----
 1 file changed, 102 insertions(+), 15 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 93117fd..70371c2 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -52,6 +52,66 @@ impl<'a> fmt::Display for ExpansionError<'a> {
 /// Implements std::error::Error for macro expansion error.
 impl<'a> Error for ExpansionError<'a> { }
 
+/// A piece of a template for the `%format` macro.
+enum FormatPiece {
+    Text(String),
+    Placeholder { name: String, format: formatx::Template },
+}
+
+impl FormatPiece {
+    /// Split a template into text and placeholders, giving a number to those
+    /// without a name.  Returns nothing if the template is malformed.
+    fn parse(template: &str) -> Option<Vec<FormatPiece>> {
+        let mut pieces: Vec<FormatPiece> = Vec::new();
+        let mut text = String::new();
+        let mut rest = template;
+        while let Some(at) = rest.find(['{', '}']) {
+            text.push_str(&rest[..at]);
+            rest = &rest[at..];
+            if rest.starts_with("{{") || rest.starts_with("}}") {
+                text.push_str(&rest[..1]);
+                rest = &rest[2..];
+                continue;
+            }
+            // A closing brace alone, or an opening brace without one, is malformed.
+            let inner = rest.strip_prefix('{')?;
+            let (inner, after) = inner.split_once('}')?;
+            if inner.contains('{') { return None; }
+            rest = after;
+            let (before, spec) = match inner.split_once(':') {
+                Some((before, spec)) => (before, spec.rsplit(':').next().unwrap_or("")),
+                None => (inner, ""),
+            };
+            // The widest width and precision which can be formatted.
+            let mut numbers = spec.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty());
+            if !numbers.all(|n| n.parse::<u16>().is_ok()) { return None; }
+            let format = formatx::Template::new(format!("{{0:{}}}", spec)).ok()?;
+            let name = match inner.is_empty() || inner.starts_with(':') {
+                true  => String::new(),
+                false => before.split(' ').next().unwrap_or("").to_owned(),
+            };
+            pieces.push(FormatPiece::Text(std::mem::take(&mut text)));
+            pieces.push(FormatPiece::Placeholder { name, format });
+        }
+        text.push_str(rest);
+        pieces.push(FormatPiece::Text(text));
+        // Number the unnamed placeholders, skipping numbers which are given.
+        let given: Vec<String> = pieces.iter().filter_map(|piece| match piece {
+            FormatPiece::Placeholder { name, .. } if !name.is_empty() => Some(name.clone()),
+            _ => None,
+        }).collect();
+        let mut position: usize = 0;
+        for piece in pieces.iter_mut() {
+            let FormatPiece::Placeholder { name, .. } = piece else { continue };
+            if !name.is_empty() { continue; }
+            while given.contains(&position.to_string()) { position += 1; }
+            *name = position.to_string();
+            position += 1;
+        }
+        Some(pieces)
+    }
+}
+
 /// A macro consists of:
 /// - its name;
 /// - its argument list (if any);
@@ -1048,11 +1108,14 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
+        let Some(template) = FormatPiece::parse(&format_str.value) else {
             return Err(ExpansionError::new(
                 "Invalid format string.",
                 &format_str.site));
         };
+        // Values by name; the positional ones are named by their number.
+        let mut values: Vec<(String, &str)> = Vec::new();
+        let mut position: usize = 0;
         for mut var in arguments {
             // Check if we're replacing a named or positional placeholder.
             let mut named: Option<&str> = None;
@@ -1067,26 +1130,50 @@ impl<'a> Expander<'a> {
                         var.node_type()),
                     var.site().clone()));
             };
-            // Replace the placeholder.
             match named {
-                Some(name) => template.replace(name, value),
-                None       => template.replace_positional(value),
+                Some(name) => values.push((name.to_owned(), value)),
+                None => {
+                    values.push((position.to_string(), value));
+                    position += 1;
+                }
             }
         }
         // Template has been constructed, so now attempt to do subsitituions and
         // render the formatted string.
-        match template.text() {
-            Ok(value) => Ok(Box::new([
-                ParseNode::String(Node {
-                    value,
-                    site: node.owned_site(),
-                    leading_whitespace: node.leading_whitespace().to_owned(),
-                })
-            ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+        let mut text = String::new();
+        let mut missing: Vec<String> = Vec::new();
+        for piece in template {
+            match piece {
+                FormatPiece::Text(piece) => text.push_str(&piece),
+                FormatPiece::Placeholder { name, mut format } => {
+                    if let Some((_, value)) = values.iter().find(|(key, _)| *key == name) {
+                        // Take the formatted value itself, nothing in it is a placeholder.
+                        let formatted = RefCell::new(String::new());
+                        format.replace_with_callback(0, value, |value, _| {
+                            *formatted.borrow_mut() = value;
+                            String::new()
+                        });
+                        text.push_str(&formatted.into_inner());
+                    } else {
+                        let kind = if name.parse::<usize>().is_ok() { "positional" } else { "named" };
+                        let name = format!("{} ({})", name, kind);
+                        if !missing.contains(&name) { missing.push(name); }
+                    }
+                }
+            }
+        }
+        if !missing.is_empty() {
+            return Err(ExpansionError(
+                format!("Failed to format string: missing placeholders values for: {}", missing.join(", ")),
+                format_str.site.clone()));
         }
+        Ok(Box::new([
+            ParseNode::String(Node {
+                value: text,
+                site: node.owned_site(),
+                leading_whitespace: node.leading_whitespace().to_owned(),
+            })
+        ]))
     }
 
     fn expand_namespace_macro(&self, node: &ParseNode<'a>, params: ParseTree<'a>)
-- 
2.43.0


From 7d85123897f081ef23b04ef4cde75aaacb3feab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 31/38] fix: %timestamp no longer ignores the offset of dates
 out of range

---
 crates/seam/src/parse/expander.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 70371c2..26568bb 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1016,18 +1016,20 @@ impl<'a> Expander<'a> {
             ));
         };
 
-        let timestamp = if let Ok(datetime) = chrono::DateTime::parse_from_str(&date_string, &format) {
+        let invalid_date = |err: chrono::ParseError| ExpansionError(
+            format!("Failed to parse date: {}", err),
+            node.owned_site(),
+        );
+        let mut parsed = chrono::format::Parsed::new();
+        chrono::format::parse(&mut parsed, &date_string, chrono::format::StrftimeItems::new(&format))
+            .map_err(invalid_date)?;
+
+        let timestamp = if parsed.offset().is_some() || parsed.timestamp().is_some() {
             // Timezone information already given. Ignore any `:timezone` attribute.
-            datetime.timestamp()
+            parsed.to_datetime().map_err(invalid_date)?.timestamp()
         } else {
-            // Parse NaiveDateTime instead and get timzone from attribute, or default to local time.
-            let datetime = match chrono::NaiveDateTime::parse_from_str(&date_string, &format) {
-                Ok(datetime) => datetime,
-                Err(err) => return Err(ExpansionError(
-                    format!("Failed to parse date: {}", err),
-                    node.owned_site(),
-                )),
-            };
+            // Otherwise get timzone from attribute, or default to local time.
+            let datetime = parsed.to_naive_datetime_with_offset(0).map_err(invalid_date)?;
             let datetime = timezone.from_local_datetime(&datetime);
             let datetime = match datetime.earliest() {
                 Some(local) => local,
-- 
2.43.0


From dc25e2c078c2ad11bdf590afd046d728c7fa79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 32/38] fix: rendering Markdown after front matter no longer
 joins its first two lines

---
 crates/seam/src/parse/expander.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 26568bb..494b4aa 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -786,9 +786,20 @@ impl<'a> Expander<'a> {
         let options = markdown::Options { parse: flavour, compile: danger, };
 
         // How to convert to HTML.
-        let to_html = | | -> Result<ParseTree, _> {
+        let to_html = |mut options: markdown::Options| -> Result<ParseTree, _> {
+            // Render only what follows the front-matter, since rendering both
+            // drops the first line-ending within the content.
+            let mut content: &str = contents.as_ref();
+            if let Ok(markdown::mdast::Node::Root(root)) = markdown::to_mdast(content, &options.parse) {
+                use markdown::mdast::Node::{Yaml, Toml};
+                if let Some(front @ (Yaml(_) | Toml(_))) = root.children.first() {
+                    let end = front.position().map_or(0, |position| position.end.offset);
+                    content = &content[end..];
+                    options.parse.constructs.frontmatter = false;
+                }
+            }
             // Convert to HTML.
-            let html = match markdown::to_html_with_options(contents.as_ref(), &options) {
+            let html = match markdown::to_html_with_options(content, &options) {
                 Ok(html) => html,
                 Err(err) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
@@ -841,11 +852,11 @@ impl<'a> Expander<'a> {
                 extract_frontmatter()?;
                 Ok(Box::new([]))
             },
-            Only::Content => to_html(),
+            Only::Content => to_html(options),
             Only::Both => {
                 // Ignore any errors if no frontmatter exists.
                 let _ = extract_frontmatter();
-                to_html()
+                to_html(options)
             },
         }
     }
-- 
2.43.0


From f4fe19fa19888d6aa98e7bc7592b1238d183ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 33/38] fix: YAML and JSON text after the first document is no
 longer ignored

---
 crates/seam/src/parse/expander.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 494b4aa..cd58f4f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2217,7 +2217,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
     };
 
     yaml::parser::Parser::new_from_str(text)
-        .load(&mut sink, false)
+        .load(&mut sink, true)
         .map_err(|err| ExpansionError(
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
-- 
2.43.0


From 004c06ecaffb36b3b1767aad11877ebba4966cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 34/38] fix: control characters in CSS strings are written as
 CSS escapes

---
 crates/seam/src/assemble/css.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 56c07f2..584a380 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -65,6 +65,20 @@ const CSS_NON_NESTED_SELECTORS: [&str; 3]
 /// or at least I think.
 const BINARY_OPERATORS: [&str; 4] = ["+", "-", "*", "/"];
 
+/// Writes a CSS string literal, with its control characters
+/// (such as newlines) as CSS escape sequences.
+fn quote(value: &str) -> String {
+    let mut string = String::from("\"");
+    for c in value.chars() {
+        match c {
+            '"' | '\\' => string.extend(['\\', c]),
+            c if c.is_control() => string += &format!("\\{:x} ", c as u32),
+            c => string.push(c),
+        }
+    }
+    string + "\""
+}
+
 fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<'a>> {
     match node {
         ParseNode::List { nodes: list, .. } => {
@@ -103,7 +117,7 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
         | ParseNode::Symbol(node)
         | ParseNode::String(node) =>
             Ok(if node.value.chars().any(|c| c.is_whitespace()) {
-                format!("{:?}", node.value)
+                quote(&node.value)
             } else {
                 node.value.to_owned()
             }),
-- 
2.43.0


From 9864b5a2e20c57a44387412fb45916d26dbddd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 35/38] fix: Markdown that starts with a fence which is never
 closed no longer panics

---
 crates/seam/src/parse/expander.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index cd58f4f..0a13b64 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -770,12 +770,18 @@ impl<'a> Expander<'a> {
           allow_dangerous_protocol: true,
           ..markdown::CompileOptions::default()
         };
+        // Only look for front-matter that is there: an opening fence which is
+        // never closed leaves the Markdown parser in an inconsistent state.
+        let text = contents.strip_prefix('\u{feff}').unwrap_or(&contents);
+        let mut lines = text.split(['\n', '\r']).map(|line| line.trim_end_matches([' ', '\t']));
+        let fence = lines.next();
+        let frontmatter = matches!(fence, Some("---" | "+++")) && lines.any(|line| Some(line) == fence);
         // Flavour options:
         let flavour = markdown::ParseOptions {
             gfm_strikethrough_single_tilde: false,
             math_text_single_dollar: true,
             constructs: markdown::Constructs {
-                frontmatter: true,
+                frontmatter,
                 gfm_table: true,
                 gfm_task_list_item: true,
                 ..markdown::Constructs::default()
-- 
2.43.0


From 8c1a7f4d9ca8963b3bd02284c8817b9fb2fcd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 36/38] fix: lists in elements which do not contain HTML are no
 head or body

---
 crates/seam/src/assemble/html.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 13f0e26..b055635 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -267,6 +267,17 @@ const VOID_ELEMENTS: [&str; 14] = [
     "wbr",
 ];
 
+/// HTML elements which do not contain HTML.
+const NON_HTML_ELEMENTS: [&str; 7] = [
+    "math",
+    "pre",
+    "script",
+    "style",
+    "svg",
+    "textarea",
+    "title",
+];
+
 impl<'a> MarkupFormatter for HTMLFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         let mut doc = String::new();
@@ -280,12 +291,17 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
         // Check if top-level <html></html> root object exists.
         let html_tag
             = self.tree.search_node(SearchType::ListHead, "html", true, 1);
+        // Lists in elements which do not contain HTML (such as CSS rules) are not tags.
+        let elements: ParseTree = self.tree.iter().filter(|node| {
+            let tag = node.list().and_then(|list| list.first()?.symbol());
+            !tag.is_some_and(|tag| NON_HTML_ELEMENTS.contains(&tag.value.to_ascii_lowercase().as_str()))
+        }).cloned().collect();
         // Check if <head></head> tag object exists.
         let head_tag
-            = self.tree.search_node(SearchType::ListHead, "head", true, 2);
+            = elements.search_node(SearchType::ListHead, "head", true, 2);
         // Check if <body></body> tag object exists.
         let body_tag
-            = self.tree.search_node(SearchType::ListHead, "body", true, 2);
+            = elements.search_node(SearchType::ListHead, "body", true, 2);
 
         let mut content = &self.tree[..];
         if doctype_tag.is_none() {
-- 
2.43.0


From be9c9e8536dfe2fe41a1cffef16a5a960c4ecfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:06 +0000
Subject: [PATCH 37/38] fix: the error about an invalid escape names that
 escape

---
 crates/seam/src/parse/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index d05e772..6d1c33e 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -538,8 +538,9 @@ fn escape_string<'a>(string: &'a str, site: &Site<'a>) -> Result<String, LexErro
         .map(|s| s.to_string())
         .map_err(|invalid| {
             LexError(
+                // The index is that of the backslash.
                 format!("Invalid escape `\\{}' at byte-index {}.",
-                    string.chars().nth(invalid.index).unwrap_or('?'), invalid.index),
+                    string.get(invalid.index..).and_then(|s| s.chars().nth(1)).unwrap_or('?'), invalid.index),
                 site.clone())
         })
 }
-- 
2.43.0


From 9c48c1342823db0e11095de5743b6142053e7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:36 +0000
Subject: [PATCH 38/38] fix: only front-matter is parsed to a Markdown
 syntax-tree

---
 crates/seam/src/parse/expander.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0a13b64..3bdad35 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -773,9 +773,16 @@ impl<'a> Expander<'a> {
         // Only look for front-matter that is there: an opening fence which is
         // never closed leaves the Markdown parser in an inconsistent state.
         let text = contents.strip_prefix('\u{feff}').unwrap_or(&contents);
-        let mut lines = text.split(['\n', '\r']).map(|line| line.trim_end_matches([' ', '\t']));
+        let mut end = contents.len() - text.len();
+        let mut lines = text.split_inclusive(['\n', '\r']).map(|line| {
+            end += line.len();
+            line.trim_end_matches([' ', '\t', '\n', '\r'])
+        });
         let fence = lines.next();
         let frontmatter = matches!(fence, Some("---" | "+++")) && lines.any(|line| Some(line) == fence);
+        // Only front-matter is parsed to a syntax-tree, since the conversion
+        // fails for some of the Markdown which may follow it.
+        let front = if frontmatter { &contents[..end] } else { "" };
         // Flavour options:
         let flavour = markdown::ParseOptions {
             gfm_strikethrough_single_tilde: false,
@@ -796,7 +803,7 @@ impl<'a> Expander<'a> {
             // Render only what follows the front-matter, since rendering both
             // drops the first line-ending within the content.
             let mut content: &str = contents.as_ref();
-            if let Ok(markdown::mdast::Node::Root(root)) = markdown::to_mdast(content, &options.parse) {
+            if let Ok(markdown::mdast::Node::Root(root)) = markdown::to_mdast(front, &options.parse) {
                 use markdown::mdast::Node::{Yaml, Toml};
                 if let Some(front @ (Yaml(_) | Toml(_))) = root.children.first() {
                     let end = front.position().map_or(0, |position| position.end.offset);
@@ -825,7 +832,7 @@ impl<'a> Expander<'a> {
         // How to extract front-matter.
         let extract_frontmatter = | | -> Result<(), _> {
             use markdown::mdast;
-            let ast = match markdown::to_mdast(contents.as_ref(), &options.parse) {
+            let ast = match markdown::to_mdast(front, &options.parse) {
                 Ok(ast) => ast,
                 Err(err) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
-- 
2.43.0

