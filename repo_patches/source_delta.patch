From aa6b077845d6eb79e29c2a40741aa104e35cd929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 01/84] fix: separate heading attributes that follow an id or a
 class

A heading with an id or classes, but not both, lost the space before its first
custom attribute: '# a {.c key}' became '# a {.ckey}'.
---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..3962961 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -328,7 +328,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From 98358968401d8dbc8ce8fcc0daf88599c61ceb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 02/84] fix: strip container prefixes from code spans and tags
 that wrap inside a setext heading

A setext heading takes the indentation of its containers, so the continuation line of
a code span, inline HTML or reference label inside it kept its '> ' or list indentation
as text: '> a `b\n> c` d\n> ===' gained a literal '\>'.
---
 src/formatter.rs | 12 +++++++++++-
 src/header.rs    |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..261628b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -445,7 +445,17 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        for indent in self.indentation.iter() {
+        // Headers hold on to the indentation of the containers that they're nested in.
+        let taken_indentation = self
+            .writers
+            .iter()
+            .rev()
+            .find_map(|writer| match writer {
+                MarkdownWriter::Header(header) => Some(header.indentation()),
+                _ => None,
+            })
+            .unwrap_or_default();
+        for indent in taken_indentation.iter().chain(self.indentation.iter()) {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
diff --git a/src/header.rs b/src/header.rs
index 3962961..9074c46 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -119,6 +119,11 @@ impl<'i> Header<'i> {
         self.buffer.is_empty()
     }
 
+    /// The indentation that we took when creating `Self`.
+    pub(super) fn indentation(&self) -> &[Cow<'static, str>] {
+        &self.indentation
+    }
+
     /// Determine what kind of markdown header this represents
     pub(super) fn kind(&self) -> HeaderKind<'i> {
         self.kind.clone()
-- 
2.43.0


From 859a27e69edb761b1610e23c8cad2089c13dd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 03/84] fix: don't start a paragraph inside an HTML block that
 ends a list item

When a line of an HTML block inside a list item was a lone tag without a line ending
(the last line of the input), it was mistaken for inline HTML and wrapped in a paragraph
that was never closed: '* a\n* <div>\n  </div>' lost its '</div>', and the same block in
a footnote definition made the formatter panic.
---
 src/adapters/loose_list.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..8c25fc4 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -135,7 +135,6 @@ where
                 | Tag::Strong
                 | Tag::Strikethrough,
             ) => true,
-            Event::Html(text) => is_single_html_tag(text),
             _ => false,
         }
     }
-- 
2.43.0


From 610bc413af9c11ed25839dc0cd60e6311d3aede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 04/84] fix: keep the blank line between an HTML block and what
 follows it in a block quote

The parser counts the '>' of a blank quote line with trailing white space as part of the
HTML block, so the blank line was dropped and the next paragraph became part of the HTML:
'> <div>\n> </div>\n>  \n> alpha'.
---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 261628b..6c5d9b5 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -636,6 +636,12 @@ where
                     }
                 }
                 Event::End(ref tag) => {
+                    if matches!(tag, TagEnd::HtmlBlock) {
+                        // The parser sometimes includes the start of the next line, for example
+                        // the `>` of a blank line in a blockquote, in the range of the HTML block.
+                        // The position after the last line of HTML is the one to count from.
+                        last_position = self.last_position;
+                    }
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
                 }
-- 
2.43.0


From 2f5b2c1b16d7c72855c3b85b814ff88f53e19ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 05/84] fix: don't slice a link destination inside a character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A link reference definition at the very end of the input whose destination ends in a
non-ASCII character made the formatter panic: '[a]: /é'.
---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..aedfaa1 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -694,7 +694,7 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
+                    let url = Cow::from(&input[idx..idx + c.len_utf8()]);
                     builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
                     parsed_until = idx;
                     break;
@@ -728,7 +728,7 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
+                                let url = Cow::from(&input[start..idx + c.len_utf8()]);
                                 builder.set_url(LinkDestination::Regular(url), start..idx, offset);
                                 parsed_until = idx;
                                 break;
-- 
2.43.0


From 8ac7db8f541fcd12efa083d3cbcea7d3af60e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 06/84] fix: end the paragraph of a tight list item at a
 thematic break

A thematic break directly after a paragraph in a tight list item was written into that
paragraph, and a paragraph after it was glued to it: '* # a\n  ---\n  b' became
'* # a\n  ---b', and inside a block quote the '>' was written twice.
---
 src/adapters/loose_list.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 8c25fc4..19f4092 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -249,6 +249,15 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
+                Event::Rule => {
+                    self.stashed_events
+                        .push_back((current_event, current_range));
+
+                    if self.loose_list_stack.is_empty() {
+                        return self.stashed_events.pop_front();
+                    }
+                    maybe_push_start_paragraph!(self, Self);
+                }
                 Event::Html(ref text) if !is_single_html_tag(text) => {
                     self.stashed_events
                         .push_back((current_event, current_range));
@@ -273,7 +282,8 @@ where
                             }
                         }
                         Some((
-                            Event::Start(
+                            Event::Rule
+                            | Event::Start(
                                 Tag::Heading { .. }
                                 | Tag::List(_)
                                 | Tag::BlockQuote(_)
-- 
2.43.0


From 0474d1ee00157f3133645dd7ad80fab1df923792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/84] fix: keep the comments that separate a list from an
 indented code block in their container

The second of the two comments was written without the prefix of the enclosing block
quote or list item, which ended the container there.
---
 src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6c5d9b5..4319d18 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1423,7 +1423,8 @@ where
                 //     final list item, you can insert a blank HTML comment
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
                     self.write_newlines(1)?;
-                    writeln!(self, "<!-- Don't absorb code block into list -->")?;
+                    write!(self, "<!-- Don't absorb code block into list -->")?;
+                    self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
                 };
             }
-- 
2.43.0


From 9c573d125098eb13c8414a04152d1dc269156225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 08/84] fix: don't add a closing delimiter to a metadata block
 that has none

The parser reports a metadata block for a '---' or '+++' inside a container that ends before
the closing delimiter. The formatter then made a delimiter up: '* ---\nb\n---' became
'* ------\nb\n---', and '* ---\n  b\n\n---' gained a thematic break.
---
 src/formatter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4319d18..a00fb9b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1592,7 +1592,14 @@ where
                 debug_assert_eq!(popped_tag.as_ref().map(|t| t.to_end()), Some(tag));
             }
             TagEnd::MetadataBlock(_meta) => {
-                rewrite_marker(self.input, &range, self)?;
+                // The parser also reports a metadata block when a container ends before the closing
+                // delimiter is found. Don't come up with a delimiter that's not in the input.
+                let mut lines = self.input[range.clone()].trim_end().lines();
+                let opening = lines.next().map(str::trim_end);
+                let closing = lines.last();
+                if closing == opening || closing == Some("...") {
+                    rewrite_marker(self.input, &range, self)?;
+                }
                 self.needs_indent = true;
             }
             TagEnd::DefinitionList
-- 
2.43.0


From b46400c952b61c64bc9f67badf67f3087e7db056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 09/84] fix: keep the space after '>' before a link definition
 that follows a nested block quote

'> > a\n>\n> [ref]: /url' became '>> a\n>\n>[ref]: /url'.
---
 src/formatter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index a00fb9b..700b888 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -382,6 +382,11 @@ where
         &mut self,
         link_defs: Vec<LinkReferenceDefinition>,
     ) -> std::fmt::Result {
+        // A block quote that ended right before the link definitions may have left the indentation
+        // of the enclosing block quote without the space that separates the `>` from its content.
+        if let Some(indentation) = self.indentation.last_mut().filter(|i| *i == ">") {
+            *indentation = "> ".into();
+        }
         // TODO(ytmimi) Add an option to defer writing links until the end
         for link_def in link_defs {
             let link_range = link_def.range();
-- 
2.43.0


From 133cff14decf575e76366827f0a21996f680dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 10/84] fix: start lists at their marker when a tab before them
 is only partially consumed

The parser reports such lists and items from a position before the tab, and the formatter
panicked when it sliced the input there: '1. >\t* ', '1. >\t- x'.
---
 src/formatter.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 700b888..8343965 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -72,8 +72,21 @@ impl MarkdownFormatter {
         let options = pulldown_cmark_options!();
 
         let parser = Parser::new_with_broken_link_callback(input, options, Some(&mut callback));
+        // When the tab that follows the marker of an enclosing container is only partially consumed
+        // the parser reports lists that start before that tab.
         let iter = parser
             .into_offset_iter()
+            .map(|(event, mut range)| {
+                if matches!(
+                    event,
+                    Event::Start(Tag::List(_) | Tag::Item)
+                        | Event::End(TagEnd::List(_) | TagEnd::Item)
+                ) {
+                    let list = input[range.clone()].trim_start_matches([' ', '\t', '>']);
+                    range.start = range.end - list.len();
+                }
+                (event, range)
+            })
             .all_loose_lists()
             .list_end_at_last_item();
 
-- 
2.43.0


From 6e7b13ebe4d77bfb9f65a49369b53837bd98f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 11/84] fix: find the destination of a link after its text

Brackets inside a code span or after an escaped backslash in the text of a link were taken for
the end of that text: '[\\\\](/url)' panicked, and '[`]`](/url)' lost its destination.
---
 src/formatter.rs | 10 +++++---
 src/links.rs     | 63 ++++++------------------------------------------
 2 files changed, 15 insertions(+), 58 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8343965..ec86f2d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1537,12 +1537,16 @@ where
                     }
                 };
                 self.write_str(&link_writer.into_buffer())?;
-                let text = &self.input[range.clone()];
+                // The text of the link may contain brackets that don't close it (think of code spans),
+                // so start looking for the closing bracket after the last event in the text.
+                let text_end = self.last_position.clamp(range.start, range.end);
+                let rest = &self.input[text_end..range.end];
+                let rest = &rest[rest.find(']').unwrap_or(0)..];
 
                 match link_type {
                     LinkType::Inline => {
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text)
+                            crate::links::find_inline_url_and_title(rest)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
@@ -1555,7 +1559,7 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        let label = crate::links::find_reference_link_label(text);
+                        let label = crate::links::find_reference_link_label(rest);
                         if count_newlines(label) > 0 {
                             write!(self, "][")?;
                             let label = split_lines(label)
diff --git a/src/links.rs b/src/links.rs
index aedfaa1..ff69625 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -144,65 +144,18 @@ pub(crate) fn is_balanced(s: &str, opener: char, closer: char) -> bool {
     stack.is_empty()
 }
 
-/// Search for enclosing balanced brackets
-fn find_text_within_last_set_of_balance_bracket(
-    label: &str,
-    opener: u8,
-    closer: u8,
-    halt_condition: Option<fn(u8) -> bool>,
-) -> (usize, usize) {
-    let mut stack = vec![];
-    let mut was_last_escape = false;
-
-    let mut start = 0;
-    let mut end = label.len();
-
-    let mut bytes = label.bytes().enumerate().peekable();
-
-    while let Some((index, byte)) = bytes.next() {
-        if !was_last_escape && byte == opener {
-            stack.push(index)
-        }
-
-        if !was_last_escape && byte == closer {
-            if let Some(start_index) = stack.pop() {
-                start = start_index;
-                end = index;
-            }
-
-            if stack.is_empty() && halt_condition.is_some() {
-                match (bytes.peek(), halt_condition) {
-                    (Some((_, byte)), Some(halt_condition)) if halt_condition(*byte) => {
-                        break;
-                    }
-                    _ => {}
-                }
-            }
-        }
-        was_last_escape = byte == b'\\'
-    }
-    (start, end + 1)
-}
-
-/// Reference links are expected to be well formed:
-/// [foo][bar] -> bar
-/// [link \[bar][ref] -> ref
+/// Everything after the text of a reference link. They are expected to be well formed:
+/// `][bar]` -> bar
 pub(super) fn find_reference_link_label(input: &str) -> &str {
-    let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
-    // +1 to move past '['
-    // -1 to move before ']'
-    input[start + 1..end - 1].trim()
+    let label = input.strip_prefix("][").unwrap_or(input);
+    label.strip_suffix(']').unwrap_or(label).trim()
 }
 
-/// Inline links are expected to be well formed:
-/// [link](/uri) -> '/uri'
-/// [link](</my uri>) -> '/my uri'
+/// Everything after the text of an inline link. They are expected to be well formed:
+/// `](/uri)` -> '/uri'
+/// `](</my uri>)` -> '/my uri'
 pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(String, char)>)> {
-    let (_, end) =
-        find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'('));
-    // +1 to move past '('
-    // -1 to move before ')'
-    let inline_url = input[end + 1..input.len() - 1].trim();
+    let inline_url = input.strip_prefix("](")?.strip_suffix(')')?.trim();
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
-- 
2.43.0


From 037509789073f0c0baaa2de0c0da2e55bf28d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 12/84] fix: don't repeat the blank lines before a thematic
 break that starts a block quote

'>\n> ---' became '>\n> \n> ---', and grew with every run.
---
 src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ec86f2d..e587ca0 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -817,8 +817,11 @@ where
                 Event::Rule => {
                     let reference_definition_range = self.last_position..range.start;
                     self.rewrite_reference_link_definitions(&reference_definition_range)?;
-                    let newlines = self.count_newlines(&range);
-                    self.write_newlines(newlines)?;
+                    if self.needs_indent {
+                        let newlines = self.count_newlines(&range);
+                        self.write_newlines(newlines)?;
+                        self.needs_indent = false;
+                    }
                     self.write_event_str(&event, self.input[range].trim_end())?;
                     self.check_needs_indent(&event)
                 }
-- 
2.43.0


From 9a6d86a53da394dce80a7dbb3ce5e127197eae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 13/84] fix: no trailing space on the blank line before link
 definitions that fill a block quote

'>\n> [ref]: /url' became '> \n> [ref]: /url'.
---
 src/formatter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e587ca0..0b5cdd4 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -936,8 +936,13 @@ where
                     Some((Event::End(TagEnd::BlockQuote(..)), _)) => {
                         let snippet = &self.input[range.clone()];
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
-                        if !link_defs.is_empty() {
-                            write!(self, "> ")?;
+                        if let Some(first_link_def) = link_defs.first() {
+                            let end = first_link_def.range().start;
+                            if count_newlines(&self.input[range.start..end]) > 0 {
+                                write!(self, ">")?;
+                            } else {
+                                write!(self, "> ")?;
+                            }
                             self.indentation.push("> ".into());
                             self.rewrite_reference_link_definitions_inner(link_defs)?;
                             // remove trailing space in case we're about to push newlines
-- 
2.43.0


From 2367310f8d130097bde7fed35e23895190aa4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 14/84] fix: don't wrap lines after the hyphens in a word

With `max_width` set, links such as `[x](/a-b-c)`, code spans and URLs were
broken up at their hyphens, which changes what the document means.
---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..f04bdba 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,6 +188,8 @@ impl Paragraph {
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
             .word_separator(textwrap::WordSeparator::AsciiSpace)
+            // Breaking after the hyphens in a word would also break up links and code spans.
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-- 
2.43.0


From 97198c8f4f8b478ffe03d10a52ca3bf3649cebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 15/84] fix: keep emphasis markers and hard breaks when
 reflowing text

`textwrap::unfill` takes a leading `*`, `-`, `#`, `+` or `>` for the comment
prefix of a line and removes it, so `**bold** text` lost its opening marker.
The soft breaks are replaced while writing, so there is nothing to unfill, and
the lines that are left end in hard breaks, which must stay.
---
 src/paragraph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index f04bdba..e35950f 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -141,9 +141,9 @@ impl WriteContext<'_> for Paragraph {
 
 impl Write for Paragraph {
     fn write_str(&mut self, s: &str) -> std::fmt::Result {
-        if self.max_width.is_some() && self.should_reflow_text && s.trim().is_empty() {
+        if self.max_width.is_some() && self.should_reflow_text && s == "\n" {
             // If the user configured the max_width and the reflow text option
-            // then push a space so we can reflow text
+            // then replace soft breaks with a space so we can reflow text
             self.buffer.push(' ');
         } else {
             self.buffer.push_str(s);
@@ -196,12 +196,9 @@ impl Paragraph {
 
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
-            let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
-            } else {
-                textwrap::fill(text, wrap_options.clone())
-            };
+            // When reflowing text the soft breaks were already replaced, so the only line breaks
+            // that are left are hard breaks.
+            let wrapped_text = textwrap::fill(text, wrap_options.clone());
             output_buffer.push_str(&wrapped_text);
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
-- 
2.43.0


From aeff19db856914652b6dd1f6c42ee2cf5cfc55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 16/84] fix: escape every tag name that starts an HTML block

The list of tag names lacked those of CommonMark's HTML block condition 6 that
are not in the other lists, such as details, and closing tags weren't considered.
---
 src/html.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 689685f..748cdba 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,6 +49,31 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
 /// Check if the given string starts with a well known HTML block tag name
@@ -59,6 +84,8 @@ pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
 
     // Combines HTML block condition 1 and 6
     let is_html_block_identifier = |value: &str| {
+        // condition 6 also includes closing tags
+        let value = value.strip_prefix('/').unwrap_or(value);
         HTML_BLOCK_TAG
             .iter()
             .any(|tag| tag.eq_ignore_ascii_case(value))
-- 
2.43.0


From 388e124ca97af70f7433c51f30fe2d7ab39af0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 17/84] fix: don't wrap text where the next line would start a
 block

Wrapping 'aaaa bbbb - cc' before the '-' turned the rest of the paragraph into
a list. The same goes for words such as '#', '1.', '>', '===' and '<div>', for
words that follow a `\`, which would become a hard break, and for spaces in
the destination of a link, where line breaks aren't allowed.
---
 src/paragraph.rs | 68 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index e35950f..d7635b3 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,5 @@
 use crate::escape::needs_escape;
+use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
@@ -7,7 +8,8 @@ use pulldown_cmark::{Event, LinkType, Tag};
 use regex::Regex;
 use std::fmt::Write;
 use std::sync::OnceLock;
-use textwrap::Options as TextWrapOptions;
+use textwrap::core::Word;
+use textwrap::{Options as TextWrapOptions, WordSeparator};
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
 
@@ -187,7 +189,7 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
-            .word_separator(textwrap::WordSeparator::AsciiSpace)
+            .word_separator(textwrap::WordSeparator::Custom(find_words))
             // Breaking after the hyphens in a word would also break up links and code spans.
             .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
@@ -209,6 +211,68 @@ impl Paragraph {
     }
 }
 
+/// Split a line into words that are separated by spaces, where words that can't be wrapped without
+/// changing the meaning of the text stay together.
+fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    let mut words = WordSeparator::AsciiSpace.find_words(line).peekable();
+    let mut end = 0;
+
+    Box::new(std::iter::from_fn(move || {
+        let start = end;
+        let mut word = words.next()?;
+        end += word.len() + word.whitespace.len();
+        let mut in_destination = starts_destination_with_spaces(&word, false);
+
+        while let Some(next) = words.peek() {
+            // A `\` at the end of a line is a hard break, and there can't be line breaks in `<>`
+            if !(in_destination || sequence_ends_on_escape(&word) || could_start_block(next)) {
+                break;
+            }
+            word = words.next()?;
+            end += word.len() + word.whitespace.len();
+            in_destination = starts_destination_with_spaces(&word, in_destination);
+        }
+
+        Some(Word::from(&line[start..end]))
+    }))
+}
+
+/// Determine if a link destination that's enclosed in `<>` continues after this word.
+fn starts_destination_with_spaces(word: &str, in_destination: bool) -> bool {
+    match word.rfind("](<") {
+        Some(start) => !word[start..].contains('>'),
+        None => in_destination && !word.contains('>'),
+    }
+}
+
+/// Determine if this word could be interpreted as the start of a block, or as the underline of a
+/// setext heading, if it were the first word on a line.
+fn could_start_block(word: &str) -> bool {
+    let is_list_number = |s: &str| {
+        s.strip_suffix(['.', ')'])
+            .is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
+    };
+    let is_html_block = |s: &str| {
+        let end = s.find(['>', '"', '\'', '=']).unwrap_or(s.len());
+        starts_with_html_block_identifier(s[..end].trim_end_matches('/'))
+    };
+
+    match word.as_bytes() {
+        [] => false,
+        [b'>', ..] => true,
+        [b'<', ..] => is_html_block(&word[1..]),
+        [b'[', b'^', ..] => word.contains("]:") || !word.contains(']'),
+        [b'0'..=b'9', ..] => is_list_number(word),
+        [b'`' | b'~', ..] => word.starts_with("```") || word.starts_with("~~~"),
+        [b'|', ..] => true,
+        // Lists, headings, thematic breaks, and the delimiter row of tables
+        _ => ['#', '=', '+', '*', '_']
+            .iter()
+            .any(|marker| word.chars().all(|c| c == *marker))
+            || word.chars().all(|c| matches!(c, '-' | ':' | '|')),
+    }
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From fe13dcb0343e590c4148c47c6a10f394ef05c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 18/84] fix: count the indentation of footnotes towards the
 width of their content

Paragraphs in a footnote definition exceeded `max_width` by the four columns
that the definition is indented by, and code block formatters were told that
there's no indentation.
---
 src/footnote.rs  |  5 +++++
 src/formatter.rs | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..31c5fb8 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -30,6 +30,11 @@ impl FootnoteDefinition {
         self.buffer.is_empty()
     }
 
+    /// Get the length of the indentation that the content of the footnote definition will have
+    pub(super) fn indentation_len(&self) -> usize {
+        self.indentation.iter().map(|i| i.len()).sum::<usize>() + FOOTNOTE_INDENTATION.len()
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
         (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
diff --git a/src/formatter.rs b/src/formatter.rs
index 0b5cdd4..4fa95f0 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -269,7 +269,17 @@ where
 
     /// Get the length of the indentation
     fn indentation_len(&self) -> usize {
-        self.indentation.iter().map(|i| i.len()).sum()
+        // Footnote definitions hold on to the indentation of the containers that they're nested in,
+        // and their content gets indented after it's been written.
+        let footnote_indentation: usize = self
+            .writers
+            .iter()
+            .map(|writer| match writer {
+                MarkdownWriter::FootnoteDefinition(footnote) => footnote.indentation_len(),
+                _ => 0,
+            })
+            .sum();
+        footnote_indentation + self.indentation.iter().map(|i| i.len()).sum::<usize>()
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
-- 
2.43.0


From 7972f22c285feeba295e39e80e55fce85a71b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 19/84] fix: escape text that would start an ordered list after
 a line break

Indented by four or more columns '1. b' continues a paragraph, but the
formatter removes that indentation, which turned the line into a list.
---
 src/escape.rs    | 12 ++++++++++++
 src/formatter.rs | 17 +++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bb91906..5fbf2ff 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -143,6 +143,18 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Get the length of the number if this text looks like a list item that interrupts a paragraph.
+/// Only lists that start at 1 and that aren't empty can do that.
+pub(crate) fn list_number_that_interrupts_paragraph(input: &str) -> Option<usize> {
+    let len = input.bytes().take_while(u8::is_ascii_digit).count();
+    let (number, rest) = input.split_at(len);
+    let content = rest.strip_prefix(['.', ')'])?;
+    let is_list_item = len <= 9
+        && number.trim_start_matches('0') == "1"
+        && content.starts_with([' ', '\t']);
+    is_list_item.then_some(len)
+}
+
 /// Represents text that looks like another Markdown construct that the formatter should escape
 /// in order to preserve the meaning of the input after formatting.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/src/formatter.rs b/src/formatter.rs
index 4fa95f0..5031126 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,6 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
+use crate::escape::list_number_that_interrupts_paragraph;
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -751,8 +752,20 @@ where
                             sequence_ends_on_escape(last_line)
                         };
 
-                    match needs_escape {
-                        Some(escape_kind)
+                    // Prevent the next pass from interpreting this as an ordered list
+                    let list_number = if self.last_was_line_break() && !starts_with_escape {
+                        list_number_that_interrupts_paragraph(text)
+                    } else {
+                        None
+                    };
+
+                    match (list_number, needs_escape) {
+                        (Some(number_len), _) => {
+                            let (number, rest) = text.split_at(number_len);
+                            write_context!(self, &event, "{number}")?;
+                            write_context!(self, Escape, "\\{rest}")?;
+                        }
+                        (None, Some(escape_kind))
                             if escape_kind.multi_character_escape() && !starts_with_escape =>
                         {
                             let marker = escape_kind.marker();
-- 
2.43.0


From b2ff39db8c69472b40039116fe454de6fa2df6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 20/84] fix: don't wrap the text inside of a task list marker

With a small `max_width` the '[ ]' of a task was broken up into two lines.
---
 src/paragraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index d7635b3..e566b4d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -224,8 +224,14 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
         let mut in_destination = starts_destination_with_spaces(&word, false);
 
         while let Some(next) = words.peek() {
-            // A `\` at the end of a line is a hard break, and there can't be line breaks in `<>`
-            if !(in_destination || sequence_ends_on_escape(&word) || could_start_block(next)) {
+            // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, and the
+            // space in `[ ]` is what makes it a task list marker.
+            let is_task_list_marker = word.ends_with('[') && next.starts_with(']');
+            if !(in_destination
+                || is_task_list_marker
+                || sequence_ends_on_escape(&word)
+                || could_start_block(next))
+            {
                 break;
             }
             word = words.next()?;
-- 
2.43.0


From 255320a3ab77ccb8b2a22b173cee0caadceafe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 21/84] fix: start lists at their marker when a tab before them
 follows a blank line

The parser reports such a list from the line ending before the tab, and the formatter put the first
block of its first item on a line of its own: '1.  a\n\n\t\t* b'.
---
 src/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5031126..b100fd2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -83,7 +83,11 @@ impl MarkdownFormatter {
                     Event::Start(Tag::List(_) | Tag::Item)
                         | Event::End(TagEnd::List(_) | TagEnd::Item)
                 ) {
-                    let list = input[range.clone()].trim_start_matches([' ', '\t', '>']);
+                    let before = input[..range.start].rsplit('\n').next().unwrap_or("");
+                    let after_blank_line = before.trim_matches([' ', '\t', '>']).is_empty();
+                    let list = input[range.clone()].trim_start_matches(|c| {
+                        matches!(c, ' ' | '\t' | '>') || (after_blank_line && c == '\n')
+                    });
                     range.start = range.end - list.len();
                 }
                 (event, range)
-- 
2.43.0


From 6b66eec65d05e7412ec3d12b8e1f21e804755c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 22/84] fix: blank lines were added to HTML blocks with CRLF
 line endings in lists and quotes

'* <div>\r\n  text\r\n  </div>\r\n' came out with a blank line after each line, which ends the block.
---
 src/formatter.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index b100fd2..888cb1e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -64,6 +64,15 @@ impl MarkdownFormatter {
     /// assert_eq!(rewrite, String::from("# Header!"));
     /// ```
     pub fn format(&self, input: &str) -> Result<String, std::fmt::Error> {
+        // The output only has LF line endings. The parser splits the lines of some events at the CR
+        // of a CRLF line ending, so leave it out from the start.
+        let input = if input.contains("\r\n") {
+            Cow::from(input.replace("\r\n", "\n"))
+        } else {
+            Cow::from(input)
+        };
+        let input = input.as_ref();
+
         // callback that will always revcover broken links
         let mut callback = |broken_link| {
             tracing::trace!("found boken link: {broken_link:?}");
-- 
2.43.0


From 9020eb9bd180ec169320e08d76ed70a4950de2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 23/84] fix: drop container prefixes from the destination and
 title of a link

The '> ' of a block quote was taken for a part of the link when its destination and title are on
different lines: '> [a](/url\n> "t")' became '> [a](/url\n> > "t")', which is no link anymore.
---
 src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 888cb1e..2530671 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1589,8 +1589,13 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // The destination and title might be on different lines
+                        let rest = split_lines(rest)
+                            .enumerate()
+                            .map(|(i, l)| if i == 0 { l } else { self.trim_leading_indentation(l) })
+                            .join("\n");
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(rest)
+                            crate::links::find_inline_url_and_title(&rest)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
-- 
2.43.0


From e471a1ab6a5b9689e0b5dd58fba44999cb0df1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 24/84] fix: don't wrap after what would be a block of its own
 at the start of a paragraph

With nothing else on its line '<b>' starts an HTML block, and '[bar]: /url' is a link reference
definition: '<b> alpha' and '[bar]: /url alpha' changed their meaning with a small max_width.
---
 src/paragraph.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index e566b4d..9990406 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -200,8 +200,21 @@ impl Paragraph {
             let has_next = split_on_hard_breaks.peek().is_some();
             // When reflowing text the soft breaks were already replaced, so the only line breaks
             // that are left are hard breaks.
-            let wrapped_text = textwrap::fill(text, wrap_options.clone());
-            output_buffer.push_str(&wrapped_text);
+            if output_buffer.is_empty() {
+                let (first_line, rest) = match text.find('\n') {
+                    Some(line_end) => text.split_at(line_end),
+                    None => (text, ""),
+                };
+                let separator = WordSeparator::Custom(find_words_in_first_line);
+                let first_line_options = wrap_options.clone().word_separator(separator);
+                output_buffer.push_str(&textwrap::fill(first_line, first_line_options));
+                if let Some(rest) = rest.strip_prefix('\n') {
+                    output_buffer.push('\n');
+                    output_buffer.push_str(&textwrap::fill(rest, wrap_options.clone()));
+                }
+            } else {
+                output_buffer.push_str(&textwrap::fill(text, wrap_options.clone()));
+            }
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
             }
@@ -214,6 +227,27 @@ impl Paragraph {
 /// Split a line into words that are separated by spaces, where words that can't be wrapped without
 /// changing the meaning of the text stay together.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    find_words_after(line, 0)
+}
+
+/// Same as `find_words`, but keeps what would be a block of its own at the start of a paragraph on
+/// the same line as the text that follows it.
+fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
+    let end = BLOCK_IF_ALONE_REGEX
+        .get_or_init(|| {
+            // A link reference definition, or an HTML tag
+            // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
+            Regex::new(r"^(\[[^\]]+\]:\s*(<[^>]*>|\S+)|</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>)\s+")
+                .expect("valid regex")
+        })
+        .find(line)
+        .map_or(0, |m| m.end());
+    find_words_after(line, end)
+}
+
+/// Find words with no break before the given position.
+fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut words = WordSeparator::AsciiSpace.find_words(line).peekable();
     let mut end = 0;
 
@@ -227,7 +261,8 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
             // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, and the
             // space in `[ ]` is what makes it a task list marker.
             let is_task_list_marker = word.ends_with('[') && next.starts_with(']');
-            if !(in_destination
+            if !(end <= min_end
+                || in_destination
                 || is_task_list_marker
                 || sequence_ends_on_escape(&word)
                 || could_start_block(next))
-- 
2.43.0


From 2fba7c5e62ddf02cfa0c9d7559063cc36ee23a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 25/84] fix: don't wrap after a task list marker

The text has to be on the same line as its marker, a paragraph below the marker is not a part of the
task, and formatting it again added a blank line: '* [ ] alpha' with a max_width of 3.
---
 src/paragraph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 9990406..1f59bd1 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -236,9 +236,12 @@ fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '
     static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
     let end = BLOCK_IF_ALONE_REGEX
         .get_or_init(|| {
-            // A link reference definition, or an HTML tag
+            // A link reference definition, an HTML tag, or a task list marker
             // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
-            Regex::new(r"^(\[[^\]]+\]:\s*(<[^>]*>|\S+)|</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>)\s+")
+            let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
+            let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
+            let task_list_marker = r"\[[ xX]\]";
+            Regex::new(&format!(r"^({definition}|{html_tag}|{task_list_marker})\s+"))
                 .expect("valid regex")
         })
         .find(line)
-- 
2.43.0


From 3d49a3788d20aea210406aabe96c44534fed1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 26/84] fix: strip the indentation of footnotes from links,
 code spans and tags that span lines

The indentation of the second line of a code span or tag grew by four columns every time a footnote
definition was formatted ('[^1]: a `x\n    y` b'), and in a block quote a '> ' became text.
---
 src/footnote.rs  |  8 ++++++++
 src/formatter.rs | 24 +++++++++++++-----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 31c5fb8..8313992 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -35,6 +35,14 @@ impl FootnoteDefinition {
         self.indentation.iter().map(|i| i.len()).sum::<usize>() + FOOTNOTE_INDENTATION.len()
     }
 
+    /// The indentation that the content of the footnote definition will have
+    pub(super) fn content_indentation(&self) -> impl Iterator<Item = &str> {
+        self.indentation
+            .iter()
+            .map(|i| i.as_ref())
+            .chain(std::iter::once(FOOTNOTE_INDENTATION))
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
         (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
diff --git a/src/formatter.rs b/src/formatter.rs
index 2530671..bce1b73 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -487,17 +487,19 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        // Headers hold on to the indentation of the containers that they're nested in.
-        let taken_indentation = self
-            .writers
-            .iter()
-            .rev()
-            .find_map(|writer| match writer {
-                MarkdownWriter::Header(header) => Some(header.indentation()),
-                _ => None,
-            })
-            .unwrap_or_default();
-        for indent in taken_indentation.iter().chain(self.indentation.iter()) {
+        // Footnote definitions and headers hold on to the indentation of the containers that
+        // they're nested in.
+        let taken_indentation = self.writers.iter().flat_map(|writer| match writer {
+            MarkdownWriter::FootnoteDefinition(footnote) => {
+                footnote.content_indentation().collect::<Vec<_>>()
+            }
+            MarkdownWriter::Header(header) => {
+                header.indentation().iter().map(|i| i.as_ref()).collect()
+            }
+            _ => vec![],
+        });
+        let indentation = self.indentation.iter().map(|i| i.as_ref());
+        for indent in taken_indentation.chain(indentation) {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
-- 
2.43.0


From 1a15ffcf2b3763bd05791b09028700a560043f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 27/84] fix: don't wrap a paragraph inside the code span of
 three backticks it starts with

The first line would open a fenced code block: '```alpha beta``` gamma' with a max_width of 10.
---
 src/paragraph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 1f59bd1..07354b2 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -236,13 +236,17 @@ fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '
     static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
     let end = BLOCK_IF_ALONE_REGEX
         .get_or_init(|| {
-            // A link reference definition, an HTML tag, or a task list marker
+            // A link reference definition, an HTML tag, a task list marker, or the backticks of a
+            // code span, which would open a fenced code block
             // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
             let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
             let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
             let task_list_marker = r"\[[ xX]\]";
-            Regex::new(&format!(r"^({definition}|{html_tag}|{task_list_marker})\s+"))
-                .expect("valid regex")
+            let code_span = r"```+[^`]+`\S*";
+            Regex::new(&format!(
+                r"^({definition}|{html_tag}|{task_list_marker}|{code_span})(\s+|$)"
+            ))
+            .expect("valid regex")
         })
         .find(line)
         .map_or(0, |m| m.end());
-- 
2.43.0


From 7f6be3a9271d64cf9b92c5f1f418b2244c0ebea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 28/84] fix: keep the blank line after a footnote definition in
 a block quote

The parser counts the '>' of the blank line as part of the footnote, so what followed it moved up
('> [^1]: a\n>\n> b' made 'b' a part of the footnote), and consecutive footnotes in a container
were separated with trailing white space and blank lines that grew in lists.
---
 src/formatter.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index bce1b73..79be092 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -687,6 +687,15 @@ where
                         last_position = self.last_position;
                     }
                     self.end_tag(*tag, range.clone())?;
+                    if matches!(tag, TagEnd::FootnoteDefinition) {
+                        // The same goes for the range of a footnote definition.
+                        last_position = if self.last_position > range.start {
+                            self.last_position
+                        } else {
+                            let label = self.input[range.clone()].find("]:");
+                            label.map_or(last_position, |end| range.start + end + "]:".len())
+                        };
+                    }
                     self.check_needs_indent(&event);
                 }
                 Event::Text(ref parsed_text) => {
@@ -1239,7 +1248,11 @@ where
                 self.rewrite_reference_link_definitions_inner(link_defs)?;
             }
             Tag::FootnoteDefinition(ref label) => {
-                let newlines = self.count_newlines(&range);
+                let mut newlines = self.count_newlines(&range);
+                if let Some((Event::End(TagEnd::FootnoteDefinition), _)) = self.last_event {
+                    // separte consecutive footnote definitinons by at least one newline
+                    newlines = newlines.max(1);
+                }
                 self.write_newlines(newlines)?;
 
                 // Anchor the last_position at the start of the footnote definition. This prevents
@@ -1529,11 +1542,6 @@ where
                     self.join_with_indentation(&buffer, true)?;
                     self.indentation.pop();
                 }
-
-                if let Some(Event::Start(Tag::FootnoteDefinition(_))) = self.peek() {
-                    // separte consecutive footnote definitinons by at least one line
-                    self.write_newlines(1)?;
-                };
             }
             TagEnd::Emphasis => {
                 rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
-- 
2.43.0


From fe625d080187ed50484de168b1c33c69d6a6814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 29/84] fix: count the newlines at the end of a footnote, not
 of what precedes it

A blank line with white space between the items of a list in a footnote was doubled:
'[^1]: * a\n \n    * b'.
---
 src/footnote.rs  | 5 +++++
 src/formatter.rs | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 8313992..d06838c 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -30,6 +30,11 @@ impl FootnoteDefinition {
         self.buffer.is_empty()
     }
 
+    /// Get what has been written to the internal buffer
+    pub(super) fn as_str(&self) -> &str {
+        &self.buffer
+    }
+
     /// Get the length of the indentation that the content of the footnote definition will have
     pub(super) fn indentation_len(&self) -> usize {
         self.indentation.iter().map(|i| i.len()).sum::<usize>() + FOOTNOTE_INDENTATION.len()
diff --git a/src/formatter.rs b/src/formatter.rs
index 79be092..8f1d2ca 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -389,8 +389,11 @@ where
         if self.is_current_buffer_empty() {
             return Ok(());
         }
-        let newlines = self
-            .rewrite_buffer
+        let buffer = match self.writers.last() {
+            Some(MarkdownWriter::FootnoteDefinition(footnote)) => footnote.as_str(),
+            _ => &self.rewrite_buffer,
+        };
+        let newlines = buffer
             .chars()
             .rev()
             .take_while(|c| *c == '\n' || *c == '\r')
-- 
2.43.0


From 06743685336d50a1bee03c0387e2d679ca729f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 30/84] fix: lengthen the code fence when a line of the code
 would close the code block

Removing the indentation of the opening fence from the code, or rewriting the code, could turn
a line of it into a closing fence: ' ```\n    ```\n'.
---
 src/formatter.rs | 94 +++++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 53 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8f1d2ca..93ba3f8 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -596,14 +596,9 @@ where
 
     fn format_code_buffer(
         &mut self,
-        info_string: Option<&str>,
+        info_string: &str,
         unformatted_code: String,
     ) -> String {
-        let Some(info_string) = info_string else {
-            // An indented code block won't have an info_string
-            return unformatted_code;
-        };
-
         // To prepare for a nested code block that might recursively call into the markdown
         // formatter we should get a snapshot of the width and update it for the nested context.
         let indentation = self.indentation_len();
@@ -632,27 +627,51 @@ where
         rewrite
     }
 
-    fn write_code_block_buffer(
+    fn write_fenced_code_block(
         &mut self,
-        info_string: Option<&str>,
+        info_string: &str,
         unformatted_code: String,
+        range: &Range<usize>,
     ) -> std::fmt::Result {
         let code = self.format_code_buffer(info_string, unformatted_code);
 
-        if code.trim().is_empty() && info_string.is_some() {
-            // The code fence is empty, and a newline should already ahve been added
-            // when pushing the opening code fence, so just return.
-            return Ok(());
+        let marker_char = self.input[range.start..]
+            .chars()
+            .next()
+            .expect("should have found a ` or ~");
+        let marker = find_marker(self.input, range, |c| c != marker_char);
+
+        // A line of the code must not close the code block. That could happen when removing the
+        // indentation from the line or when the code got rewritten.
+        let fence_len = code
+            .lines()
+            .filter(|line| line.find(|c| c != ' ').is_some_and(|indent| indent < 4))
+            .map(|line| line.trim_start_matches(' ').trim_end())
+            .filter(|line| line.chars().all(|c| c == marker_char))
+            .map(|line| line.len() + 1)
+            .fold(marker.len(), std::cmp::max);
+        let fence = marker_char.to_string().repeat(fence_len);
+
+        self.write_str(&fence)?;
+        if !info_string.is_empty() {
+            let opening_line = self.input[range.clone()].lines().next().unwrap_or_default();
+            let source_info_string = opening_line.trim_start_matches(marker_char);
+            if source_info_string.starts_with(char::is_whitespace) {
+                self.write_str(" ")?;
+            }
+            self.write_str(source_info_string.trim())?;
         }
+        writeln!(self)?;
 
-        self.join_with_indentation(&code, info_string.is_some())?;
-
-        if info_string.is_some() {
+        if !code.trim().is_empty() {
+            self.join_with_indentation(&code, true)?;
             // In preparation for the closing code fence write a newline.
-            writeln!(self)?
+            writeln!(self)?;
         }
 
-        Ok(())
+        // write closing code fence
+        self.write_indentation(false)?;
+        self.write_str(&fence)
     }
 
     /// The main entry point for markdown formatting.
@@ -1067,37 +1086,9 @@ where
                 let capacity = (range.end - range.start) * 2;
                 let code_block_buffer = String::with_capacity(capacity);
                 match &kind {
-                    CodeBlockKind::Fenced(info_string) => {
-                        rewrite_marker(self.input, &range, self)?;
-
-                        if info_string.is_empty() {
-                            writeln!(self)?;
-                            let writer = MarkdownWriter::CodeBlock((code_block_buffer, kind));
-                            self.writers.push(writer);
-                            return Ok(());
-                        }
-
-                        let marker_char = self.input[range.start..]
-                            .chars()
-                            .next()
-                            .expect("should have found a ` or ~");
-
-                        let starts_with_space = self.input[range.clone()]
-                            .trim_start_matches(marker_char)
-                            .starts_with(char::is_whitespace);
-
-                        let info_string = self.input[range]
-                            .lines()
-                            .next()
-                            .unwrap_or_else(|| info_string.as_ref())
-                            .trim_start_matches(marker_char)
-                            .trim();
-
-                        if starts_with_space {
-                            writeln!(self, " {info_string}")?;
-                        } else {
-                            writeln!(self, "{info_string}")?;
-                        }
+                    CodeBlockKind::Fenced(_) => {
+                        // The opening code fence is written along with the code, since it's the
+                        // code that determines how long the fence must be.
                     }
                     CodeBlockKind::Indented => {
                         // TODO(ytmimi) support tab as an indent
@@ -1472,14 +1463,11 @@ where
 
                 match kind {
                     CodeBlockKind::Fenced(info_string) => {
-                        self.write_code_block_buffer(Some(info_string.as_ref()), code_block)?;
-                        // write closing code fence
-                        self.write_indentation(false)?;
-                        rewrite_marker(self.input, &range, self)?;
+                        self.write_fenced_code_block(&info_string, code_block, &range)?;
                     }
                     CodeBlockKind::Indented => {
                         // Maybe we'll consider formatting indented code blocks??
-                        self.write_code_block_buffer(None, code_block)?;
+                        self.join_with_indentation(&code_block, false)?;
 
                         let popped_indentation = self
                             .indentation
-- 
2.43.0


From c0d75cec78b924909f7c70db2d7b5cb7ab9575d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 31/84] fix: keep blank lines and partially consumed tabs of
 HTML blocks in containers

Blank lines of an HTML block in a list item were doubled on each pass and got trailing
white space ('* <pre>\n\n  a\n  </pre>'), and the line after a tab that follows the prefix
of a container was joined to the line before it ('> <div>\n>\ta\n> </div>') or, in a list
item, separated from it as a paragraph of its own.
---
 src/adapters/loose_list.rs |  5 -----
 src/formatter.rs           | 30 +++++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 19f4092..8c1a73e 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -258,11 +258,6 @@ where
                     }
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
-                    self.stashed_events
-                        .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
-                }
                 _ => {
                     self.stashed_events
                         .push_back((current_event, current_range.clone()));
diff --git a/src/formatter.rs b/src/formatter.rs
index 93ba3f8..043558c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -229,7 +229,10 @@ where
         self.needs_indent = match self.peek() {
             Some(Event::Start(_) | Event::Rule | Event::Html(_) | Event::End(TagEnd::Item)) => true,
             Some(Event::End(TagEnd::BlockQuote(..))) => matches!(event, Event::End(_)),
-            Some(Event::Text(_)) => matches!(event, Event::End(_) | Event::Start(Tag::Item)),
+            Some(Event::Text(_)) => matches!(
+                event,
+                Event::End(_) | Event::Start(Tag::Item) | Event::Html(_)
+            ),
             _ => matches!(event, Event::Rule),
         };
     }
@@ -720,6 +723,14 @@ where
                     }
                     self.check_needs_indent(&event);
                 }
+                Event::Text(ref spaces)
+                    if self.in_html_block()
+                        && spaces.trim().is_empty()
+                        && matches!(self.peek(), Some(Event::Html(h)) if h.trim().is_empty()) =>
+                {
+                    // The rest of a tab on a blank line of an HTML block
+                    last_position = self.last_position;
+                }
                 Event::Text(ref parsed_text) => {
                     last_position = range.end;
                     let current_input_snippet = &self.input[..range.start];
@@ -875,13 +886,18 @@ where
                     self.write_event_str(&event, hard_break)?;
                 }
                 Event::Html(_) => {
-                    let newlines = self.count_newlines(&range);
-                    if self.needs_indent {
-                        self.write_newlines(newlines)?;
+                    let snippet = self.input[range.clone()].trim_end();
+                    if snippet.is_empty() {
+                        // Blank lines get counted along with the line break before whatever is next
+                        last_position = self.last_position;
+                    } else {
+                        let newlines = self.count_newlines(&range);
+                        if self.needs_indent {
+                            self.write_newlines(newlines)?;
+                        }
+                        self.write_event_str(&event, snippet)?;
+                        self.check_needs_indent(&event);
                     }
-                    let snippet = &self.input[range].trim_end();
-                    self.write_event_str(&event, snippet)?;
-                    self.check_needs_indent(&event);
                 }
                 Event::Rule => {
                     let reference_definition_range = self.last_position..range.start;
-- 
2.43.0


From d29531708509f1de1c80f86d09fd21b7de9110bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 32/84] fix: a backslash at the end of a line escapes nothing
 in definitions

'[a]: /u "b\' with the closing quote on the next line swallowed the definitions that
follow, or was lost.
---
 src/links.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index ff69625..a1192c5 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -463,12 +463,12 @@ impl<'a> LinkLines<'a> {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
         // right now everything gets formatted on a single line.
-        let mut iter = self.iter().peekable();
-        while let Some(text) = iter.next().map(|t| t.trim()) {
-            if text.is_empty() {
-                continue;
-            }
-
+        let mut iter = self
+            .iter()
+            .map(|t| t.trim())
+            .filter(|t| !t.is_empty())
+            .peekable();
+        while let Some(text) = iter.next() {
             let is_last = iter.peek().is_none();
             if !is_last {
                 write!(buffer, "{text} ")?;
@@ -573,6 +573,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
+                    // A `\` only escapes what follows it on the same line
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the label
                     if iter.peek().is_some_and(|(_, c)| *c != ']') {
                         tracing::trace!(
@@ -734,6 +736,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
+                    // A `\` only escapes what follows it on the same line
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the title
                     if iter.peek().is_some_and(|(_, c)| *c != marker.closer()) {
                         tracing::trace!(
-- 
2.43.0


From 850eb899597b62bd580d0941931aa1a947578c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 33/84] fix: align table cells with characters that are made of
 several code points

Cells were padded by the number of chars, with a correction for wide characters only, so
columns with combining characters or zero width characters were not aligned.
---
 src/table.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..8c494ad 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -3,7 +3,6 @@ use itertools::{EitherOrBoth, Itertools};
 use pulldown_cmark::Alignment;
 use std::borrow::Cow;
 use std::fmt::Write;
-use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, PartialEq)]
 pub(super) struct TableState<'a> {
@@ -143,12 +142,10 @@ impl<'a> TableState<'a> {
         Ok(result)
     }
 
-    fn write_wth_padding(buffer: &mut String, value: &str, mut size: usize) -> std::fmt::Result {
-        let offset = UnicodeSegmentation::graphemes(value, true)
-            .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
-            .sum();
-        size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+    fn write_wth_padding(buffer: &mut String, value: &str, size: usize) -> std::fmt::Result {
+        // The padding of format strings goes by the number of chars, not by their width
+        let padding = size.saturating_sub(unicode_str_width(value));
+        write!(buffer, " {value}{:padding$} |", "")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
-- 
2.43.0


From a223fdcc9276cfc16df9c22825e6217488a79efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 34/84] fix: only treat what is whitespace in Markdown as
 whitespace

---
 src/escape.rs    | 19 +++++++++----
 src/formatter.rs | 71 +++++++++++++++++++++++++++---------------------
 src/header.rs    | 29 ++++++++++++--------
 src/links.rs     | 38 ++++++++++++++++----------
 src/list.rs      |  3 +-
 src/paragraph.rs | 16 ++++++-----
 src/utils.rs     | 13 +++++++--
 7 files changed, 114 insertions(+), 75 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 5fbf2ff..5c5e83d 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -1,5 +1,6 @@
 use super::formatter::FormatState;
 use crate::list::UnorderedListMarker;
+use crate::utils::is_whitespace;
 use pulldown_cmark::Event;
 
 impl<'i, I> FormatState<'i, '_, I>
@@ -53,7 +54,7 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
                 continue;
             }
 
-            if c.is_whitespace() {
+            if is_whitespace(c) {
                 whitespace_after_marker = true;
             }
 
@@ -65,7 +66,12 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
         leading_marker_count <= max_marker_count && (whitespace_after_marker || empty_marker())
     };
     let is_atx_heading = || marker_with_optional_trailing_space(6, '#');
-    let is_setext_heading = |value: u8| input.trim_end().bytes().all(|b| b == value);
+    let is_setext_heading = |value: u8| {
+        input
+            .trim_end_matches(is_whitespace)
+            .bytes()
+            .all(|b| b == value)
+    };
     let is_unordered_list_marker = |value: char| marker_with_optional_trailing_space(1, value);
     let is_thematic_break = |value: u8| {
         input.bytes().all(|b| b == value || b == b' ')
@@ -81,7 +87,9 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return false;
         }
 
-        let info_string = input.trim_start_matches(marker).trim_start();
+        let info_string = input
+            .trim_start_matches(marker)
+            .trim_start_matches(is_whitespace);
 
         if info_string.is_empty() {
             return true;
@@ -149,9 +157,8 @@ pub(crate) fn list_number_that_interrupts_paragraph(input: &str) -> Option<usize
     let len = input.bytes().take_while(u8::is_ascii_digit).count();
     let (number, rest) = input.split_at(len);
     let content = rest.strip_prefix(['.', ')'])?;
-    let is_list_item = len <= 9
-        && number.trim_start_matches('0') == "1"
-        && content.starts_with([' ', '\t']);
+    let is_list_item =
+        len <= 9 && number.trim_start_matches('0') == "1" && content.starts_with([' ', '\t']);
     is_list_item.then_some(len)
 }
 
diff --git a/src/formatter.rs b/src/formatter.rs
index 043558c..8574942 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -21,7 +21,8 @@ use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, count_trailing_spaces, get_spaces, sequence_ends_on_escape, split_lines,
+    count_newlines, count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape,
+    split_lines,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -344,7 +345,7 @@ where
         let last_non_complete_whitespace_indent = self
             .indentation
             .iter()
-            .rposition(|indent| !indent.chars().all(char::is_whitespace));
+            .rposition(|indent| !indent.chars().all(is_whitespace));
 
         let position = if trim_trailing_whiltespace {
             let Some(position) = last_non_complete_whitespace_indent else {
@@ -363,7 +364,7 @@ where
             let is_last = i == position;
 
             if is_last && trim_trailing_whiltespace {
-                self.write_str(indent.trim())?;
+                self.write_str(indent.trim_matches(is_whitespace))?;
             } else {
                 self.write_str(indent)?;
             }
@@ -464,19 +465,19 @@ where
         buffer: &str,
         start_with_indentation: bool,
     ) -> std::fmt::Result {
-        let mut lines = buffer.trim_end().lines().peekable();
+        let mut lines = buffer.trim_end_matches(is_whitespace).lines().peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
             let is_next_empty = lines
                 .peek()
-                .map(|l| l.trim().is_empty())
+                .map(|l| l.trim_matches(is_whitespace).is_empty())
                 .unwrap_or_default();
 
             if start_with_indentation {
-                self.write_indentation(line.trim().is_empty())?;
+                self.write_indentation(line.trim_matches(is_whitespace).is_empty())?;
             }
 
-            if !line.trim().is_empty() {
+            if !line.trim_matches(is_whitespace).is_empty() {
                 self.write_str(line)?;
             }
 
@@ -507,14 +508,14 @@ where
         let indentation = self.indentation.iter().map(|i| i.as_ref());
         for indent in taken_indentation.chain(indentation) {
             if indent.starts_with('>') {
-                output = output.trim_start();
+                output = output.trim_start_matches(is_whitespace);
                 output = output
                     .strip_prefix('>')
-                    .map(|o| o.strip_prefix(char::is_whitespace).unwrap_or(o))
+                    .map(|o| o.strip_prefix(is_whitespace).unwrap_or(o))
                     .unwrap_or(output);
             } else {
                 for _ in 0..indent.len() {
-                    output = output.strip_prefix(char::is_whitespace).unwrap_or(output);
+                    output = output.strip_prefix(is_whitespace).unwrap_or(output);
                 }
             }
         }
@@ -544,7 +545,7 @@ where
             let trailing_space_count = count_trailing_spaces(line);
             let trailing_spaces = get_spaces(trailing_space_count);
 
-            let line = line.trim_end();
+            let line = line.trim_end_matches(is_whitespace);
             let needs_escape = self.needs_escape(line, true);
 
             match needs_escape {
@@ -597,11 +598,7 @@ where
         }
     }
 
-    fn format_code_buffer(
-        &mut self,
-        info_string: &str,
-        unformatted_code: String,
-    ) -> String {
+    fn format_code_buffer(&mut self, info_string: &str, unformatted_code: String) -> String {
         // To prepare for a nested code block that might recursively call into the markdown
         // formatter we should get a snapshot of the width and update it for the nested context.
         let indentation = self.indentation_len();
@@ -649,7 +646,7 @@ where
         let fence_len = code
             .lines()
             .filter(|line| line.find(|c| c != ' ').is_some_and(|indent| indent < 4))
-            .map(|line| line.trim_start_matches(' ').trim_end())
+            .map(|line| line.trim_start_matches(' ').trim_end_matches(is_whitespace))
             .filter(|line| line.chars().all(|c| c == marker_char))
             .map(|line| line.len() + 1)
             .fold(marker.len(), std::cmp::max);
@@ -659,14 +656,14 @@ where
         if !info_string.is_empty() {
             let opening_line = self.input[range.clone()].lines().next().unwrap_or_default();
             let source_info_string = opening_line.trim_start_matches(marker_char);
-            if source_info_string.starts_with(char::is_whitespace) {
+            if source_info_string.starts_with(is_whitespace) {
                 self.write_str(" ")?;
             }
-            self.write_str(source_info_string.trim())?;
+            self.write_str(source_info_string.trim_matches(is_whitespace))?;
         }
         writeln!(self)?;
 
-        if !code.trim().is_empty() {
+        if !code.trim_matches(is_whitespace).is_empty() {
             self.join_with_indentation(&code, true)?;
             // In preparation for the closing code fence write a newline.
             writeln!(self)?;
@@ -725,8 +722,8 @@ where
                 }
                 Event::Text(ref spaces)
                     if self.in_html_block()
-                        && spaces.trim().is_empty()
-                        && matches!(self.peek(), Some(Event::Html(h)) if h.trim().is_empty()) =>
+                        && spaces.trim_matches(is_whitespace).is_empty()
+                        && matches!(self.peek(), Some(Event::Html(h)) if h.trim_matches(is_whitespace).is_empty()) =>
                 {
                     // The rest of a tab on a blank line of an HTML block
                     last_position = self.last_position;
@@ -886,7 +883,7 @@ where
                     self.write_event_str(&event, hard_break)?;
                 }
                 Event::Html(_) => {
-                    let snippet = self.input[range.clone()].trim_end();
+                    let snippet = self.input[range.clone()].trim_end_matches(is_whitespace);
                     if snippet.is_empty() {
                         // Blank lines get counted along with the line break before whatever is next
                         last_position = self.last_position;
@@ -907,7 +904,10 @@ where
                         self.write_newlines(newlines)?;
                         self.needs_indent = false;
                     }
-                    self.write_event_str(&event, self.input[range].trim_end())?;
+                    self.write_event_str(
+                        &event,
+                        self.input[range].trim_end_matches(is_whitespace),
+                    )?;
                     self.check_needs_indent(&event)
                 }
                 Event::FootnoteReference(ref text) => {
@@ -931,7 +931,7 @@ where
 
         let trailing_newline = self
             .input
-            .rfind(|c: char| !c.is_whitespace())
+            .rfind(|c: char| !is_whitespace(c))
             .is_some_and(|start| self.input[start..].contains(['\r', '\n']));
 
         self.rewrite_final_reference_links().map(|mut output| {
@@ -978,7 +978,7 @@ where
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
                 }
-                let full_header = self.input[range].trim();
+                let full_header = self.input[range].trim_matches(is_whitespace);
                 let header = Header::new(
                     // Take the indentaiton so that we don't accidentally write indentation into the
                     // headers for setext headers that may span multiple lines.
@@ -1128,7 +1128,7 @@ where
                     // wrong if it's preceded by a tab (\t) character
                     // See https://github.com/pulldown-cmark/pulldown-cmark/issues/983
                     let snippet = &self.input[range.clone()];
-                    let special_case_list_start = snippet.starts_with(char::is_whitespace);
+                    let special_case_list_start = snippet.starts_with(is_whitespace);
 
                     // Extra check to keep the output idempotent when we've got a nested list.
                     // Depending on how things get formated we might accidentally parse the
@@ -1194,7 +1194,8 @@ where
                 let (empty_list_item, link_defs) = match self.events.peek() {
                     Some((Event::End(TagEnd::Item), _)) => {
                         let snippet = &self.input[range.clone()];
-                        let just_list_marker = snippet.trim().len() == list_marker.len();
+                        let just_list_marker =
+                            snippet.trim_matches(is_whitespace).len() == list_marker.len();
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
@@ -1416,7 +1417,7 @@ where
                     };
 
                     if buffer.is_empty() {
-                        write!(self, "{}", atx_header.trim())?;
+                        write!(self, "{}", atx_header.trim_matches(is_whitespace))?;
                     } else {
                         write!(self, "{atx_header} ")?;
                     }
@@ -1609,7 +1610,13 @@ where
                         // The destination and title might be on different lines
                         let rest = split_lines(rest)
                             .enumerate()
-                            .map(|(i, l)| if i == 0 { l } else { self.trim_leading_indentation(l) })
+                            .map(|(i, l)| {
+                                if i == 0 {
+                                    l
+                                } else {
+                                    self.trim_leading_indentation(l)
+                                }
+                            })
                             .join("\n");
                         if let Some((source_url, title_and_quote)) =
                             crate::links::find_inline_url_and_title(&rest)
@@ -1682,7 +1689,9 @@ where
             TagEnd::MetadataBlock(_meta) => {
                 // The parser also reports a metadata block when a container ends before the closing
                 // delimiter is found. Don't come up with a delimiter that's not in the input.
-                let mut lines = self.input[range.clone()].trim_end().lines();
+                let mut lines = self.input[range.clone()]
+                    .trim_end_matches(is_whitespace)
+                    .lines();
                 let opening = lines.next().map(str::trim_end);
                 let closing = lines.last();
                 if closing == opening || closing == Some("...") {
diff --git a/src/header.rs b/src/header.rs
index 9074c46..87c1945 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,5 +1,5 @@
 use crate::escape::needs_escape;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
 use std::borrow::Cow;
@@ -84,8 +84,8 @@ impl<'i> Header<'i> {
                     })
                     .map(|marker| {
                         marker
-                            .trim_start_matches(|c: char| c.is_whitespace() || c == '>')
-                            .trim_end()
+                            .trim_start_matches(|c: char| is_whitespace(c) || c == '>')
+                            .trim_end_matches(is_whitespace)
                     })
             } else {
                 None
@@ -94,7 +94,7 @@ impl<'i> Header<'i> {
         let attrs_on_own_line = full_header
             .lines()
             .rev()
-            .map(|l| l.trim_start_matches(|c: char| c.is_whitespace() || c == '>'))
+            .map(|l| l.trim_start_matches(|c: char| is_whitespace(c) || c == '>'))
             .any(|l| l.starts_with('{'));
 
         let kind = match (level, header_marker) {
@@ -139,7 +139,9 @@ impl<'i> Header<'i> {
     pub(super) fn into_parts(
         mut self,
     ) -> Result<(String, Vec<Cow<'static, str>>), std::fmt::Error> {
-        if matches!(self.kind(), HeaderKind::Atx(_)) && self.buffer.trim_end().ends_with('#') {
+        if matches!(self.kind(), HeaderKind::Atx(_))
+            && self.buffer.trim_end_matches(is_whitespace).ends_with('#')
+        {
             if self.has_attributes() {
                 // Make sure we properly escape trailing `#` at the end of the header.
                 // Otherwise our formatting might not be idempotent
@@ -157,16 +159,19 @@ impl<'i> Header<'i> {
     }
 
     fn remove_trailing_hashtags(&mut self) {
-        let snippet = self.buffer.trim_end().trim_end_matches('#');
+        let snippet = self
+            .buffer
+            .trim_end_matches(is_whitespace)
+            .trim_end_matches('#');
         let is_escaped = sequence_ends_on_escape(snippet);
-        let no_spaces = !snippet.ends_with(char::is_whitespace);
+        let no_spaces = !snippet.ends_with(is_whitespace);
         if is_escaped || (no_spaces && !snippet.is_empty()) {
             return;
         }
 
         while self
             .buffer
-            .ends_with(|c: char| c.is_whitespace() || c == '#')
+            .ends_with(|c: char| is_whitespace(c) || c == '#')
         {
             self.buffer.pop();
         }
@@ -175,7 +180,7 @@ impl<'i> Header<'i> {
     // Note: Should only call this after we determine that we need to escape trailing hashtags
     fn escape_trailing_hashtag(&mut self) {
         // Get rid of any trailing whitespace after the `#`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
@@ -212,7 +217,7 @@ impl<'i> Header<'i> {
 
     fn escape_trailing_empty_attribute_brackets(&mut self) {
         // Get rid of any trailing whitespace after the `{}`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
@@ -229,7 +234,7 @@ impl<'i> Header<'i> {
         let mut iter = self.buffer[last_line_start_index..]
             .chars()
             .rev()
-            .filter(|c| !c.is_whitespace())
+            .filter(|c| !is_whitespace(*c))
             .take(2);
 
         let has_empty_attr_brackets =
@@ -301,7 +306,7 @@ impl<'i> Header<'i> {
             if matches!(iter.next(), Some(b'}')) && matches!(iter.next(), Some(b'{')) {
                 while self
                     .buffer
-                    .ends_with(|c: char| (c.is_whitespace() && c != '\n') || matches!(c, '{' | '}'))
+                    .ends_with(|c: char| (is_whitespace(c) && c != '\n') || matches!(c, '{' | '}'))
                 {
                     self.buffer.pop();
                 }
diff --git a/src/links.rs b/src/links.rs
index a1192c5..6efa3bb 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -1,5 +1,7 @@
 use super::formatter::FormatState;
-use crate::utils::{count_newlines, is_char_esacped, sequence_ends_on_escape, split_lines};
+use crate::utils::{
+    count_newlines, is_char_esacped, is_whitespace, sequence_ends_on_escape, split_lines,
+};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::Event;
 use std::borrow::Cow;
@@ -31,7 +33,7 @@ impl Write for LinkWriter {
         let ends_with_newline = input.ends_with('\n');
         if self.is_empty() {
             // While the buffer is empty trim leading whitespace
-            input = s.trim_start();
+            input = s.trim_start_matches(is_whitespace);
             if input.starts_with('^') {
                 self.buffer.push('\\');
             }
@@ -68,7 +70,7 @@ impl LinkWriter {
 
     pub(crate) fn into_buffer(mut self) -> String {
         // Remove any trailing whitespace from the buffer
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
@@ -148,14 +150,20 @@ pub(crate) fn is_balanced(s: &str, opener: char, closer: char) -> bool {
 /// `][bar]` -> bar
 pub(super) fn find_reference_link_label(input: &str) -> &str {
     let label = input.strip_prefix("][").unwrap_or(input);
-    label.strip_suffix(']').unwrap_or(label).trim()
+    label
+        .strip_suffix(']')
+        .unwrap_or(label)
+        .trim_matches(is_whitespace)
 }
 
 /// Everything after the text of an inline link. They are expected to be well formed:
 /// `](/uri)` -> '/uri'
 /// `](</my uri>)` -> '/my uri'
 pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(String, char)>)> {
-    let inline_url = input.strip_prefix("](")?.strip_suffix(')')?.trim();
+    let inline_url = input
+        .strip_prefix("](")?
+        .strip_suffix(')')?
+        .trim_matches(is_whitespace);
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
@@ -184,9 +192,9 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        url[1..url.len() - 1].trim_matches(is_whitespace)
     } else {
-        url.trim()
+        url.trim_matches(is_whitespace)
     }
 }
 
@@ -207,7 +215,7 @@ fn split_inline_url_from_title(
 
     url = url.trim();
 
-    title_with_quotes = title_with_quotes.trim();
+    title_with_quotes = title_with_quotes.trim_matches(is_whitespace);
 
     // Remove the wrapping quotes from the title
     let quote = title_with_quotes
@@ -465,7 +473,7 @@ impl<'a> LinkLines<'a> {
         // right now everything gets formatted on a single line.
         let mut iter = self
             .iter()
-            .map(|t| t.trim())
+            .map(|t| t.trim_matches(is_whitespace))
             .filter(|t| !t.is_empty())
             .peekable();
         while let Some(text) = iter.next() {
@@ -480,7 +488,7 @@ impl<'a> LinkLines<'a> {
                 write!(buffer, "{text}")?;
             }
         }
-        write!(writer, "{}", buffer.trim())
+        write!(writer, "{}", buffer.trim_matches(is_whitespace))
     }
 }
 
@@ -614,7 +622,7 @@ fn parse_link_reference_definition<'i>(
                 };
                 // FIXME(ytmimi) Assuming that `>` indicates a blockquote, but maybe there's a
                 // chance that its part of the title or label
-                if !next_is_important && (c.is_whitespace() || c == '>') {
+                if !next_is_important && (is_whitespace(c) || c == '>') {
                     continue;
                 }
                 start = idx;
@@ -642,7 +650,7 @@ fn parse_link_reference_definition<'i>(
                 // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
                 // like a block quote, then we need to potentially ignore leading `>` chars, but if
                 // we're still on the same line then we can assume that the `>` is part of the URL.
-                if c.is_whitespace() || (newline_count > 0 && c == '>') {
+                if is_whitespace(c) || (newline_count > 0 && c == '>') {
                     continue;
                 }
 
@@ -680,7 +688,7 @@ fn parse_link_reference_definition<'i>(
                         parsed_until = idx;
                     }
                     _ => {
-                        if !c.is_whitespace() {
+                        if !is_whitespace(c) {
                             let is_last = iter.peek().is_none();
                             if is_last {
                                 let url = Cow::from(&input[start..idx + c.len_utf8()]);
@@ -714,7 +722,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                if c.is_whitespace() || c == '>' {
+                if is_whitespace(c) || c == '>' {
                     continue;
                 }
 
@@ -773,7 +781,7 @@ fn parse_link_reference_definition<'i>(
                 break;
             }
 
-            if !c.is_whitespace() {
+            if !is_whitespace(c) {
                 builder.remove_false_title();
                 parsed_until = idx;
                 break;
diff --git a/src/list.rs b/src/list.rs
index 316cecb..f545ac1 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,3 +1,4 @@
+use crate::utils::is_whitespace;
 use std::borrow::Cow;
 use std::num::ParseIntError;
 // Including all these spaces might be overkill, but it probably doesn't hurt.
@@ -176,7 +177,7 @@ impl std::str::FromStr for ListMarker {
     type Err = ParseListMarkerError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let s = s.trim_matches(|c: char| c.is_whitespace() || c == '>');
+        let s = s.trim_matches(|c: char| is_whitespace(c) || c == '>');
         if s.is_empty() {
             return Err(ParseListMarkerError::NoMarkers);
         }
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 07354b2..2f818f0 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,7 +1,7 @@
 use crate::escape::needs_escape;
 use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
@@ -33,7 +33,7 @@ impl WriteContext<'_> for Paragraph {
                 }
             }
             MarkdownContext::Event(Event::Code(_)) => {
-                if s.starts_with(char::is_whitespace) || s.is_empty() {
+                if s.starts_with(is_whitespace) || s.is_empty() {
                     return self.write_str(s);
                 }
             }
@@ -61,7 +61,7 @@ impl WriteContext<'_> for Paragraph {
                                 .trim_start_matches('[');
 
                             let only_whitespace_brace = !trimmed_bracket_snippet.is_empty()
-                                && trimmed_bracket_snippet.chars().all(char::is_whitespace);
+                                && trimmed_bracket_snippet.chars().all(is_whitespace);
 
                             let starts_with_caret = trimmed_bracket_snippet.starts_with('^');
 
@@ -314,10 +314,12 @@ fn could_start_block(word: &str) -> bool {
         [b'`' | b'~', ..] => word.starts_with("```") || word.starts_with("~~~"),
         [b'|', ..] => true,
         // Lists, headings, thematic breaks, and the delimiter row of tables
-        _ => ['#', '=', '+', '*', '_']
-            .iter()
-            .any(|marker| word.chars().all(|c| c == *marker))
-            || word.chars().all(|c| matches!(c, '-' | ':' | '|')),
+        _ => {
+            ['#', '=', '+', '*', '_']
+                .iter()
+                .any(|marker| word.chars().all(|c| c == *marker))
+                || word.chars().all(|c| matches!(c, '-' | ':' | '|'))
+        }
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index b8cce6a..27202c3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,15 +4,22 @@ use std::iter::Iterator;
 use unicode_width::UnicodeWidthStr;
 
 static SPACES: &str = "                                                                           ";
-const NON_BREAKING_SPACE: char = '\u{a0}';
 const SPACE: char = ' ';
 
+/// Determine if Markdown treats the character as whitespace. Other Unicode whitespace, like
+/// non-breaking spaces, is text.
+///
+/// See: <https://spec.commonmark.org/0.30/#characters-and-lines>
+pub(crate) fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\x0B' | '\x0C' | '\r')
+}
+
 /// Count the number of trailing spaces at the end of input
 pub(crate) fn count_trailing_spaces(s: &str) -> usize {
     s.chars()
         .rev()
-        .take_while(|c| c.is_whitespace())
-        .filter(|c| matches!(*c, NON_BREAKING_SPACE | SPACE))
+        .take_while(|c| is_whitespace(*c))
+        .filter(|c| *c == SPACE)
         .count()
 }
 
-- 
2.43.0


From 61145989b44159ee3034e6706629791935827c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 35/84] fix: only keep attributes of a heading on their own
 line if they were

---
 src/header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 87c1945..b365593 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -94,8 +94,10 @@ impl<'i> Header<'i> {
         let attrs_on_own_line = full_header
             .lines()
             .rev()
+            .skip(1)
             .map(|l| l.trim_start_matches(|c: char| is_whitespace(c) || c == '>'))
-            .any(|l| l.starts_with('{'));
+            .next()
+            .is_some_and(|l| l.rfind('{') == Some(0));
 
         let kind = match (level, header_marker) {
             (HeadingLevel::H1, Some(marker)) => HeaderKind::SetextH1(marker),
-- 
2.43.0


From 6e80970873b3bf4f86951111a720249c4fc5772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 36/84] fix: keep the hard break before the attributes of a
 setext heading

---
 src/formatter.rs |  8 +++++++-
 src/header.rs    | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8574942..d7f14d5 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -874,7 +874,13 @@ where
                     }
                 }
                 Event::HardBreak => {
-                    let hard_break = match &self.input[range] {
+                    // Before the attributes of a setext heading, the range of a hard break goes on to
+                    // the next line.
+                    let hard_break = match self.input[range]
+                        .split_inclusive('\n')
+                        .next()
+                        .unwrap_or_default()
+                    {
                         "\\\r" | "\\\r\n" | "\\\n" => "\\\n",
                         "  \r" | "  \r\n" | "  \n" => "  \n",
                         h => h,
diff --git a/src/header.rs b/src/header.rs
index b365593..f5abaa8 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,5 +1,5 @@
 use crate::escape::needs_escape;
-use crate::utils::{is_whitespace, sequence_ends_on_escape};
+use crate::utils::{count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
 use std::borrow::Cow;
@@ -154,7 +154,19 @@ impl<'i> Header<'i> {
             }
         }
 
+        // Spaces at the end of the text are only a hard break if the attributes are on the next line
+        let hard_break = match self.buffer.strip_suffix('\n') {
+            Some(text) if self.attrs_on_own_line => {
+                let spaces = count_trailing_spaces(text);
+                (spaces > 1).then_some(spaces)
+            }
+            _ => None,
+        };
+
         self.escape_trailing_empty_attribute_brackets();
+        if let Some(spaces) = hard_break {
+            self.buffer.push_str(&get_spaces(spaces));
+        }
         self.write_header_attributes()?;
         self.write_setext_header()?;
         Ok((self.buffer, self.indentation))
-- 
2.43.0


From bbcce2af5c51ee0d98e05105ea8a2dbd89a6ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 37/84] fix: write hard breaks with LF line endings

---
 src/formatter.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d7f14d5..f37ef4f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -876,17 +876,9 @@ where
                 Event::HardBreak => {
                     // Before the attributes of a setext heading, the range of a hard break goes on to
                     // the next line.
-                    let hard_break = match self.input[range]
-                        .split_inclusive('\n')
-                        .next()
-                        .unwrap_or_default()
-                    {
-                        "\\\r" | "\\\r\n" | "\\\n" => "\\\n",
-                        "  \r" | "  \r\n" | "  \n" => "  \n",
-                        h => h,
-                    };
-
-                    self.write_event_str(&event, hard_break)?;
+                    let marker = self.input[range].split(['\r', '\n']).next();
+                    let hard_break = format!("{}\n", marker.unwrap_or_default());
+                    self.write_event_str(&event, &hard_break)?;
                 }
                 Event::Html(_) => {
                     let snippet = self.input[range.clone()].trim_end_matches(is_whitespace);
-- 
2.43.0


From 027ecfb9571d733d47aefb909c39e885435ce077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 38/84] fix: don't write escapes into code spans and inline
 HTML

---
 src/formatter.rs | 38 ++++++++++++++++----------------------
 src/header.rs    |  5 +----
 src/paragraph.rs | 11 +++++++----
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f37ef4f..5bbde93 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -546,31 +546,25 @@ where
             let trailing_spaces = get_spaces(trailing_space_count);
 
             let line = line.trim_end_matches(is_whitespace);
-            let needs_escape = self.needs_escape(line, true);
-
-            match needs_escape {
-                Some(escape_kind) if escape_kind.multi_character_escape() => {
-                    let marker = escape_kind.marker();
-                    for c in line.chars() {
-                        if marker == c {
-                            write_context!(self, Escape, "\\{c}")?;
-                        } else {
-                            self.write_char(c)?;
-                        }
-                    }
-                    self.write_event_str(event, &trailing_spaces)?;
-                }
-                Some(_) => {
-                    write_context!(self, Escape, "\\{line}{trailing_spaces}")?;
-                }
-                None => {
-                    write_context!(self, event, "{line}{trailing_spaces}")?;
+
+            if i > 0 {
+                // Escapes don't work in code spans and HTML. If the line would be interpreted as
+                // something else then join it with the one before.
+                let needs_escape = if is_last && matches!(event, Event::Code(_)) {
+                    self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
+                } else {
+                    self.needs_escape(line, true)
+                };
+                match needs_escape {
+                    Some(_) => self.write_char(' ')?,
+                    None => writeln_context!(self, event)?,
                 }
             }
+            write_context!(self, event, "{line}{trailing_spaces}")?;
+        }
 
-            if !is_last || ends_with_newline {
-                writeln_context!(self, event)?;
-            }
+        if ends_with_newline {
+            writeln_context!(self, event)?;
         }
         Ok(())
     }
diff --git a/src/header.rs b/src/header.rs
index f5abaa8..7bc1e99 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -19,10 +19,7 @@ pub(super) struct Header<'i> {
 
 impl<'i> WriteContext<'i> for Header<'_> {
     fn write_context_str(&mut self, ctx: MarkdownContext<'_, 'i>, s: &str) -> std::fmt::Result {
-        let ctx_does_not_need_escape = !matches!(
-            ctx,
-            MarkdownContext::Event(Event::Text(_) | Event::InlineHtml(_) | Event::Code(_))
-        );
+        let ctx_does_not_need_escape = !matches!(ctx, MarkdownContext::Event(Event::Text(_)));
 
         if ctx_does_not_need_escape || !self.is_setext_header() || !self.buffer.ends_with('\n') {
             return self.write_str(s);
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 2f818f0..2174adf 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -23,11 +23,10 @@ pub(super) struct Paragraph {
 
 impl WriteContext<'_> for Paragraph {
     fn write_context_str(&mut self, ctx: MarkdownContext, s: &str) -> std::fmt::Result {
-        // We should only need to escape `Event::Text`, and multi-line `Event::InlineHtml` and
-        // `Event::Code` since they might contain characters that look like other Markdown
-        // constructs, but they're really just text.
+        // We should only need to escape `Event::Text` since it might contain characters that look
+        // like other Markdown constructs, but they're really just text.
         match ctx {
-            MarkdownContext::Event(Event::Text(_) | Event::InlineHtml(_)) => {
+            MarkdownContext::Event(Event::Text(_)) => {
                 if s.is_empty() {
                     return self.write_str(s);
                 }
@@ -99,6 +98,10 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        if matches!(ctx, MarkdownContext::Event(Event::Code(_))) {
+            return self.write_str(s);
+        }
+
         let needs_escape = needs_escape(s).is_some();
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
-- 
2.43.0


From 9b8d18e6ab5b97e57aaac6f24f96ae1b1e12bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 39/84] fix: escape tilde code fences with backticks or tildes
 in the info string

---
 src/escape.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 5c5e83d..276ff9b 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -95,8 +95,9 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return true;
         }
 
-        // opening code fences can't contain backtick (`) or tilde (~) in the info string.
-        !info_string.contains(['`', '~'])
+        // The info string of a backtick code fence can't contain backticks. There's no such rule for
+        // tilde code fences.
+        marker == '~' || !info_string.contains('`')
     };
 
     match first_char {
-- 
2.43.0


From e413c13067992a10a3461594febc513d239679ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 40/84] fix: don't open a code fence with a code span that
 spans lines

---
 src/formatter.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5bbde93..afc094e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -523,7 +523,12 @@ where
     }
 
     /// Rewrite a single [`Event`] that spans over multiple lines
-    fn rewrite_multiline_event(&mut self, event: &Event<'i>, snippet: &'i str) -> std::fmt::Result {
+    fn rewrite_multiline_event(
+        &mut self,
+        event: &Event<'i>,
+        snippet: &'i str,
+        could_open_fence: bool,
+    ) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
         let ends_with_newline = snippet.ends_with('\n');
 
@@ -555,9 +560,10 @@ where
                 } else {
                     self.needs_escape(line, true)
                 };
-                match needs_escape {
-                    Some(_) => self.write_char(' ')?,
-                    None => writeln_context!(self, event)?,
+                if needs_escape.is_some() || (i == 1 && could_open_fence) {
+                    self.write_char(' ')?;
+                } else {
+                    writeln_context!(self, event)?;
                 }
             }
             write_context!(self, event, "{line}{trailing_spaces}")?;
@@ -845,9 +851,12 @@ where
                     let snippet = &self.input[range.clone()];
                     if count_newlines(snippet) > 0 {
                         let snippet = snippet.trim_matches('`');
+                        // Without the rest of the code span the marker could be a code fence
+                        let could_open_fence = self.last_was_line_break()
+                            && self.input[range.clone()].starts_with("```");
                         // write the opening and closing markers separately so they aren't escaped.
                         rewrite_marker(self.input, &range, &mut self)?;
-                        self.rewrite_multiline_event(&event, snippet)?;
+                        self.rewrite_multiline_event(&event, snippet, could_open_fence)?;
                         rewrite_marker(self.input, &range, &mut self)?;
                     } else {
                         write!(self, "{snippet}")?;
@@ -855,7 +864,7 @@ where
                 }
                 Event::InlineHtml(_) => {
                     let snippet = &self.input[range.clone()];
-                    self.rewrite_multiline_event(&event, snippet)?;
+                    self.rewrite_multiline_event(&event, snippet, false)?;
                 }
                 Event::SoftBreak => {
                     last_position = range.end;
-- 
2.43.0


From 259bf4d79394f8b647cec2e0741bd563e42ae156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 41/84] fix: don't wrap a line so that its code span opens a
 code fence

---
 src/paragraph.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 2174adf..12b11d4 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -230,30 +230,38 @@ impl Paragraph {
 /// Split a line into words that are separated by spaces, where words that can't be wrapped without
 /// changing the meaning of the text stay together.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
-    find_words_after(line, 0)
+    static FENCE_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
+    let end = FENCE_IF_ALONE_REGEX
+        .get_or_init(|| {
+            // The backticks of a code span, which would open a fenced code block
+            Regex::new(r"^ {0,3}```+[^`]+`\S*(?-u:\s+|$)").expect("valid regex")
+        })
+        .find(line)
+        .map_or(0, |m| m.end());
+    find_words_after(line, end)
 }
 
 /// Same as `find_words`, but keeps what would be a block of its own at the start of a paragraph on
 /// the same line as the text that follows it.
 fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
-    let end = BLOCK_IF_ALONE_REGEX
+    let Some(block) = BLOCK_IF_ALONE_REGEX
         .get_or_init(|| {
-            // A link reference definition, an HTML tag, a task list marker, or the backticks of a
-            // code span, which would open a fenced code block
+            // A link reference definition, an HTML tag, or a task list marker
             // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
             let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
             let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
             let task_list_marker = r"\[[ xX]\]";
-            let code_span = r"```+[^`]+`\S*";
             Regex::new(&format!(
-                r"^({definition}|{html_tag}|{task_list_marker}|{code_span})(\s+|$)"
+                r"^({definition}|{html_tag}|{task_list_marker})(?-u:\s+|$)"
             ))
             .expect("valid regex")
         })
         .find(line)
-        .map_or(0, |m| m.end());
-    find_words_after(line, end)
+    else {
+        return find_words(line);
+    };
+    find_words_after(line, block.end())
 }
 
 /// Find words with no break before the given position.
-- 
2.43.0


From 4146374c173e3575ae2e1e8fce91f6aea7280040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 42/84] fix: escape thematic breaks with tabs in setext
 headings

---
 src/escape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/escape.rs b/src/escape.rs
index 276ff9b..fd8529a 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -74,7 +74,9 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     };
     let is_unordered_list_marker = |value: char| marker_with_optional_trailing_space(1, value);
     let is_thematic_break = |value: u8| {
-        input.bytes().all(|b| b == value || b == b' ')
+        input
+            .bytes()
+            .all(|b| b == value || matches!(b, b' ' | b'\t'))
             && input.bytes().filter(|b| *b == value).count() >= 3
     };
     let is_fenced_code_block = |value: &str| {
-- 
2.43.0


From 1fd1a78299e0e76d3464f6e142f6f428771ab841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 43/84] fix: keep the escape of `<` before an escaped `!`
 stable

---
 src/formatter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index afc094e..42562bb 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -763,9 +763,11 @@ where
                             if state.last_was_line_break()
                                 && t == "<"
                                 && matches!(
-                                    state.peek(),
-                                    Some(Event::Text(t))
-                                        if starts_with_html_block_identifier(t)
+                                    state.peek_with_range(),
+                                    // Unless the text that comes next already is escaped
+                                    Some((Event::Text(t), next_range))
+                                        if next_range.start == range.end
+                                            && starts_with_html_block_identifier(t)
                                 )
                             {
                                 return true;
@@ -835,7 +837,7 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
-                                || should_escape_an_escape(text, &mut self, range)
+                                || should_escape_an_escape(text, &mut self, range.clone())
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
-- 
2.43.0


From d1b82c5d2744f0506e78ae4f62b87665d398a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 44/84] fix: don't double the blank lines before a footnote
 definition in a block quote

---
 src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 42562bb..01f0679 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1267,7 +1267,15 @@ where
                     // separte consecutive footnote definitinons by at least one newline
                     newlines = newlines.max(1);
                 }
-                self.write_newlines(newlines)?;
+                // The blank lines at the start of a blockquote were already written
+                let starts_blockquote = matches!(
+                    &self.last_event,
+                    Some((Event::Start(Tag::BlockQuote(_)), blockquote_range))
+                        if blockquote_range.start == self.last_position
+                );
+                if !starts_blockquote {
+                    self.write_newlines(newlines)?;
+                }
 
                 // Anchor the last_position at the start of the footnote definition. This prevents
                 // picking up extra newlines in case we need to recover refernce link definitions
-- 
2.43.0


From 96b57bc2171c9e7e8d590effef1a73d499a65e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 45/84] fix: escape ordered list markers on their own line when
 joining lines

---
 src/paragraph.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 12b11d4..e962a04 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,4 @@
-use crate::escape::needs_escape;
+use crate::escape::{list_number_that_interrupts_paragraph, needs_escape};
 use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
 use crate::utils::{is_whitespace, sequence_ends_on_escape};
@@ -122,6 +122,15 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        // Joining this line with the next one would put text after what could be a list marker
+        if self.joins_lines()
+            && self.buffer.ends_with('\n')
+            && list_number_that_interrupts_paragraph(&format!("{s} ")) == Some(s.len() - 1)
+        {
+            let (number, delimiter) = s.split_at(s.len() - 1);
+            return write!(self, "{number}\\{delimiter}");
+        }
+
         // Prevent the next pass from interpreting this as a list
         if self.buffer.ends_with('\n') && matches!(s, "* " | "+ " | "- ") {
             self.buffer.push('\\');
@@ -146,7 +155,7 @@ impl WriteContext<'_> for Paragraph {
 
 impl Write for Paragraph {
     fn write_str(&mut self, s: &str) -> std::fmt::Result {
-        if self.max_width.is_some() && self.should_reflow_text && s == "\n" {
+        if self.joins_lines() && s == "\n" {
             // If the user configured the max_width and the reflow text option
             // then replace soft breaks with a space so we can reflow text
             self.buffer.push(' ');
@@ -167,6 +176,11 @@ impl Paragraph {
         }
     }
 
+    /// Check if soft breaks are replaced so that the text can be reflowed
+    fn joins_lines(&self) -> bool {
+        self.max_width.is_some() && self.should_reflow_text
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
-- 
2.43.0


From 6b22190a6f231d39fb8c7331d08bf2deb25e8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 46/84] fix: don't let wrapping end or start a line with what
 is a block of its own

---
 src/paragraph.rs | 76 +++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index e962a04..77fe240 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -241,41 +241,54 @@ impl Paragraph {
     }
 }
 
+/// Matches a thematic break at the start of a line
+const THEMATIC_BREAK: &str = r"(\*[ \t]*){3,}|(-[ \t]*){3,}|(_[ \t]*){3,}";
+
 /// Split a line into words that are separated by spaces, where words that can't be wrapped without
 /// changing the meaning of the text stay together.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
-    static FENCE_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
-    let end = FENCE_IF_ALONE_REGEX
-        .get_or_init(|| {
-            // The backticks of a code span, which would open a fenced code block
-            Regex::new(r"^ {0,3}```+[^`]+`\S*(?-u:\s+|$)").expect("valid regex")
-        })
-        .find(line)
-        .map_or(0, |m| m.end());
-    find_words_after(line, end)
+    static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
+    let block_if_alone = BLOCK_IF_ALONE_REGEX.get_or_init(|| {
+        // A thematic break, or what would make the lines before it a heading or a table
+        let setext_underline = r"=+";
+        let delimiter_row = r"[:| \t]*-[-:| \t]*";
+        Regex::new(&format!(
+            r"^ {{0,3}}({THEMATIC_BREAK}|{setext_underline}|{delimiter_row})(?-u:\s+|$)"
+        ))
+        .expect("valid regex")
+    });
+    find_words_after(line, end_of_block_if_alone(line, block_if_alone))
 }
 
-/// Same as `find_words`, but keeps what would be a block of its own at the start of a paragraph on
-/// the same line as the text that follows it.
+/// Same as `find_words`, but for the line at the start of a paragraph.
 fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     static BLOCK_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
-    let Some(block) = BLOCK_IF_ALONE_REGEX
-        .get_or_init(|| {
-            // A link reference definition, an HTML tag, or a task list marker
-            // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
-            let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
-            let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
-            let task_list_marker = r"\[[ xX]\]";
-            Regex::new(&format!(
-                r"^({definition}|{html_tag}|{task_list_marker})(?-u:\s+|$)"
-            ))
-            .expect("valid regex")
-        })
-        .find(line)
-    else {
-        return find_words(line);
-    };
-    find_words_after(line, block.end())
+    let block_if_alone = BLOCK_IF_ALONE_REGEX.get_or_init(|| {
+        // A thematic break, a link reference definition, an HTML tag, or a task list marker
+        // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
+        let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
+        let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
+        let task_list_marker = r"\[[ xX]\]";
+        Regex::new(&format!(
+            r"^({THEMATIC_BREAK}|{definition}|{html_tag}|{task_list_marker})(?-u:\s+|$)"
+        ))
+        .expect("valid regex")
+    });
+    find_words_after(line, end_of_block_if_alone(line, block_if_alone))
+}
+
+/// Find the end of what would be a block of its own if it were alone on the line, which is why it
+/// has to stay together with the text that follows it.
+fn end_of_block_if_alone(line: &str, block_if_alone: &Regex) -> usize {
+    static FENCE_IF_ALONE_REGEX: OnceLock<Regex> = OnceLock::new();
+    let fence_if_alone = FENCE_IF_ALONE_REGEX.get_or_init(|| {
+        // The backticks of a code span, which would open a fenced code block
+        Regex::new(r"^ {0,3}```+[^`]+`\S*(?-u:\s+|$)").expect("valid regex")
+    });
+    [block_if_alone, fence_if_alone]
+        .iter()
+        .find_map(|block| block.find(line))
+        .map_or(0, |block| block.end())
 }
 
 /// Find words with no break before the given position.
@@ -290,10 +303,11 @@ fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<
         let mut in_destination = starts_destination_with_spaces(&word, false);
 
         while let Some(next) = words.peek() {
-            // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, and the
-            // space in `[ ]` is what makes it a task list marker.
+            // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, the
+            // space in `[ ]` is what makes it a task list marker, and indentation isn't a line.
             let is_task_list_marker = word.ends_with('[') && next.starts_with(']');
             if !(end <= min_end
+                || word.is_empty()
                 || in_destination
                 || is_task_list_marker
                 || sequence_ends_on_escape(&word)
@@ -321,6 +335,8 @@ fn starts_destination_with_spaces(word: &str, in_destination: bool) -> bool {
 /// Determine if this word could be interpreted as the start of a block, or as the underline of a
 /// setext heading, if it were the first word on a line.
 fn could_start_block(word: &str) -> bool {
+    // There are no breaks at tabs, but blocks could start with what comes before a tab.
+    let word = word.split('\t').next().unwrap_or_default();
     let is_list_number = |s: &str| {
         s.strip_suffix(['.', ')'])
             .is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
-- 
2.43.0


From 92e99797c503848e394ae64774b1c1753289f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 47/84] fix: don't wrap lines at several spaces

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 77fe240..4720a86 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -304,10 +304,12 @@ fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<
 
         while let Some(next) = words.peek() {
             // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, the
-            // space in `[ ]` is what makes it a task list marker, and indentation isn't a line.
+            // space in `[ ]` is what makes it a task list marker, indentation isn't a line, and
+            // several spaces might be the content of a code span.
             let is_task_list_marker = word.ends_with('[') && next.starts_with(']');
             if !(end <= min_end
                 || word.is_empty()
+                || word.whitespace.len() > 1
                 || in_destination
                 || is_task_list_marker
                 || sequence_ends_on_escape(&word)
-- 
2.43.0


From fb756d7463ab47417c372070bc4fc784938685ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 48/84] fix: keep the trailing spaces of lines within code
 spans and HTML when wrapping

---
 src/paragraph.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4720a86..ce3e6cc 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -224,13 +224,13 @@ impl Paragraph {
                 };
                 let separator = WordSeparator::Custom(find_words_in_first_line);
                 let first_line_options = wrap_options.clone().word_separator(separator);
-                output_buffer.push_str(&textwrap::fill(first_line, first_line_options));
+                output_buffer.push_str(&fill(first_line, &first_line_options));
                 if let Some(rest) = rest.strip_prefix('\n') {
                     output_buffer.push('\n');
-                    output_buffer.push_str(&textwrap::fill(rest, wrap_options.clone()));
+                    output_buffer.push_str(&fill(rest, &wrap_options));
                 }
             } else {
-                output_buffer.push_str(&textwrap::fill(text, wrap_options.clone()));
+                output_buffer.push_str(&fill(text, &wrap_options));
             }
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
@@ -241,6 +241,21 @@ impl Paragraph {
     }
 }
 
+/// Wrap each line of the text. Any spaces at the end of a line are the content of code spans or
+/// inline HTML, so they have to stay.
+fn fill(text: &str, options: &TextWrapOptions<'_>) -> String {
+    let mut output = String::with_capacity(text.len());
+    for (i, line) in text.split('\n').enumerate() {
+        if i > 0 {
+            output.push('\n');
+        }
+        let trailing_spaces = &line[line.trim_end_matches(' ').len()..];
+        output.push_str(&textwrap::fill(line, options));
+        output.push_str(trailing_spaces);
+    }
+    output
+}
+
 /// Matches a thematic break at the start of a line
 const THEMATIC_BREAK: &str = r"(\*[ \t]*){3,}|(-[ \t]*){3,}|(_[ \t]*){3,}";
 
-- 
2.43.0


From c4f3fe18b893558a3e44718223e16d39ad36c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 49/84] fix: keep inline HTML from starting an HTML block

---
 src/header.rs    | 11 +++++++++++
 src/html.rs      | 42 +++++++++++++++++++++++++++++++++++++++++-
 src/paragraph.rs | 18 ++++++++++++------
 3 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 7bc1e99..9b4968d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,4 +1,6 @@
 use crate::escape::needs_escape;
+use crate::html::opens_html_block;
+use crate::paragraph::PARAGRAPH_CONTINUATION_INDENT;
 use crate::utils::{count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
@@ -19,6 +21,15 @@ pub(super) struct Header<'i> {
 
 impl<'i> WriteContext<'i> for Header<'_> {
     fn write_context_str(&mut self, ctx: MarkdownContext<'_, 'i>, s: &str) -> std::fmt::Result {
+        if matches!(ctx, MarkdownContext::Event(Event::InlineHtml(_)))
+            && self.buffer.ends_with('\n')
+            && opens_html_block(s)
+        {
+            // Without the indentation the HTML would interrupt the header
+            self.write_str(PARAGRAPH_CONTINUATION_INDENT)?;
+            return self.write_str(s);
+        }
+
         let ctx_does_not_need_escape = !matches!(ctx, MarkdownContext::Event(Event::Text(_)));
 
         if ctx_does_not_need_escape || !self.is_setext_header() || !self.buffer.ends_with('\n') {
diff --git a/src/html.rs b/src/html.rs
index 748cdba..6911095 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -1,3 +1,5 @@
+use crate::utils::is_whitespace;
+
 pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "article",
     "header",
@@ -76,9 +78,47 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "track",
 ];
 
+/// Tag names in `HTML_BLOCK_TAG` that start HTML blocks with any content up to their closing tag
+/// See: https://spec.commonmark.org/0.30/#html-blocks (start condition 1)
+static RAW_TEXT_TAG: &[&str] = &["pre", "script", "style", "textarea"];
+
+/// Tag names in `HTML_BLOCK_TAG` that the parser doesn't know as the tag names of HTML blocks
+static INLINE_TAG: &[&str] = &[
+    "button", "canvas", "embed", "hgroup", "map", "object", "output", "progress", "video",
+];
+
+/// Check if an HTML tag, comment, etc. at the start of a line would interrupt a paragraph
+pub(crate) fn opens_html_block(html: &str) -> bool {
+    let Some(html) = html.strip_prefix('<') else {
+        return false;
+    };
+
+    let name = html.strip_prefix('/').unwrap_or(html);
+    let is_closing_tag = name.len() != html.len();
+    let end = name
+        .find(|c: char| !c.is_ascii_alphanumeric())
+        .unwrap_or(name.len());
+    let (name, rest) = name.split_at(end);
+
+    if name.is_empty() {
+        return !is_closing_tag && starts_with_html_block_identifier(html);
+    }
+
+    let is_name_in = |tags: &[&str]| tags.iter().any(|tag| tag.eq_ignore_ascii_case(name));
+    let is_end_of_name = rest.is_empty() || rest.starts_with(|c| c == '>' || is_whitespace(c));
+
+    if is_name_in(RAW_TEXT_TAG) {
+        return is_end_of_name && !is_closing_tag;
+    }
+
+    (is_end_of_name || rest.starts_with("/>"))
+        && is_name_in(HTML_BLOCK_TAG)
+        && !is_name_in(INLINE_TAG)
+}
+
 /// Check if the given string starts with a well known HTML block tag name
 pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() || !s.is_ascii() {
+    if s.trim().is_empty() {
         return false;
     }
 
diff --git a/src/paragraph.rs b/src/paragraph.rs
index ce3e6cc..7ae93e4 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,5 +1,5 @@
 use crate::escape::{list_number_that_interrupts_paragraph, needs_escape};
-use crate::html::starts_with_html_block_identifier;
+use crate::html::opens_html_block;
 use crate::links::is_balanced;
 use crate::utils::{is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
@@ -13,6 +13,9 @@ use textwrap::{Options as TextWrapOptions, WordSeparator};
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
 
+/// With this much indentation a line continues a paragraph, whatever comes next.
+pub(super) const PARAGRAPH_CONTINUATION_INDENT: &str = "    ";
+
 /// A buffer where we write text
 #[derive(Debug, PartialEq)]
 pub(super) struct Paragraph {
@@ -36,6 +39,13 @@ impl WriteContext<'_> for Paragraph {
                     return self.write_str(s);
                 }
             }
+            MarkdownContext::Event(Event::InlineHtml(_)) => {
+                if self.buffer.ends_with('\n') && opens_html_block(s) {
+                    // Without the indentation the HTML would interrupt the paragraph
+                    self.buffer.push_str(PARAGRAPH_CONTINUATION_INDENT);
+                }
+                return self.write_str(s);
+            }
             MarkdownContext::Tag(Tag::Link { link_type, .. }) => {
                 let closing_brace_needs_escape = || {
                     if !self.buffer.ends_with(']')
@@ -358,15 +368,11 @@ fn could_start_block(word: &str) -> bool {
         s.strip_suffix(['.', ')'])
             .is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
     };
-    let is_html_block = |s: &str| {
-        let end = s.find(['>', '"', '\'', '=']).unwrap_or(s.len());
-        starts_with_html_block_identifier(s[..end].trim_end_matches('/'))
-    };
 
     match word.as_bytes() {
         [] => false,
         [b'>', ..] => true,
-        [b'<', ..] => is_html_block(&word[1..]),
+        [b'<', ..] => opens_html_block(word),
         [b'[', b'^', ..] => word.contains("]:") || !word.contains(']'),
         [b'0'..=b'9', ..] => is_list_number(word),
         [b'`' | b'~', ..] => word.starts_with("```") || word.starts_with("~~~"),
-- 
2.43.0


From d0ddcefa95b474c50b668c9a0a81c179fa8ecc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 50/84] fix: escape the colon after a footnote reference at the
 start of a line

---
 src/header.rs    |  7 ++++++-
 src/paragraph.rs | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 9b4968d..6240680 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,6 +1,6 @@
 use crate::escape::needs_escape;
 use crate::html::opens_html_block;
-use crate::paragraph::PARAGRAPH_CONTINUATION_INDENT;
+use crate::paragraph::{PARAGRAPH_CONTINUATION_INDENT, ends_with_footnote_label};
 use crate::utils::{count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
@@ -30,6 +30,11 @@ impl<'i> WriteContext<'i> for Header<'_> {
             return self.write_str(s);
         }
 
+        if self.is_setext_header() && s.starts_with(':') && ends_with_footnote_label(&self.buffer) {
+            // Otherwise this would be the definition of a footnote
+            self.write_char('\\')?;
+        }
+
         let ctx_does_not_need_escape = !matches!(ctx, MarkdownContext::Event(Event::Text(_)));
 
         if ctx_does_not_need_escape || !self.is_setext_header() || !self.buffer.ends_with('\n') {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 7ae93e4..efcfd7e 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -132,6 +132,11 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        // Prevent the next pass from interpreting a reference to a footnote as its definition
+        if s.starts_with(':') && ends_with_footnote_label(&self.buffer) {
+            self.buffer.push('\\');
+        }
+
         // Joining this line with the next one would put text after what could be a list marker
         if self.joins_lines()
             && self.buffer.ends_with('\n')
@@ -387,6 +392,12 @@ fn could_start_block(word: &str) -> bool {
     }
 }
 
+/// Determine if this ends with a line that only has what could be the label of a footnote
+pub(super) fn ends_with_footnote_label(text: &str) -> bool {
+    let last_line = text.rsplit('\n').next().unwrap_or_default();
+    last_line.starts_with("[^") && last_line.find(']') == Some(last_line.len() - 1)
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From f1531bd1ebdad9062f739203f04f1325669194fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 51/84] fix: escape exactly the text that could be the
 delimiter row of a table

---
 src/header.rs    |  8 +++++++-
 src/paragraph.rs | 19 ++++++-------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 6240680..38e7d4b 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,6 +1,6 @@
 use crate::escape::needs_escape;
 use crate::html::opens_html_block;
-use crate::paragraph::{PARAGRAPH_CONTINUATION_INDENT, ends_with_footnote_label};
+use crate::paragraph::{PARAGRAPH_CONTINUATION_INDENT, could_be_table, ends_with_footnote_label};
 use crate::utils::{count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
@@ -41,6 +41,12 @@ impl<'i> WriteContext<'i> for Header<'_> {
             return self.write_str(s);
         }
 
+        if self.buffer.lines().last().is_some_and(|l| l.contains('|')) && could_be_table(s) {
+            // Otherwise this line and the one before would be a table
+            self.write_char('\\')?;
+            return self.write_str(s);
+        }
+
         match needs_escape(s) {
             Some(escape_kind) if escape_kind.multi_character_escape() => {
                 let marker = escape_kind.marker();
diff --git a/src/paragraph.rs b/src/paragraph.rs
index efcfd7e..7710d1c 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -405,19 +405,12 @@ pub(super) fn ends_with_footnote_label(text: &str) -> bool {
 /// |  a  |  b  |  c  |
 /// | --- | --- | --- | <-- This is the alignment row
 /// |     |     |     |
-fn could_be_table(text: &str) -> bool {
-    // I don't know why, but the regex still matches if there are escaped characters.
-    // so I'm adding this check to prevent that.
-    if text.contains('\\') {
-        return false;
-    }
-    static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
-    TABLE_ALIGNMENT_ROW_REGEX
-        .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$")
-                .expect("valid regex")
-        })
-        .is_match_at(text, 0)
+pub(super) fn could_be_table(text: &str) -> bool {
+    text.contains('|')
+        && text.contains('-')
+        && text
+            .chars()
+            .all(|c| matches!(c, '|' | '-' | ':' | ' ' | '\t'))
 }
 
 #[test]
-- 
2.43.0


From 9e20c4e789f408e58e4529b0090d83fca27919cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 52/84] fix: don't open a code fence with a code span that
 spans several lines

---
 src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 01f0679..d6ce668 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -527,7 +527,7 @@ where
         &mut self,
         event: &Event<'i>,
         snippet: &'i str,
-        could_open_fence: bool,
+        mut could_open_fence: bool,
     ) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
         let ends_with_newline = snippet.ends_with('\n');
@@ -560,13 +560,15 @@ where
                 } else {
                     self.needs_escape(line, true)
                 };
-                if needs_escape.is_some() || (i == 1 && could_open_fence) {
+                if needs_escape.is_some() || could_open_fence {
                     self.write_char(' ')?;
                 } else {
                     writeln_context!(self, event)?;
                 }
             }
             write_context!(self, event, "{line}{trailing_spaces}")?;
+            // The info string of a backtick code fence can't contain backticks
+            could_open_fence &= !line.contains('`');
         }
 
         if ends_with_newline {
-- 
2.43.0


From 5204aecf0c8a541e96bf9a3d4a9309684f8b8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 53/84] fix: count all the newlines between the blocks of a
 footnote in a block quote

---
 src/footnote.rs  | 5 +++++
 src/formatter.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/footnote.rs b/src/footnote.rs
index d06838c..74250a0 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -30,6 +30,11 @@ impl FootnoteDefinition {
         self.buffer.is_empty()
     }
 
+    /// Check if the footnote definition is in a block quote
+    pub(super) fn in_block_quote(&self) -> bool {
+        self.indentation.iter().any(|i| i.contains('>'))
+    }
+
     /// Get what has been written to the internal buffer
     pub(super) fn as_str(&self) -> &str {
         &self.buffer
diff --git a/src/formatter.rs b/src/formatter.rs
index d6ce668..38cff58 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -394,6 +394,8 @@ where
             return Ok(());
         }
         let buffer = match self.writers.last() {
+            // In block quotes newlines are followed by the markers, which are added later
+            Some(MarkdownWriter::FootnoteDefinition(footnote)) if footnote.in_block_quote() => "",
             Some(MarkdownWriter::FootnoteDefinition(footnote)) => footnote.as_str(),
             _ => &self.rewrite_buffer,
         };
-- 
2.43.0


From a59993d8f09acf8c0efe61c15d8124b6ef0145fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 54/84] fix: keep the blank lines after a footnote that ends
 with a list in a block quote

---
 src/formatter.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 38cff58..8cff62d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -721,6 +721,20 @@ where
                             let label = self.input[range.clone()].find("]:");
                             label.map_or(last_position, |end| range.start + end + "]:".len())
                         };
+                        // And the blank lines of a block quote that follow a list in the definition
+                        // were part of the list's range
+                        let prefix = self.input[..range.start].rsplit('\n').next();
+                        let quotes = prefix.map_or(0, |prefix| prefix.matches('>').count());
+                        while let Some(newline) = self.input[range.start..last_position].rfind('\n')
+                        {
+                            let line = &self.input[range.start + newline..last_position];
+                            if quotes < line.matches('>').count()
+                                || !line.trim_matches([' ', '\t', '\r', '\n', '>']).is_empty()
+                            {
+                                break;
+                            }
+                            last_position = range.start + newline;
+                        }
                     }
                     self.check_needs_indent(&event);
                 }
-- 
2.43.0


From db1defd44a10fa4979343a633a6ca73ffd1d6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 55/84] fix: keep empty inline link destinations before titles
 and white space within destinations

---
 src/links.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 6efa3bb..08ca984 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -93,7 +93,8 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        // Without a destination the title would become the destination
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
@@ -106,7 +107,7 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
+    } else if !(url.starts_with('<') && url.ends_with('>')) && url.contains(is_whitespace)
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
@@ -192,7 +193,8 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim_matches(is_whitespace)
+        // Spaces between angle brackets are part of the destination
+        &url[1..url.len() - 1]
     } else {
         url.trim_matches(is_whitespace)
     }
-- 
2.43.0


From 6f70cf95f6a5100031883faea5a0a2b51229297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 56/84] fix: don't break lines within destinations that contain
 escaped brackets

---
 src/paragraph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 7710d1c..36fadd0 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,7 +1,7 @@
 use crate::escape::{list_number_that_interrupts_paragraph, needs_escape};
 use crate::html::opens_html_block;
 use crate::links::is_balanced;
-use crate::utils::{is_whitespace, sequence_ends_on_escape};
+use crate::utils::{is_char_esacped, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
@@ -358,9 +358,17 @@ fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<
 
 /// Determine if a link destination that's enclosed in `<>` continues after this word.
 fn starts_destination_with_spaces(word: &str, in_destination: bool) -> bool {
+    let ends_destination = |s: &str| {
+        let mut was_last_escape = false;
+        s.chars().any(|c| {
+            let ends = c == '>' && !was_last_escape;
+            was_last_escape = is_char_esacped(c, was_last_escape);
+            ends
+        })
+    };
     match word.rfind("](<") {
-        Some(start) => !word[start..].contains('>'),
-        None => in_destination && !word.contains('>'),
+        Some(start) => !ends_destination(&word[start..]),
+        None => in_destination && !ends_destination(word),
     }
 }
 
-- 
2.43.0


From cbbbbe7da158196612062b1098e6a96cb6e1787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 57/84] fix: include the end of a destination at the end of the
 input in the range of its definition

---
 src/links.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 08ca984..d7d2dda 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -659,8 +659,9 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..idx + c.len_utf8()]);
-                    builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
+                    let end = idx + c.len_utf8();
+                    let url = Cow::from(&input[idx..end]);
+                    builder.set_url(LinkDestination::Regular(url), idx..end, offset);
                     parsed_until = idx;
                     break;
                 }
@@ -693,8 +694,9 @@ fn parse_link_reference_definition<'i>(
                         if !is_whitespace(c) {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..idx + c.len_utf8()]);
-                                builder.set_url(LinkDestination::Regular(url), start..idx, offset);
+                                let end = idx + c.len_utf8();
+                                let url = Cow::from(&input[start..end]);
+                                builder.set_url(LinkDestination::Regular(url), start..end, offset);
                                 parsed_until = idx;
                                 break;
                             }
-- 
2.43.0


From e5c9cc623e98fe6e67353613a519cc032a8bea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 58/84] fix: keep the `>` of definitions that doesn't belong to
 a block quote

---
 src/formatter.rs | 33 ++++++++++++++++++++++-----------
 src/links.rs     | 45 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8cff62d..f0ee2b9 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -16,7 +16,7 @@ use crate::escape::list_number_that_interrupts_paragraph;
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
-use crate::links::{LinkReferenceDefinition, LinkWriter, parse_link_reference_definitions};
+use crate::links::{LinkReferenceDefinition, LinkWriter, parse_nested_link_reference_definitions};
 use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
@@ -424,6 +424,16 @@ where
         Ok(())
     }
 
+    fn parse_link_reference_definitions(
+        &self,
+        snippet: &'i str,
+        offset: usize,
+    ) -> Vec<LinkReferenceDefinition<'i>> {
+        let is_block_quote = |tag: &&Tag| matches!(tag, Tag::BlockQuote(_));
+        let block_quotes = self.nested_context.iter().filter(is_block_quote).count();
+        parse_nested_link_reference_definitions(snippet, offset, block_quotes)
+    }
+
     fn rewrite_reference_link_definitions_inner(
         &mut self,
         link_defs: Vec<LinkReferenceDefinition>,
@@ -447,7 +457,7 @@ where
 
     fn rewrite_reference_link_definitions(&mut self, range: &Range<usize>) -> std::fmt::Result {
         let snippet = &self.input[range.clone()];
-        let link_defs = parse_link_reference_definitions(snippet, range.start);
+        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
 
         if link_defs.is_empty() {
             return Ok(());
@@ -1041,7 +1051,7 @@ where
                 match self.peek_with_range().map(|(e, r)| (e.clone(), r.clone())) {
                     Some((Event::End(TagEnd::BlockQuote(..)), _)) => {
                         let snippet = &self.input[range.clone()];
-                        let link_defs = parse_link_reference_definitions(snippet, range.start);
+                        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
                         if let Some(first_link_def) = link_defs.first() {
                             let end = first_link_def.range().start;
                             if count_newlines(&self.input[range.start..end]) > 0 {
@@ -1062,7 +1072,7 @@ where
                     }
                     Some((Event::Start(Tag::BlockQuote(_)), next_range)) => {
                         let snippet = &self.input[range.start..next_range.start];
-                        let link_defs = parse_link_reference_definitions(snippet, range.start);
+                        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
 
                         if link_defs.is_empty() {
                             write!(self, ">")?;
@@ -1086,7 +1096,7 @@ where
                     }
                     Some((_, next_range)) => {
                         let snippet = &self.input[range.start..next_range.start];
-                        let link_defs = parse_link_reference_definitions(snippet, range.start);
+                        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
 
                         let end = link_defs
                             .first()
@@ -1212,12 +1222,13 @@ where
                 // FIXME(ytmimi) luckily recovering link-reference-definitions isn't overly
                 // complicated for list items, but the implementations are very similar, so
                 // hopefully there's some simple refactoring that can be done later.
-                let (empty_list_item, link_defs) = match self.events.peek() {
+                let next_event = self.events.peek().cloned();
+                let (empty_list_item, link_defs) = match next_event {
                     Some((Event::End(TagEnd::Item), _)) => {
                         let snippet = &self.input[range.clone()];
                         let just_list_marker =
                             snippet.trim_matches(is_whitespace).len() == list_marker.len();
-                        let link_defs = parse_link_reference_definitions(snippet, range.start);
+                        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
                             .map(|l| l.range().start)
@@ -1227,7 +1238,7 @@ where
                     }
                     Some((_, next_range)) => {
                         let snippet = &self.input[range.start..next_range.start];
-                        let link_defs = parse_link_reference_definitions(snippet, range.start);
+                        let link_defs = self.parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
                             .map(|l| l.range().start)
@@ -1299,15 +1310,15 @@ where
                 // picking up extra newlines in case we need to recover refernce link definitions
                 self.last_position = range.start;
 
+                let next_event = self.events.peek().cloned();
                 let recover_link_defs = |range: Range<usize>| -> Vec<LinkReferenceDefinition> {
                     let start = range.start;
                     let snippet = &self.input[range];
                     let colon_index = snippet.find(':').unwrap_or(0);
                     let snippet = &snippet[colon_index..];
-                    parse_link_reference_definitions(snippet, start + colon_index)
+                    self.parse_link_reference_definitions(snippet, start + colon_index)
                 };
-
-                let link_defs = match self.events.peek() {
+                let link_defs = match next_event {
                     Some((Event::End(TagEnd::FootnoteDefinition), _)) => {
                         recover_link_defs(range.clone())
                     }
diff --git a/src/links.rs b/src/links.rs
index d7d2dda..be78678 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -512,14 +512,22 @@ impl<'a> From<Vec<(Cow<'a, str>, std::ops::Range<usize>)>> for LinkLines<'a> {
     }
 }
 
-pub fn parse_link_reference_definitions<'i>(
+#[cfg(test)]
+fn parse_link_reference_definitions(input: &str, offset: usize) -> Vec<LinkReferenceDefinition> {
+    parse_nested_link_reference_definitions(input, offset, usize::MAX)
+}
+
+/// Parse all reference definitions of a snippet that's nested in the given number of block quotes
+pub fn parse_nested_link_reference_definitions<'i>(
     input: &'i str,
     mut offset: usize,
+    block_quotes: usize,
 ) -> Vec<LinkReferenceDefinition<'i>> {
     let mut refernce_definitions = vec![];
     let mut input = input;
 
-    while let Some((def, idx)) = parse_link_reference_definition(input, offset) {
+    while let Some((def, idx)) = parse_nested_link_reference_definition(input, offset, block_quotes)
+    {
         refernce_definitions.push(def);
         offset += idx;
         input = &input[idx..];
@@ -554,10 +562,19 @@ enum MultiLinePhase {
     Title(TitleMarker),
 }
 
+#[cfg(test)]
+fn parse_link_reference_definition(
+    input: &str,
+    offset: usize,
+) -> Option<(LinkReferenceDefinition, usize)> {
+    parse_nested_link_reference_definition(input, offset, usize::MAX)
+}
+
 /// Parse a single reference definition from
-fn parse_link_reference_definition<'i>(
+fn parse_nested_link_reference_definition<'i>(
     input: &'i str,
     offset: usize,
+    block_quotes: usize,
 ) -> Option<(LinkReferenceDefinition<'i>, usize)> {
     let mut phase = LinkParserPhase::FindOpeningBracket;
     let mut builder = LinkReferenceDefinitionBuilder::new();
@@ -565,11 +582,22 @@ fn parse_link_reference_definition<'i>(
     let mut parsed_until = 0;
     let mut newline_count = 0;
     let mut is_escaped: bool = false;
+    // The number of `>` on the current line that belong to the block quotes we're nested in.
+    // There are none on the first line.
+    let mut markers_on_line = 0;
 
     let mut iter = input.char_indices().peekable();
 
     while let Some((idx, c)) = iter.next() {
         tracing::trace!("c: {c:?}, phase: {phase:?} is_escaped: {is_escaped}");
+        let is_block_quote_marker = c == '>' && markers_on_line > 0;
+        if c == '\n' {
+            markers_on_line = block_quotes;
+        } else if is_block_quote_marker {
+            markers_on_line -= 1;
+        } else if !is_whitespace(c) {
+            markers_on_line = 0;
+        }
         match phase {
             LinkParserPhase::FindOpeningBracket => {
                 if c != '[' {
@@ -622,9 +650,7 @@ fn parse_link_reference_definition<'i>(
                     }
                     _ => false,
                 };
-                // FIXME(ytmimi) Assuming that `>` indicates a blockquote, but maybe there's a
-                // chance that its part of the title or label
-                if !next_is_important && (is_whitespace(c) || c == '>') {
+                if !next_is_important && (is_whitespace(c) || is_block_quote_marker) {
                     continue;
                 }
                 start = idx;
@@ -649,10 +675,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
-                // like a block quote, then we need to potentially ignore leading `>` chars, but if
-                // we're still on the same line then we can assume that the `>` is part of the URL.
-                if is_whitespace(c) || (newline_count > 0 && c == '>') {
+                if is_whitespace(c) || is_block_quote_marker {
                     continue;
                 }
 
@@ -726,7 +749,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                if is_whitespace(c) || c == '>' {
+                if is_whitespace(c) || is_block_quote_marker {
                     continue;
                 }
 
-- 
2.43.0


From 3ca0dd794e285a715d6a85c249294cd92f2e03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 59/84] fix: keep indented lines after a definition from
 interrupting its paragraph

---
 src/formatter.rs | 14 +++++++++++++-
 src/links.rs     |  4 ++--
 src/paragraph.rs | 16 +++++++++++++++-
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f0ee2b9..ba66285 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -18,7 +18,7 @@ use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
 use crate::links::{LinkReferenceDefinition, LinkWriter, parse_nested_link_reference_definitions};
 use crate::list::{LIST_START_CHARS, ListMarker};
-use crate::paragraph::Paragraph;
+use crate::paragraph::{PARAGRAPH_CONTINUATION_INDENT, Paragraph, interrupts_paragraph};
 use crate::table::TableState;
 use crate::utils::{
     count_newlines, count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape,
@@ -992,6 +992,18 @@ where
                     let newlines = self.count_newlines(&range);
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
+                    // The paragraph of a link reference definition may go on with an indented line
+                    let before = &self.input[..range.start];
+                    if newlines == 1
+                        && (before.ends_with(PARAGRAPH_CONTINUATION_INDENT)
+                            || before.ends_with('\t'))
+                        && self.input[range.clone()]
+                            .lines()
+                            .next()
+                            .is_some_and(interrupts_paragraph)
+                    {
+                        self.write_str(PARAGRAPH_CONTINUATION_INDENT)?;
+                    }
                 }
                 let capacity = (range.end - range.start) * 2;
                 let (max_width, should_reflow_text) = self.formatter.get_config(|c| {
diff --git a/src/links.rs b/src/links.rs
index be78678..91931e9 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -513,7 +513,7 @@ impl<'a> From<Vec<(Cow<'a, str>, std::ops::Range<usize>)>> for LinkLines<'a> {
 }
 
 #[cfg(test)]
-fn parse_link_reference_definitions(input: &str, offset: usize) -> Vec<LinkReferenceDefinition> {
+fn parse_link_reference_definitions(input: &str, offset: usize) -> Vec<LinkReferenceDefinition<'_>> {
     parse_nested_link_reference_definitions(input, offset, usize::MAX)
 }
 
@@ -566,7 +566,7 @@ enum MultiLinePhase {
 fn parse_link_reference_definition(
     input: &str,
     offset: usize,
-) -> Option<(LinkReferenceDefinition, usize)> {
+) -> Option<(LinkReferenceDefinition<'_>, usize)> {
     parse_nested_link_reference_definition(input, offset, usize::MAX)
 }
 
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 36fadd0..aa4c14d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,4 @@
-use crate::escape::{list_number_that_interrupts_paragraph, needs_escape};
+use crate::escape::{EscapeKind, SingleLineEscape, list_number_that_interrupts_paragraph, needs_escape};
 use crate::html::opens_html_block;
 use crate::links::is_balanced;
 use crate::utils::{is_char_esacped, is_whitespace, sequence_ends_on_escape};
@@ -400,6 +400,20 @@ fn could_start_block(word: &str) -> bool {
     }
 }
 
+/// Determine if this line would interrupt a paragraph if it weren't indented or escaped.
+/// Thematic breaks always get escaped.
+pub(super) fn interrupts_paragraph(line: &str) -> bool {
+    line.starts_with('>')
+        || opens_html_block(line)
+        || list_number_that_interrupts_paragraph(line).is_some()
+        || match needs_escape(line) {
+            Some(EscapeKind::SingleLine(escape)) => {
+                !matches!(escape, SingleLineEscape::ThematicBreak(_))
+            }
+            _ => false,
+        }
+}
+
 /// Determine if this ends with a line that only has what could be the label of a footnote
 pub(super) fn ends_with_footnote_label(text: &str) -> bool {
     let last_line = text.rsplit('\n').next().unwrap_or_default();
-- 
2.43.0


From 15439fa99175260add7b452ad0adcfaa827375ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 60/84] fix: keep `#` at the end of a heading's text

---
 src/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 38e7d4b..198efe9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -202,6 +202,12 @@ impl<'i> Header<'i> {
             return;
         }
 
+        // Only spaces and tabs can follow a closing sequence
+        if !self.buffer.ends_with('\u{c}') {
+            self.escape_trailing_hashtag();
+            return;
+        }
+
         while self
             .buffer
             .ends_with(|c: char| is_whitespace(c) || c == '#')
-- 
2.43.0


From 3178933c2ee1ae1210f0bccd638c345e197bef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 61/84] fix: escape backslashes before white space at the end
 of a line

---
 src/formatter.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ba66285..26eda10 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -815,27 +815,6 @@ where
                             last_was_lt && t.starts_with('!')
                         };
 
-                    // Prevent the next pass from interpreting this as a hard break
-                    let should_escape_an_escape =
-                        |t: &str, state: &mut FormatState<'i, 'm, I>, r: Range<usize>| -> bool {
-                            let not_empty_paragraph =
-                                !state.in_paragraph() && !state.is_current_buffer_empty();
-                            if not_empty_paragraph || !t.chars().all(|c| c == '\\') {
-                                return false;
-                            }
-
-                            // If the next is a soft break then we want to escape this `\\`
-                            let Some(Event::SoftBreak) = state.peek() else {
-                                return false;
-                            };
-
-                            let Some(last_line) = &self.input[..r.end].lines().last() else {
-                                return false;
-                            };
-
-                            sequence_ends_on_escape(last_line)
-                        };
-
                     // Prevent the next pass from interpreting this as an ordered list
                     let list_number = if self.last_was_line_break() && !starts_with_escape {
                         list_number_that_interrupts_paragraph(text)
@@ -865,7 +844,6 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
-                                || should_escape_an_escape(text, &mut self, range.clone())
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -899,6 +877,12 @@ where
                 Event::SoftBreak => {
                     last_position = range.end;
 
+                    let last_line = self.input[..range.start].rsplit('\n').next().unwrap_or("");
+                    let trimmed_line = last_line.trim_end_matches([' ', '\t']);
+                    if trimmed_line != last_line && sequence_ends_on_escape(trimmed_line) {
+                        // Without the white space the backslash would make this a hard break
+                        self.write_char('\\')?;
+                    }
                     writeln_context!(self, &event)?;
 
                     // paraphraphs write their indentation after reformatting the text
-- 
2.43.0


From 8b22b6cc066fd57d902fa605398ca5907f0de36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 62/84] fix: count the blank lines of a block quote that follow
 an empty list item

---
 src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 26eda10..76e9348 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1552,7 +1552,12 @@ where
             TagEnd::Item => {
                 let ref_def_range = self.last_position..range.end;
                 self.rewrite_reference_link_definitions(&ref_def_range)?;
-                let newlines = self.count_newlines(&range);
+                let newlines = if self.last_position == range.start {
+                    // Nothing but the marker. In a block quote its range includes blank lines.
+                    self.count_newlines_in_range(&range)
+                } else {
+                    self.count_newlines(&range)
+                };
                 if self.needs_indent && newlines > 0 {
                     self.write_newlines_no_trailing_whitespace(newlines)?;
                 }
-- 
2.43.0


From 91b83906253fdbfbfe7c60882698c2ed88640a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 63/84] fix: keep indented HTML after a list out of the list

---
 src/formatter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 76e9348..b80efc3 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1399,6 +1399,13 @@ where
 
                 self.nested_context.push(tag);
                 self.last_position = range.start;
+
+                if matches!(self.last_event, Some((Event::End(TagEnd::List(_)), _)))
+                    && matches!(self.peek(), Some(Event::Text(_)))
+                {
+                    // With the indentation the HTML could be part of the last item of the list
+                    self.events.next();
+                }
             }
             Tag::MetadataBlock(_meta) => {
                 let newlines = self.count_newlines(&range);
-- 
2.43.0


From 820b15a4a643cdbf2289ce25c8db6a375324c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 64/84] fix: ignore block quote markers after four spaces in
 lazy continuation lines

---
 src/formatter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index b80efc3..3ba2858 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -518,14 +518,21 @@ where
             _ => vec![],
         });
         let indentation = self.indentation.iter().map(|i| i.as_ref());
+        // The indentation of list items isn't what it was in the input
+        let mut only_in_blockquotes = true;
         for indent in taken_indentation.chain(indentation) {
             if indent.starts_with('>') {
+                if only_in_blockquotes && output.starts_with(PARAGRAPH_CONTINUATION_INDENT) {
+                    // That's a lazy continuation line, which has no markers
+                    break;
+                }
                 output = output.trim_start_matches(is_whitespace);
                 output = output
                     .strip_prefix('>')
                     .map(|o| o.strip_prefix(is_whitespace).unwrap_or(o))
                     .unwrap_or(output);
             } else {
+                only_in_blockquotes = false;
                 for _ in 0..indent.len() {
                     output = output.strip_prefix(is_whitespace).unwrap_or(output);
                 }
-- 
2.43.0


From d197a462a3bc1e2f362c138b21f7bb67cbeee3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 65/84] fix: don't let the end of a code span open a code block

---
 src/formatter.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3ba2858..a3a5b1f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -547,6 +547,7 @@ where
         event: &Event<'i>,
         snippet: &'i str,
         mut could_open_fence: bool,
+        rest_of_line: &str,
     ) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
         let ends_with_newline = snippet.ends_with('\n');
@@ -574,8 +575,9 @@ where
             if i > 0 {
                 // Escapes don't work in code spans and HTML. If the line would be interpreted as
                 // something else then join it with the one before.
-                let needs_escape = if is_last && matches!(event, Event::Code(_)) {
-                    self.needs_escape(&format!("{line}{trailing_spaces}`"), true)
+                let needs_escape = if is_last && !ends_with_newline {
+                    let last_line = format!("{line}{trailing_spaces}{rest_of_line}");
+                    self.needs_escape(&last_line, true)
                 } else {
                     self.needs_escape(line, true)
                 };
@@ -591,7 +593,11 @@ where
         }
 
         if ends_with_newline {
-            writeln_context!(self, event)?;
+            if self.needs_escape(rest_of_line, true).is_some() {
+                self.write_char(' ')?;
+            } else {
+                writeln_context!(self, event)?;
+            }
         }
         Ok(())
     }
@@ -865,13 +871,21 @@ where
                 Event::Code(_) => {
                     let snippet = &self.input[range.clone()];
                     if count_newlines(snippet) > 0 {
+                        let marker_len = snippet.len() - snippet.trim_start_matches('`').len();
+                        let rest = &self.input[range.end - marker_len..];
+                        let rest_of_line = split_lines(rest).next().unwrap_or("");
                         let snippet = snippet.trim_matches('`');
                         // Without the rest of the code span the marker could be a code fence
                         let could_open_fence = self.last_was_line_break()
                             && self.input[range.clone()].starts_with("```");
                         // write the opening and closing markers separately so they aren't escaped.
                         rewrite_marker(self.input, &range, &mut self)?;
-                        self.rewrite_multiline_event(&event, snippet, could_open_fence)?;
+                        self.rewrite_multiline_event(
+                            &event,
+                            snippet,
+                            could_open_fence,
+                            rest_of_line,
+                        )?;
                         rewrite_marker(self.input, &range, &mut self)?;
                     } else {
                         write!(self, "{snippet}")?;
@@ -879,7 +893,8 @@ where
                 }
                 Event::InlineHtml(_) => {
                     let snippet = &self.input[range.clone()];
-                    self.rewrite_multiline_event(&event, snippet, false)?;
+                    let rest_of_line = split_lines(&self.input[range.end..]).next().unwrap_or("");
+                    self.rewrite_multiline_event(&event, snippet, false, rest_of_line)?;
                 }
                 Event::SoftBreak => {
                     last_position = range.end;
-- 
2.43.0


From 6e900507ff638617735e4a3b44c5fb8db33359dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 66/84] fix: don't escape text that can't be a marker, or
 fences when that could close a code span

---
 src/formatter.rs | 38 ++++++++++++++++++++++++++++++++++++++
 src/header.rs    |  5 +++++
 src/paragraph.rs |  5 +++++
 3 files changed, 48 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index a3a5b1f..8147786 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -273,6 +273,15 @@ where
             .is_some_and(|w| matches!(w, MarkdownWriter::Paragraph(_)))
     }
 
+    /// Check if there are any backticks in the text of the current paragraph or heading
+    fn contains_backtick(&self) -> bool {
+        match self.writers.last() {
+            Some(MarkdownWriter::Paragraph(p)) => p.contains('`'),
+            Some(MarkdownWriter::Header(h)) => h.contains('`'),
+            _ => false,
+        }
+    }
+
     /// Check if we're in a Table
     fn in_table(&self) -> bool {
         self.writers
@@ -835,7 +844,36 @@ where
                         None
                     };
 
+                    let rest_of_line = split_lines(&self.input[range.end..]).next().unwrap_or("");
+                    // Markers of lists, headings and so on aren't followed by anything but white space
+                    let is_delimiter = text == "*"
+                        && rest_of_line
+                            .trim_start_matches('*')
+                            .starts_with(|c: char| !is_whitespace(c));
+                    let ends_at_escape = rest_of_line.starts_with('\\')
+                        && ["#", "=", "-", "+", "*"]
+                            .iter()
+                            .any(|marker| text.trim_start_matches(marker).is_empty());
+                    let is_no_marker = (is_delimiter || ends_at_escape)
+                        && self.last_was_line_break()
+                        && !starts_with_escape;
+                    let could_be_backtick_fence = !starts_with_escape
+                        && text.starts_with('`')
+                        && needs_escape.is_some_and(|kind| kind.multi_character_escape());
+
                     match (list_number, needs_escape) {
+                        _ if is_no_marker
+                            || (could_be_backtick_fence && rest_of_line.contains('`')) =>
+                        {
+                            // There's nothing to escape. The info string of a backtick code fence
+                            // can't contain backticks.
+                            write_context!(self, Escape, "{text}")?;
+                        }
+                        _ if could_be_backtick_fence && self.contains_backtick() => {
+                            // Escaped backticks could close a code span
+                            self.write_str(PARAGRAPH_CONTINUATION_INDENT)?;
+                            write_context!(self, Escape, "{text}")?;
+                        }
                         (Some(number_len), _) => {
                             let (number, rest) = text.split_at(number_len);
                             write_context!(self, &event, "{number}")?;
diff --git a/src/header.rs b/src/header.rs
index 198efe9..0602d0f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -135,6 +135,11 @@ impl<'i> Header<'i> {
         }
     }
 
+    /// Check if the internal buffer contains the character
+    pub(super) fn contains(&self, c: char) -> bool {
+        self.buffer.contains(c)
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/paragraph.rs b/src/paragraph.rs
index aa4c14d..5d411ac 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -196,6 +196,11 @@ impl Paragraph {
         self.max_width.is_some() && self.should_reflow_text
     }
 
+    /// Check if the internal buffer contains the character
+    pub(super) fn contains(&self, c: char) -> bool {
+        self.buffer.contains(c)
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
-- 
2.43.0


From 2474335da1574321bca41421aed079a024f5551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 67/84] fix: keep headings whose attributes make up a line,
 follow a marker or are empty

---
 src/formatter.rs |  9 ++++---
 src/header.rs    | 63 +++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8147786..ee3d2a0 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -851,9 +851,12 @@ where
                             .trim_start_matches('*')
                             .starts_with(|c: char| !is_whitespace(c));
                     let ends_at_escape = rest_of_line.starts_with('\\')
-                        && ["#", "=", "-", "+", "*"]
-                            .iter()
-                            .any(|marker| text.trim_start_matches(marker).is_empty());
+                        && ["#", "=", "-", "+", "*"].iter().any(|marker| {
+                            let after_marker = text.trim_start_matches(marker);
+                            // Spaces can only follow the line below a setext header
+                            after_marker.is_empty()
+                                || (*marker == "=" && after_marker.trim().is_empty())
+                        });
                     let is_no_marker = (is_delimiter || ends_at_escape)
                         && self.last_was_line_break()
                         && !starts_with_escape;
diff --git a/src/header.rs b/src/header.rs
index 0602d0f..734b2a4 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -14,6 +14,8 @@ pub(super) struct Header<'i> {
     indentation: Vec<Cow<'static, str>>,
     kind: HeaderKind<'i>,
     attrs_on_own_line: bool,
+    /// Whether there are empty attributes, which don't get rewritten
+    has_empty_attributes: bool,
     id: Option<CowStr<'i>>,
     classes: Vec<CowStr<'i>>,
     attrs: Vec<(CowStr<'i>, Option<CowStr<'i>>)>,
@@ -116,7 +118,9 @@ impl<'i> Header<'i> {
             .skip(1)
             .map(|l| l.trim_start_matches(|c: char| is_whitespace(c) || c == '>'))
             .next()
-            .is_some_and(|l| l.rfind('{') == Some(0));
+            .is_some_and(|l| {
+                l.rfind('{') == Some(0) && l.trim_end_matches(is_whitespace).ends_with('}')
+            });
 
         let kind = match (level, header_marker) {
             (HeadingLevel::H1, Some(marker)) => HeaderKind::SetextH1(marker),
@@ -124,9 +128,21 @@ impl<'i> Header<'i> {
             _ => HeaderKind::Atx(level),
         };
 
+        let last_line_of_text = match kind {
+            HeaderKind::Atx(_) => Some(full_header),
+            _ => full_header.lines().rev().nth(1),
+        };
+        let has_empty_attributes = last_line_of_text.is_some_and(|l| {
+            l.trim_end_matches(is_whitespace)
+                .strip_suffix('}')
+                .map(|l| l.trim_end_matches(|c| is_whitespace(c) || matches!(c, '#' | '.' | '=')))
+                .is_some_and(|l| l.ends_with('{'))
+        });
+
         Self {
             buffer: String::with_capacity(full_header.len() * 2),
             indentation,
+            has_empty_attributes,
             kind,
             attrs_on_own_line,
             id,
@@ -188,6 +204,9 @@ impl<'i> Header<'i> {
         };
 
         self.escape_trailing_empty_attribute_brackets();
+        if self.has_empty_attributes && !self.has_attributes() {
+            self.escape_trailing_attributes();
+        }
         if let Some(spaces) = hard_break {
             self.buffer.push_str(&get_spaces(spaces));
         }
@@ -259,6 +278,25 @@ impl<'i> Header<'i> {
         }
     }
 
+    // Without the empty attributes the end of the text would be the attributes of the header
+    fn escape_trailing_attributes(&mut self) {
+        if !self.buffer.ends_with('}') {
+            return;
+        }
+
+        let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
+        let Some(position) = last_line.rfind('{') else {
+            return;
+        };
+        let open_bracket_index = self.buffer.len() - last_line.len() + position;
+        let close_bracket_index = self.buffer.len() - '}'.len_utf8();
+        for index in [close_bracket_index, open_bracket_index] {
+            if !sequence_ends_on_escape(&self.buffer[..index]) {
+                self.buffer.insert(index, '\\');
+            }
+        }
+    }
+
     fn escape_trailing_empty_attribute_brackets(&mut self) {
         // Get rid of any trailing whitespace after the `{}`
         while self.buffer.ends_with(is_whitespace) {
@@ -317,6 +355,18 @@ impl<'i> Header<'i> {
         )
     }
 
+    /// Check if the last line of a setext header would be another block if it had a space at the end
+    fn ends_with_marker(&self) -> bool {
+        let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
+        let is_first_line = last_line.len() == self.buffer.len();
+        let is_list_number = last_line.strip_suffix(['.', ')']).is_some_and(|n| {
+            // Only lists that start with 1 interrupt the text
+            let is_one = n.trim_start_matches('0') == "1";
+            !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) && (is_first_line || is_one)
+        });
+        self.is_setext_header() && (is_list_number || needs_escape(last_line).is_some())
+    }
+
     /// Write the final marker line for setext headers
     fn write_setext_header(&mut self) -> std::fmt::Result {
         match self.kind {
@@ -355,6 +405,10 @@ impl<'i> Header<'i> {
                     self.buffer.pop();
                 }
             }
+            if self.has_empty_attributes && self.ends_with_marker() {
+                // With the attributes the last line of the text isn't a block of its own
+                self.buffer.push_str("{}");
+            }
             return Ok(());
         }
 
@@ -363,10 +417,13 @@ impl<'i> Header<'i> {
         let id = self.id.take();
 
         if self.attrs_on_own_line {
-            if !self.buffer.ends_with('\n') {
+            if !self.buffer.is_empty() && !self.buffer.ends_with('\n') {
                 writeln!(self.buffer)?;
             }
-        } else if !self.buffer.is_empty() && !sequence_ends_on_escape(&self.buffer) {
+        } else if !self.buffer.is_empty()
+            && !sequence_ends_on_escape(&self.buffer)
+            && !self.ends_with_marker()
+        {
             write!(self.buffer, " ")?;
         }
 
-- 
2.43.0


From f4f3ac694b637270c66e278fe36edb584f47687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 68/84] fix: split the title from the destination of a link
 where the destination ends

---
 src/links.rs | 88 ++++++++++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 55 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 91931e9..124c5cf 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -169,67 +169,45 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
         return Some((String::new(), None));
     }
 
-    split_inline_url_from_title(inline_url, inline_url.ends_with(['"', '\'', ')']))
+    Some(split_inline_url_from_title(inline_url))
 }
 
-// The link must have a title if we're calling this
-fn link_title_start(link: &[u8]) -> usize {
-    let last = *link.last().expect("links titles must have quotes");
-    let opener = if last == b')' { b'(' } else { last };
-
-    // offset by 2 to skip triling quote
-    let mut index = link.len().saturating_sub(2);
-    while index.saturating_sub(1) != 0 {
-        if link[index] == opener && link[index - 1] != b'\\' {
-            return index;
-        }
-        index -= 1;
-    }
-
-    // Odd case where a title is in the place of a url
-    //https://spec.commonmark.org/0.30/#example-503
-    0
-}
-
-fn trim_angle_brackes(url: &str) -> &str {
-    if url.starts_with('<') && url.ends_with('>') {
+fn split_inline_url_from_title(input: &str) -> (String, Option<(String, char)>) {
+    // See https://spec.commonmark.org/0.31.2/#link-destination
+    let (url, title) = if let Some(bracketed) = input.strip_prefix('<') {
         // Spaces between angle brackets are part of the destination
-        &url[1..url.len() - 1]
+        let mut is_escaped = false;
+        let end = bracketed.find(|c| {
+            let is_end = c == '>' && !is_escaped;
+            is_escaped = is_char_esacped(c, is_escaped);
+            is_end
+        });
+        let (url, rest) = bracketed.split_at(end.unwrap_or(bracketed.len()));
+        (url.to_string(), rest.strip_prefix('>').unwrap_or(rest))
     } else {
-        url.trim_matches(is_whitespace)
-    }
-}
-
-fn split_inline_url_from_title(
-    input: &str,
-    has_title: bool,
-) -> Option<(String, Option<(String, char)>)> {
-    // If both link destination and link title are present, they must be separated by spaces, tabs,
-    // and up to one line ending.
-    let has_space = input.contains(char::is_whitespace);
-    let only_link = !has_space && has_title;
-    let link_start = link_title_start(input.as_bytes());
-    if only_link || !has_title || link_start == 0 {
-        return Some((trim_angle_brackes(input).to_string(), None));
-    }
-
-    let (mut url, mut title_with_quotes) = input.split_at(link_start);
-
-    url = url.trim();
-
-    title_with_quotes = title_with_quotes.trim_matches(is_whitespace);
+        // What looks like a title is one, no matter what kind of space comes before it
+        let end = input.char_indices().find(|(position, c)| {
+            let rest = &input[*position..];
+            is_whitespace(*c)
+                || c.is_whitespace() && rest.trim_start().starts_with(['"', '\'', '('])
+        });
+        let (url, title) = input.split_at(end.map_or(input.len(), |(position, _)| position));
+        // What ends the destination can't be escaped
+        let escape = if sequence_ends_on_escape(url) {
+            "\\"
+        } else {
+            ""
+        };
+        (format!("{url}{escape}"), title)
+    };
 
     // Remove the wrapping quotes from the title
-    let quote = title_with_quotes
-        .bytes()
-        .last()
-        .expect("url title has a quote") as char;
-    let title = &title_with_quotes[1..title_with_quotes.len() - 1];
-
-    Some((
-        trim_angle_brackes(url).to_string(),
-        Some((title.to_string(), quote)),
-    ))
+    let title_with_quotes = title.trim();
+    let title = title_with_quotes.chars().last().and_then(|quote| {
+        let end = title_with_quotes.len() - quote.len_utf8();
+        Some((title_with_quotes.get(1..end)?.to_string(), quote))
+    });
+    (url, title)
 }
 
 struct LinkReferenceDefinitionBuilder<'a> {
-- 
2.43.0


From 0ea37e4fe419065d0ba52e3973b81307eb3cf6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 69/84] fix: find the label of a link after the collapsed
 reference in its text

---
 src/formatter.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ee3d2a0..97f5cec 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1712,7 +1712,20 @@ where
                 self.write_str(&link_writer.into_buffer())?;
                 // The text of the link may contain brackets that don't close it (think of code spans),
                 // so start looking for the closing bracket after the last event in the text.
-                let text_end = self.last_position.clamp(range.start, range.end);
+                let mut text_end = self.last_position;
+                if let Some((Event::End(TagEnd::Image | TagEnd::Link), inner_range)) =
+                    &self.last_event
+                {
+                    text_end = text_end.max(inner_range.end);
+                    if self.input[text_end..].starts_with("[]") {
+                        // Not part of the range of a collapsed reference
+                        text_end += "[]".len();
+                    }
+                }
+                let text_end = text_end.clamp(range.start, range.end);
+                let text_end = self.input[text_end..range.end]
+                    .find(']')
+                    .map_or(text_end, |position| text_end + position);
                 let rest = &self.input[text_end..range.end];
                 let rest = &rest[rest.find(']').unwrap_or(0)..];
 
-- 
2.43.0


From 2906339f8cb3668a75870720b6d9d9731b67ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 70/84] fix: keep escaped brackets before labels, and labels
 that span lines

---
 src/formatter.rs | 42 +++++++++++++++++++++++-------------------
 src/links.rs     | 22 ++++++++++------------
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 97f5cec..8051018 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1727,7 +1727,12 @@ where
                     .find(']')
                     .map_or(text_end, |position| text_end + position);
                 let rest = &self.input[text_end..range.end];
-                let rest = &rest[rest.find(']').unwrap_or(0)..];
+                // The parser also looks for labels after escaped brackets
+                let opener = if self.input[text_end..].starts_with("]\\[") {
+                    "]\\["
+                } else {
+                    "]["
+                };
 
                 match link_type {
                     LinkType::Inline => {
@@ -1756,26 +1761,25 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        let label = crate::links::find_reference_link_label(rest);
-                        if count_newlines(label) > 0 {
-                            write!(self, "][")?;
-                            let label = split_lines(label)
-                                .map(|l| self.trim_leading_indentation(l))
+                        // The label might be on different lines
+                        let label =
+                            split_lines(crate::links::find_reference_link_label(rest, opener))
+                                .enumerate()
+                                .map(|(i, l)| {
+                                    if i == 0 {
+                                        l
+                                    } else {
+                                        self.trim_leading_indentation(l)
+                                    }
+                                })
                                 .join("\n");
-
-                            if label.starts_with('^') {
-                                write!(self, "\\")?;
-                            }
-
-                            self.write_str(&label)?;
-                            write!(self, "]")?;
-                        } else if label.starts_with('^') {
-                            write!(self, "][\\{label}]")?;
-                        } else {
-                            write!(self, "][{label}]")?;
-                        }
+                        let label = label.trim_matches(is_whitespace);
+                        let escape = if label.starts_with('^') { "\\" } else { "" };
+                        write!(self, "{opener}{escape}")?;
+                        self.write_str(label)?;
+                        write!(self, "]")?;
                     }
-                    LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
+                    LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "{opener}]")?,
                     LinkType::Shortcut | LinkType::ShortcutUnknown => write!(self, "]")?,
                     LinkType::Autolink | LinkType::Email => write!(self, ">")?,
                     LinkType::WikiLink { .. } => {
diff --git a/src/links.rs b/src/links.rs
index 124c5cf..1640565 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -149,12 +149,9 @@ pub(crate) fn is_balanced(s: &str, opener: char, closer: char) -> bool {
 
 /// Everything after the text of a reference link. They are expected to be well formed:
 /// `][bar]` -> bar
-pub(super) fn find_reference_link_label(input: &str) -> &str {
-    let label = input.strip_prefix("][").unwrap_or(input);
-    label
-        .strip_suffix(']')
-        .unwrap_or(label)
-        .trim_matches(is_whitespace)
+pub(super) fn find_reference_link_label<'a>(input: &'a str, opener: &str) -> &'a str {
+    let label = input.strip_prefix(opener).unwrap_or(input);
+    label.strip_suffix(']').unwrap_or(label)
 }
 
 /// Everything after the text of an inline link. They are expected to be well formed:
@@ -228,10 +225,14 @@ impl<'a> LinkReferenceDefinitionBuilder<'a> {
     fn set_label(&mut self, label: Cow<'a, str>, range: std::ops::Range<usize>, offset: usize) {
         let mut label_parts = self.label.take().unwrap_or(LinkLines::new());
         let offset_range = (offset + range.start)..(offset + range.end);
-        if label_parts.is_empty() && label.starts_with('^') {
+        let is_start = label_parts
+            .iter()
+            .all(|l| l.trim_matches(is_whitespace).is_empty());
+        let label_start = label.trim_start_matches(is_whitespace);
+        if is_start && label_start.starts_with('^') {
             let mut new_label = String::with_capacity(label.len() + 1);
             new_label.push('\\');
-            new_label.push_str(&label);
+            new_label.push_str(label_start);
             label_parts.push((new_label.into(), offset_range));
         } else {
             label_parts.push((label, offset_range));
@@ -443,10 +444,6 @@ impl<'a> LinkLines<'a> {
         self.0.iter().map(|(item, _)| item.as_ref())
     }
 
-    fn is_empty(&self) -> bool {
-        self.0.is_empty()
-    }
-
     fn write<W: std::fmt::Write>(&self, writer: &mut W) -> std::fmt::Result {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
@@ -632,6 +629,7 @@ fn parse_nested_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                is_escaped = is_char_esacped(c, false);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
-- 
2.43.0


From 8606afe4171d7131b41e37f1b6326c5aba795f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 71/84] fix: write nothing for the white space after a link
 reference definition

---
 src/formatter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8051018..c68671f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1035,6 +1035,11 @@ where
 
         match tag {
             Tag::Paragraph => {
+                if matches!(self.peek(), Some(Event::End(TagEnd::Paragraph))) {
+                    // There's only white space after a link reference definition
+                    self.events.next();
+                    return Ok(());
+                }
                 if self.needs_indent {
                     let newlines = self.count_newlines(&range);
                     self.write_newlines(newlines)?;
-- 
2.43.0


From f8bec3aad398e0f7e2ac5dba0307be83642543c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 72/84] fix: only separate a list from the indented code that
 follows it

---
 src/formatter.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index c68671f..e392356 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1617,8 +1617,21 @@ where
                 //     To separate consecutive lists of the same type, or to separate a list from an
                 //     indented code block that would otherwise be parsed as a subparagraph of the
                 //     final list item, you can insert a blank HTML comment
-                if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
+                let next_is_code_block = match self.peek_with_range() {
+                    Some((Event::Start(Tag::CodeBlock(CodeBlockKind::Indented)), code_range)) => {
+                        let code_start = code_range.start;
+                        // Link reference definitions also separate the two
+                        self.input[range.end.min(code_start)..code_start]
+                            .trim_matches(|c| is_whitespace(c) || c == '>')
+                            .is_empty()
+                    }
+                    _ => false,
+                };
+                if next_is_code_block {
                     self.write_newlines(1)?;
+                    if self.writers.is_empty() && self.rewrite_buffer.ends_with('\n') {
+                        self.write_indentation(false)?;
+                    }
                     write!(self, "<!-- Don't absorb code block into list -->")?;
                     self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
-- 
2.43.0


From 00f4c73b0fe251f9ef4bf875793479f0f34b7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:03 +0000
Subject: [PATCH 73/84] fix: don't turn indented rules and text into metadata
 blocks

---
 src/formatter.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e392356..e805261 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -265,6 +265,21 @@ where
         matches!(self.nested_context.last(), Some(Tag::HtmlBlock))
     }
 
+    /// Check if what isn't a metadata block because of its indentation could be one without it
+    fn could_start_metadata_block(&self, range: &Range<usize>, delimiter: &str) -> bool {
+        if self.indentation.iter().any(|i| !i.starts_with('>')) {
+            return false;
+        }
+
+        let in_block_quote = !self.indentation.is_empty();
+        let mut lines = self.input[range.start..]
+            .lines()
+            .map(|l| l.trim_matches(|c| is_whitespace(c) || (c == '>' && in_block_quote)));
+        lines.next() == Some(delimiter)
+            && lines.next().is_some_and(|l| !l.is_empty())
+            && lines.any(|l| l == delimiter || l == "...")
+    }
+
     /// Check if we're in a "paragraph". A `Paragraph` might not necessarily be on the
     /// nested_context stack.
     fn in_paragraph(&self) -> bool {
@@ -347,7 +362,14 @@ where
             // likely in some nested context
             self.input[self.last_position..range.end].trim_end_matches(['\r', '\n'])
         };
-        count_newlines(snippet)
+        let newlines = count_newlines(snippet);
+        match &self.last_event {
+            Some((Event::Rule, rule)) if self.could_start_metadata_block(rule, "---") => {
+                // The opening delimiter of a metadata block isn't followed by a blank line
+                newlines.max(2)
+            }
+            _ => newlines,
+        }
     }
 
     fn write_indentation(&mut self, trim_trailing_whiltespace: bool) -> std::fmt::Result {
@@ -896,6 +918,9 @@ where
                         }
                         _ => {
                             if starts_with_escape
+                                || text == "+++"
+                                    && !self.last_was_line_break()
+                                    && self.could_start_metadata_block(&range, text)
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
                                 || (self.in_table() && text.starts_with('|'))
-- 
2.43.0


From c2348de2a9a9fca05919ea9e40d9543597e7f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 74/84] fix: don't let a code span that starts with a line
 break open a code fence

---
 src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e805261..4fb5d8f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -624,7 +624,7 @@ where
         }
 
         if ends_with_newline {
-            if self.needs_escape(rest_of_line, true).is_some() {
+            if could_open_fence || self.needs_escape(rest_of_line, true).is_some() {
                 self.write_char(' ')?;
             } else {
                 writeln_context!(self, event)?;
@@ -938,7 +938,9 @@ where
                     let snippet = &self.input[range.clone()];
                     if count_newlines(snippet) > 0 {
                         let marker_len = snippet.len() - snippet.trim_start_matches('`').len();
-                        let rest = &self.input[range.end - marker_len..];
+                        // The parser reads on after a `\r`, so there might not be a closing marker
+                        let rest = self.input.get(range.end - marker_len..);
+                        let rest = rest.unwrap_or_default();
                         let rest_of_line = split_lines(rest).next().unwrap_or("");
                         let snippet = snippet.trim_matches('`');
                         // Without the rest of the code span the marker could be a code fence
-- 
2.43.0


From 8f8050a131dd7fa155e5cace280aa64fe8a8d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 75/84] fix: keep the white space in braces at the end of a
 heading

---
 src/header.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 734b2a4..6a3756f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -333,17 +333,10 @@ impl<'i> Header<'i> {
             .expect("We just checked that there is an open bracket");
         let ends_with_escape = sequence_ends_on_escape(&self.buffer[..open_bracket_index]);
 
-        while !self.buffer.ends_with('{') {
-            self.buffer.pop();
-        }
-
-        // Remove the '{'
-        self.buffer.pop();
-
-        if ends_with_escape {
-            self.buffer.push_str("{\\}");
-        } else {
-            self.buffer.push_str("\\{\\}");
+        let close_bracket_index = self.buffer.len() - '}'.len_utf8();
+        self.buffer.insert(close_bracket_index, '\\');
+        if !ends_with_escape {
+            self.buffer.insert(open_bracket_index, '\\');
         }
     }
 
-- 
2.43.0


From cd80ce29cab1289c361a6824f2bdc7b107b20f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 76/84] fix: don't take a space for the name of an HTML tag

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 6911095..7cc0613 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -118,7 +118,7 @@ pub(crate) fn opens_html_block(html: &str) -> bool {
 
 /// Check if the given string starts with a well known HTML block tag name
 pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() {
+    if s.is_empty() || s.starts_with(is_whitespace) {
         return false;
     }
 
-- 
2.43.0


From 24c1b27950720e2b771c75ce8f07db0a17db9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 77/84] fix: keep lines that get joined a part of their
 paragraph

---
 src/formatter.rs | 11 ++++++-
 src/paragraph.rs | 85 ++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 92 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4fb5d8f..5acab35 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -173,6 +173,8 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
+    /// Where the last link reference definition ended
+    last_definition_end: Option<usize>,
     // Last event emitted from the inner iterator
     last_event: Option<I::Item>,
     formatter: &'m MarkdownFormatter,
@@ -481,6 +483,7 @@ where
             self.write_newlines(newlines)?;
             link_def.write(self)?;
             self.last_position = link_range.end;
+            self.last_definition_end = Some(link_range.end);
             self.needs_indent = true;
         }
         Ok(())
@@ -651,6 +654,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            last_definition_end: None,
             last_event: None,
             formatter,
         }
@@ -1067,8 +1071,11 @@ where
                     self.events.next();
                     return Ok(());
                 }
+                let mut follows_definition = false;
                 if self.needs_indent {
                     let newlines = self.count_newlines(&range);
+                    follows_definition =
+                        newlines == 1 && self.last_definition_end == Some(self.last_position);
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
                     // The paragraph of a link reference definition may go on with an indented line
@@ -1082,6 +1089,7 @@ where
                             .is_some_and(interrupts_paragraph)
                     {
                         self.write_str(PARAGRAPH_CONTINUATION_INDENT)?;
+                        follows_definition = false;
                     }
                 }
                 let capacity = (range.end - range.start) * 2;
@@ -1091,7 +1099,8 @@ where
                         .map(|w| w.saturating_sub(self.indentation_len()));
                     (width, c.reflow_text())
                 });
-                let paragraph = Paragraph::new(max_width, should_reflow_text, capacity);
+                let paragraph =
+                    Paragraph::new(max_width, should_reflow_text, follows_definition, capacity);
                 self.writers.push(paragraph.into());
             }
             Tag::Heading { .. } => {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 5d411ac..80f2a54 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -5,7 +5,7 @@ use crate::utils::{is_char_esacped, is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
-use regex::Regex;
+use regex::{Captures, Regex};
 use std::fmt::Write;
 use std::sync::OnceLock;
 use textwrap::core::Word;
@@ -22,6 +22,8 @@ pub(super) struct Paragraph {
     buffer: String,
     max_width: Option<usize>,
     should_reflow_text: bool,
+    /// Whether the paragraph starts right below a link reference definition, without indentation
+    follows_definition: bool,
 }
 
 impl WriteContext<'_> for Paragraph {
@@ -183,9 +185,15 @@ impl Write for Paragraph {
 }
 
 impl Paragraph {
-    pub(super) fn new(max_width: Option<usize>, should_reflow_text: bool, capacity: usize) -> Self {
+    pub(super) fn new(
+        max_width: Option<usize>,
+        should_reflow_text: bool,
+        follows_definition: bool,
+        capacity: usize,
+    ) -> Self {
         Self {
             max_width,
+            follows_definition,
             buffer: String::with_capacity(capacity),
             should_reflow_text,
         }
@@ -208,13 +216,17 @@ impl Paragraph {
 
     /// Consume Self and return the formatted buffer
     pub(super) fn into_buffer(mut self) -> String {
-        let rewrite_buffer = std::mem::take(&mut self.buffer);
+        let mut rewrite_buffer = std::mem::take(&mut self.buffer);
 
         let Some(max_width) = self.max_width else {
             // We didn't configure a max_width, so just return the buffer
             return rewrite_buffer;
         };
 
+        if self.should_reflow_text {
+            keep_joined_lines_in_paragraph(&mut rewrite_buffer, self.follows_definition);
+        }
+
         let all_lines_with_max_width = rewrite_buffer.lines().all(|l| l.len() <= max_width);
 
         if all_lines_with_max_width {
@@ -261,6 +273,73 @@ impl Paragraph {
     }
 }
 
+/// Several lines that were joined to one could be a block of its own.
+fn keep_joined_lines_in_paragraph(text: &mut String, follows_definition: bool) {
+    static THEMATIC_BREAK_REGEX: OnceLock<Regex> = OnceLock::new();
+    let thematic_break = THEMATIC_BREAK_REGEX.get_or_init(|| {
+        // The text before other inlines gets escaped too, if it's all on one line
+        let inline = r"[*_~`<\[\]!&\\]";
+        Regex::new(&format!(r"(?m)^({THEMATIC_BREAK})(?<end>{inline}|$)")).expect("valid regex")
+    });
+    static HTML_TAG_REGEX: OnceLock<Regex> = OnceLock::new();
+    let html_tag = HTML_TAG_REGEX.get_or_init(|| {
+        let name = "[a-zA-Z][-a-zA-Z0-9]*";
+        Regex::new(&format!(r"^<{name}( )[a-zA-Z_:][^<>]*>[ \t]*(?-u:\n|$)")).expect("valid regex")
+    });
+
+    static LIST_MARKER_REGEX: OnceLock<Regex> = OnceLock::new();
+    let list_marker = LIST_MARKER_REGEX.get_or_init(|| {
+        Regex::new(r"(?m)^(?<marker>[0-9]{1,9}[.)]|[-*+])[ \t]").expect("valid regex")
+    });
+
+    let markers: Vec<usize> = list_marker
+        .captures_iter(text)
+        .filter_map(|captures| captures.name("marker"))
+        .filter(|marker| match marker.start() {
+            0 => follows_definition,
+            _ => marker.len() == 1,
+        })
+        .map(|marker| marker.end() - 1)
+        .collect();
+    for index in markers.into_iter().rev() {
+        text.insert(index, '\\');
+    }
+    if thematic_break.is_match(text) {
+        let escape = |captures: &Captures<'_>| {
+            let matched = captures.get(0).expect("this always matches");
+            let (end, text) = (&captures["end"], matched.as_str());
+            // Markers that are followed by another inline may be a part of it
+            let markers_end = if end.is_empty() {
+                Some(text.len())
+            } else {
+                text.rfind(is_whitespace)
+            };
+            let Some(markers_end) = markers_end else {
+                return text.to_owned();
+            };
+            if matched.start() == 0 {
+                return format!("\\{text}");
+            }
+            // What's left could be a delimiter that goes with one on the line before
+            let (markers, end) = text.split_at(markers_end);
+            let mut escaped = String::with_capacity(text.len() * 2);
+            for c in markers.chars() {
+                if !is_whitespace(c) {
+                    escaped.push('\\');
+                }
+                escaped.push(c);
+            }
+            escaped + end
+        };
+        *text = thematic_break.replace_all(text, escape).into_owned();
+    }
+    let space = html_tag.captures(text).and_then(|tag| tag.get(1));
+    if let Some(range) = space.map(|space| space.range()) {
+        // Attributes can be on the next line, but an HTML block starts with a whole tag
+        text.replace_range(range, "\n");
+    }
+}
+
 /// Wrap each line of the text. Any spaces at the end of a line are the content of code spans or
 /// inline HTML, so they have to stay.
 fn fill(text: &str, options: &TextWrapOptions<'_>) -> String {
-- 
2.43.0


From bac364ac53d06a537ba2ddcb63583eca880d2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 78/84] fix: don't turn text into link reference definitions
 when wrapping it

---
 src/paragraph.rs | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 80f2a54..ce1e46a 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -250,13 +250,18 @@ impl Paragraph {
             // When reflowing text the soft breaks were already replaced, so the only line breaks
             // that are left are hard breaks.
             if output_buffer.is_empty() {
-                let (first_line, rest) = match text.find('\n') {
-                    Some(line_end) => text.split_at(line_end),
+                let definition_end = end_of_definition_lines(text, self.follows_definition);
+                let (first_line, rest) = match text[definition_end..].find('\n') {
+                    Some(line_end) => text.split_at(definition_end + line_end),
                     None => (text, ""),
                 };
-                let separator = WordSeparator::Custom(find_words_in_first_line);
-                let first_line_options = wrap_options.clone().word_separator(separator);
-                output_buffer.push_str(&fill(first_line, &first_line_options));
+                if definition_end > 0 {
+                    output_buffer.push_str(first_line);
+                } else {
+                    let separator = WordSeparator::Custom(find_words_in_first_line);
+                    let first_line_options = wrap_options.clone().word_separator(separator);
+                    output_buffer.push_str(&fill(first_line, &first_line_options));
+                }
                 if let Some(rest) = rest.strip_prefix('\n') {
                     output_buffer.push('\n');
                     output_buffer.push_str(&fill(rest, &wrap_options));
@@ -358,6 +363,35 @@ fn fill(text: &str, options: &TextWrapOptions<'_>) -> String {
 /// Matches a thematic break at the start of a line
 const THEMATIC_BREAK: &str = r"(\*[ \t]*){3,}|(-[ \t]*){3,}|(_[ \t]*){3,}";
 
+/// Matches a link reference definition at the start of a line
+const DEFINITION: &str = r"\[(\\.|[^\]\\])+\]:\s*(<(\\.|[^>\\])*>|\S+)";
+const TITLE: &str = r#"("(\\.|[^"\\])*"|'(\\.|[^'\\])*'|\((\\.|[^()\\])*\))"#;
+
+/// Find the end of the lines at the start of a paragraph that would be a link reference definition,
+/// or the title of the one before the paragraph, without the text that follows.
+fn end_of_definition_lines(text: &str, follows_definition: bool) -> usize {
+    static DEFINITION_REGEX: OnceLock<Regex> = OnceLock::new();
+    let definition = DEFINITION_REGEX.get_or_init(|| {
+        Regex::new(&format!(r"^{DEFINITION}(\s+{TITLE})?(?-u:\s+|$)")).expect("valid regex")
+    });
+    static TITLE_REGEX: OnceLock<Regex> = OnceLock::new();
+    let title = TITLE_REGEX
+        .get_or_init(|| Regex::new(&format!(r"^\s*{TITLE}(?-u:\s+|$)")).expect("valid regex"));
+
+    let find_lines = |regex: &Regex| {
+        let end = regex.find(text)?.as_str().trim_end().len();
+        let line_end = text[end..].find('\n').map_or(text.len(), |i| end + i);
+        Some((end, line_end))
+    };
+    if let Some((_, line_end)) = follows_definition.then(|| find_lines(title)).flatten() {
+        return line_end;
+    }
+    match find_lines(definition) {
+        Some((end, line_end)) if text[..end].contains('\n') => line_end,
+        _ => 0,
+    }
+}
+
 /// Split a line into words that are separated by spaces, where words that can't be wrapped without
 /// changing the meaning of the text stay together.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
@@ -380,7 +414,7 @@ fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '
     let block_if_alone = BLOCK_IF_ALONE_REGEX.get_or_init(|| {
         // A thematic break, a link reference definition, an HTML tag, or a task list marker
         // See: https://spec.commonmark.org/0.30/#html-blocks (start condition 7)
-        let definition = r"\[[^\]]+\]:\s*(<[^>]*>|\S+)";
+        let definition = format!(r"{DEFINITION}(\s+{TITLE})?");
         let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
         let task_list_marker = r"\[[ xX]\]";
         Regex::new(&format!(
-- 
2.43.0


From 8ea2725c26224907a05a8a2a4cc4badd84f52df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 79/84] fix: don't wrap markers into a thematic break with
 those of their item

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index ce1e46a..a8f7a2d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -417,8 +417,10 @@ fn find_words_in_first_line(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '
         let definition = format!(r"{DEFINITION}(\s+{TITLE})?");
         let html_tag = r"</?[a-zA-Z][-a-zA-Z0-9]*(\s[^<>]*)?/?>";
         let task_list_marker = r"\[[ xX]\]";
+        // A thematic break together with the marker of the list item that the line is in
+        let item_and_markers = r"(\*[ \t]*){2,}|(-[ \t]*){2,}";
         Regex::new(&format!(
-            r"^({THEMATIC_BREAK}|{definition}|{html_tag}|{task_list_marker})(?-u:\s+|$)"
+            r"^({THEMATIC_BREAK}|{item_and_markers}|{definition}|{html_tag}|{task_list_marker})(?-u:\s+|$)"
         ))
         .expect("valid regex")
     });
-- 
2.43.0


From 44fe93bfd9d55c07a1d5347674261947641e7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 80/84] fix: don't wrap declarations

---
 src/paragraph.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index a8f7a2d..26a78cb 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -476,7 +476,8 @@ fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<
     }))
 }
 
-/// Determine if a link destination that's enclosed in `<>` continues after this word.
+/// Determine if a link destination that's enclosed in `<>` or a declaration like `<!X a>` continues
+/// after this word.
 fn starts_destination_with_spaces(word: &str, in_destination: bool) -> bool {
     let ends_destination = |s: &str| {
         let mut was_last_escape = false;
@@ -486,7 +487,11 @@ fn starts_destination_with_spaces(word: &str, in_destination: bool) -> bool {
             ends
         })
     };
-    match word.rfind("](<") {
+    let declaration = word.rfind("<!").filter(|start| {
+        let name = word[start + "<!".len()..].chars().next();
+        name.is_some_and(|c| c.is_ascii_alphabetic())
+    });
+    match declaration.max(word.rfind("](<")) {
         Some(start) => !ends_destination(&word[start..]),
         None => in_destination && !ends_destination(word),
     }
-- 
2.43.0


From 6146a8ca3834df76e8b8caf63c26600841b2803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 81/84] fix: don't wrap before text that would be escaped the
 next time

---
 src/paragraph.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 26a78cb..cc6f6c9 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -455,11 +455,14 @@ fn find_words_after(line: &str, min_end: usize) -> Box<dyn Iterator<Item = Word<
         while let Some(next) = words.peek() {
             // A `\` at the end of a line is a hard break, there can't be line breaks in `<>`, the
             // space in `[ ]` is what makes it a task list marker, indentation isn't a line, and
-            // several spaces might be the content of a code span.
+            // several spaces might be the content of a code span. Tabs next to a line break
+            // would get lost.
             let is_task_list_marker = word.ends_with('[') && next.starts_with(']');
             if !(end <= min_end
                 || word.is_empty()
                 || word.whitespace.len() > 1
+                || word.ends_with('\t')
+                || next.starts_with('\t')
                 || in_destination
                 || is_task_list_marker
                 || sequence_ends_on_escape(&word)
@@ -510,21 +513,44 @@ fn could_start_block(word: &str) -> bool {
     match word.as_bytes() {
         [] => false,
         [b'>', ..] => true,
-        [b'<', ..] => opens_html_block(word),
+        [b'<', rest @ ..] => {
+            let text_end = rest
+                .iter()
+                .position(|b| INLINE_START.contains(&char::from(*b)));
+            let text_end = text_end.map_or(word.len(), |end| '<'.len_utf8() + end);
+            opens_html_block(word) || opens_html_block(&word[..text_end])
+        }
         [b'[', b'^', ..] => word.contains("]:") || !word.contains(']'),
         [b'0'..=b'9', ..] => is_list_number(word),
         [b'`' | b'~', ..] => word.starts_with("```") || word.starts_with("~~~"),
         [b'|', ..] => true,
         // Lists, headings, thematic breaks, and the delimiter row of tables
-        _ => {
+        [first, ..] => {
             ['#', '=', '+', '*', '_']
                 .iter()
                 .any(|marker| word.chars().all(|c| c == *marker))
                 || word.chars().all(|c| matches!(c, '-' | ':' | '|'))
+                || starts_escaped_text(word, char::from(*first))
         }
     }
 }
 
+/// Where inlines other than text could start
+const INLINE_START: [char; 10] = ['*', '_', '~', '`', '<', '[', ']', '!', '&', '\\'];
+
+/// Determine if the parser would split this word into several events, where the text of the first
+/// one gets escaped if it's at the start of a line.
+fn starts_escaped_text(word: &str, marker: char) -> bool {
+    let rest = word.trim_start_matches(marker);
+    let length = word.len() - rest.len();
+    match marker {
+        '-' | '=' => rest.starts_with(INLINE_START),
+        '#' => length <= 6 && rest.starts_with(INLINE_START),
+        '*' | '_' => length >= 3 && rest.starts_with(['*', '_', '~']),
+        _ => false,
+    }
+}
+
 /// Determine if this line would interrupt a paragraph if it weren't indented or escaped.
 /// Thematic breaks always get escaped.
 pub(super) fn interrupts_paragraph(line: &str) -> bool {
-- 
2.43.0


From 944066c90f6d1ed5b8c2161752a27efb50cab34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 82/84] fix: keep the indentation of a setext heading below a
 definition

---
 src/formatter.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5acab35..12cb8f8 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,7 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
-use crate::escape::list_number_that_interrupts_paragraph;
+use crate::escape::{list_number_that_interrupts_paragraph, needs_escape};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -1106,8 +1106,26 @@ where
             Tag::Heading { .. } => {
                 if self.needs_indent {
                     let newlines = self.count_newlines(&range);
+                    let is_below_definition =
+                        newlines == 1 && self.last_definition_end == Some(self.last_position);
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
+                    // The text below a link reference definition may be an indented line
+                    let before = &self.input[..range.start];
+                    let mut lines = self.input[range.clone()]
+                        .trim_matches(is_whitespace)
+                        .lines();
+                    if is_below_definition
+                        && (before.ends_with(PARAGRAPH_CONTINUATION_INDENT)
+                            || before.ends_with('\t'))
+                        && lines.next().is_some_and(|line| {
+                            interrupts_paragraph(line) || needs_escape(line).is_some()
+                        })
+                        // Only setext headings have further lines
+                        && lines.next().is_some()
+                    {
+                        self.write_str(PARAGRAPH_CONTINUATION_INDENT)?;
+                    }
                 }
                 let full_header = self.input[range].trim_matches(is_whitespace);
                 let header = Header::new(
-- 
2.43.0


From 80a21a373b1c1ebba0bdbefca04dc528b6a61739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:06 +0000
Subject: [PATCH 83/84] fix: don't escape the `^` at the start of an email
 autolink

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 1640565..d429168 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -34,7 +34,7 @@ impl Write for LinkWriter {
         if self.is_empty() {
             // While the buffer is empty trim leading whitespace
             input = s.trim_start_matches(is_whitespace);
-            if input.starts_with('^') {
+            if input.starts_with('^') && !self.is_auto_link {
                 self.buffer.push('\\');
             }
         }
-- 
2.43.0


From f8dfb9660b3634ee65398613542bb5cd469c815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 84/84] fix: don't panic when a list item ends before its
 content

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 12cb8f8..aab3190 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -740,6 +740,12 @@ where
     pub fn format(mut self) -> Result<String, std::fmt::Error> {
         while let Some((event, range)) = self.events.next() {
             tracing::debug!(?event, ?range, last_position = self.last_position);
+            let range = if matches!(event, Event::End(_)) {
+                // The parser sometimes gives a container an end before the end of its content.
+                range.start..range.end.max(self.last_position)
+            } else {
+                range
+            };
             let mut last_position = if matches!(event, Event::HardBreak) {
                 range.end
             } else {
-- 
2.43.0

