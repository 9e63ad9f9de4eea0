From d561b0bd436c524c7776b12c47ba487347d22a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 01/12] fix: do not panic in the trie when a message or literal
 starts with a multibyte character

LiteralNode::cmp_str() sliced the first byte of both strings, which panics
when the first character is longer than one byte. Compare the first
characters instead (None < Some(_) keeps the order of the empty literal).
---
 src/matcher/trie/node/literal.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..bb67f94 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -49,15 +49,7 @@ impl LiteralNode {
     }
 
     pub fn cmp_str(&self, other: &str) -> Ordering {
-        if self.literal.is_empty() && other.is_empty() {
-            Ordering::Equal
-        } else if self.literal.is_empty() {
-            Ordering::Less
-        } else if other.is_empty() {
-            Ordering::Greater
-        } else {
-            self.literal[0..1].cmp(&other[0..1])
-        }
+        self.literal.chars().next().cmp(&other.chars().next())
     }
 
     pub fn split(&mut self, common_prefix_len: usize, literal: &str) {
-- 
2.43.0


From e72a7f8448aa9471dd52759ca270dd7cabee5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 02/12] fix: make the SET parser work on characters instead of
 bytes

With a non-ASCII set the match could end inside a multibyte character, which
panicked when the value was sliced. The minimum and maximum lengths are
counted in characters as well, as documented by the regex equivalence.
---
 src/parsers/set.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..f2563f2 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,17 +39,17 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        let vset: Vec<char> = set.chars().collect();
         BTreeSet::from_iter(vset)
     }
 
     fn calculate_match_length(&self, value: &str) -> usize {
         let mut match_len = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
-                match_len += 1;
+                match_len += c.len_utf8();
             } else {
                 break;
             }
@@ -76,10 +76,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let matched = &value[..self.calculate_match_length(value)];
 
-        if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+        if self.is_match_length_ok(matched.chars().count()) {
+            Some(ParseResult::new(self, matched))
         } else {
             None
         }
-- 
2.43.0


From f9221cc23fafce4c80bfecda61735cf6086589c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 03/12] fix: report the I/O error when a pattern file cannot be
 read

PatternLoader::read() dropped the result of read_to_string(), so read errors
and non UTF-8 files were handled as if the file was empty.
---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From 1428de182404981af19d64ca463ec59c155fbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 04/12] fix: reject too large numbers in patterns instead of
 panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..03d3e8c 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).or(Err("a representable number")) }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..9a57a73 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1187,9 +1187,15 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match {
+                            usize::from_str(match_str).or(Err("a representable number"))
+                        } {
+                            Ok(res) => Matched(pos, res),
+                            Err(expected) => {
+                                state.mark_failure(pos, expected);
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From befc0c2f1771d98ad470d16d700d9b9eecfb482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 05/12] fix: name the uuid field in the error when it is
 missing from a pattern

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From 04050d113728f8e3bb6ba5a9b64ddc94448858cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 06/12] fix: unescape the literal which follows a GREEDY parser

The literal after a GREEDY parser was used as it was written, so an escaped
"%{" in it could never match, unlike in any other literal of a pattern.
---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 03d3e8c..866bdb2 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(grammar::unescape_literal);
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 9a57a73..8c440d8 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,12 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(grammar::unescape_literal);
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref().map(|string| &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 4c260bcf41a4ac898d375c6048b064cb505a7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 07/12] fix: keep the already inserted patterns when an other
 one with the same prefix is added

Entry::insert() replaced the child of the entry unconditionally, so every
pattern which was stored below it got lost.
---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From f8851008ed89ebc5b38b77b2ae8895665cc5505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 08/12] fix: match patterns ending with a parser when a longer
 pattern continues after it

A parser node with both a pattern and a child only tried the child, so the
shorter pattern could not be matched. The trie also panicked on a parser node
without a pattern and a child (inserted by SuffixTree::insert_parser()).
---
 src/matcher/suffix_array/impls.rs | 12 ++++-------
 src/matcher/trie/node/parser.rs   | 33 +++++++++++++------------------
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..7d268b6 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,17 +187,13 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
-                child.parse(value).and_then(|mut result| {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else {
+                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
                 })
-            } else {
-                if value.is_empty() {
-                    self.create_match_result(kvpair)
-                } else {
-                    None
-                }
             }
         })
     }
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..2443fde 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -38,29 +38,24 @@ impl ParserNode {
             trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
             let text = text.ltrunc(parsed_kwpair.value().len());
 
-            return match self.node() {
-                Some(node) => {
-                    node.parse_then_push_kvpair(text, parsed_kwpair)
+            return match self.pattern() {
+                Some(pattern) if text.is_empty() => {
+                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                 }
-                None => {
-                    self.push_last_kvpair(text, parsed_kwpair)
+                _ => {
+                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                 }
             };
         }
         None
     }
 
-    fn push_last_kvpair<'a, 'b>(&'a self,
-                                text: &'b str,
+    fn push_last_kvpair<'a, 'b>(pattern: &'a Pattern,
                                 kvpair: ParseResult<'a, 'b>)
                                 -> Option<MatchResult<'a, 'b>> {
-        if text.is_empty() {
-            let mut result = MatchResult::new(self.pattern().unwrap());
-            result.insert(kvpair);
-            Some(result)
-        } else {
-            None
-        }
+        let mut result = MatchResult::new(pattern);
+        result.insert(kvpair);
+        Some(result)
     }
 }
 
@@ -89,12 +84,12 @@ impl ParserEntry for ParserNode {
             trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
             let text = value.ltrunc(parsed_kwpair.value().len());
 
-            return match self.node() {
-                Some(node) => {
-                    node.parse_then_push_kvpair(text, parsed_kwpair)
+            return match self.pattern() {
+                Some(pattern) if text.is_empty() => {
+                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                 }
-                None => {
-                    self.push_last_kvpair(text, parsed_kwpair)
+                _ => {
+                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                 }
             };
         }
-- 
2.43.0


From 0796b4d187175402635f5c24d8c7084d188192e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 09/12] fix: try the parsers of a trie node when its literals
 do not lead to a match

parse() descended along the literals as long as it could and tried only the
parsers of the last node. A pattern was not found when its parser started
before the end of an other pattern's literal, depending on the order of the
insertions.
---
 src/matcher/trie/node/mod.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..35643b0 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,20 +160,30 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
+        trace!("parse(): #parser_children = {}", self.parser_children.len());
+        self.parse_with_literal(text, text)
+            .or_else(|| self.parse_with_literal("", text))
+            .or_else(|| self.parse_with_parsers(text))
+    }
+
+    // Only one literal child can have the same first character as the key.
+    fn parse_with_literal<'a, 'b>(&'a self,
+                                  key: &str,
+                                  text: &'b str)
+                                  -> Option<MatchResult<'a, 'b>> {
+        let pos = self.literal_children.binary_search_by(|probe| probe.cmp_str(key)).ok();
+        let child = pos.and_then(|pos| self.literal_children.get(pos));
+
+        match child {
+            Some(child) if text.starts_with(child.literal()) => {
+                let text = text.ltrunc(child.literal().len());
+                if text.is_empty() && child.pattern().is_some() {
+                    SuffixTree::create_match_result_if_child_is_leaf(child)
+                } else {
+                    child.node().and_then(|node| node.parse(text))
+                }
             }
+            _ => None,
         }
     }
 
-- 
2.43.0


From db32d8b28f77cc36bb8b85fd342f38f7ef04a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 10/12] fix: match only complete literals in the suffix array
 and try the other entries too

A message matched when it was only a prefix of a literal, or when it shared
only some characters with it. The parsers were never tried when there was any
literal next to them, and only one literal was tried.
---
 src/matcher/suffix_array/impls.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 7d268b6..954242a 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,22 @@ impl SuffixTable {
         }
     }
 
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        for entry in self.literal_entries.iter().rev() {
+            if value.starts_with(entry.literal().as_str()) {
+                let value = value.ltrunc(entry.literal().len());
+                let result = match entry.pattern() {
+                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+                    _ => entry.child().and_then(|child| child.parse(value)),
+                };
+                if result.is_some() {
+                    return result;
+                }
+            }
+        }
+        None
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -243,19 +259,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From 02fd869494d17930d3497b7699e78fb133ee34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:16 +0000
Subject: [PATCH 11/12] fix: an empty list of expected tags is satisfied by a
 pattern without tags

---
 src/matcher/pattern/testmessage/message.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/matcher/pattern/testmessage/message.rs b/src/matcher/pattern/testmessage/message.rs
index 7b912a9..e605fb1 100644
--- a/src/matcher/pattern/testmessage/message.rs
+++ b/src/matcher/pattern/testmessage/message.rs
@@ -83,13 +83,10 @@ impl TestMessage {
 
     fn test_tags(&self, result: &MatchResult) -> Result<(), Error> {
         if let Some(expected_tags) = self.tags() {
-            if let Some(got_tags) = result.pattern().tags() {
-                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
-                                                                      got_tags,
-                                                                      result));
-            } else {
-                return Err(self.report_unexpected_tags_error(result));
-            }
+            let got_tags = result.pattern().tags().unwrap_or(&[]);
+            try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
+                                                                  got_tags,
+                                                                  result));
         }
         Ok(())
     }
-- 
2.43.0


From 47dde7cf133ef424d5b6c734f66cebec9ac88be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 12/12] fix: a \r\n in a pattern counts with both of its
 characters when a syntax error is located

---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 8c440d8..4920be4 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0

