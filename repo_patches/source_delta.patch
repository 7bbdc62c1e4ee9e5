From 69c6005fa1a9d66b8d2abb4d408114a1b0e6f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 01/53] fix: treat a lone carriage return as a line break

skip_linebreak ignored a CR that is not followed by LF, so every loop that
relies on it to consume a break (white space skipping, scalars) never ended.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..afeef65 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\n' | b'\r', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 834ac9f49b2e57b97962b9f8b367a770ed4cdc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 02/53] fix: report a too large %YAML version number as an
 error

The version is accumulated in a u8: '%YAML 300.1' overflowed it (a panic in
debug builds, a wrong version otherwise).
---
 yam-core/src/parsing/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index afeef65..cd9d126 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2134,7 +2134,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2145,7 +2145,15 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = val
+                .checked_mul(10)
+                .and_then(|val| val.checked_add(digit))
+                .ok_or_else(|| {
+                    YamlError::new_str(
+                        *mark,
+                        "while scanning a YAML directive, found extremely long version number",
+                    )
+                })?;
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 24ee0cc35f812870b512852769d4fe54d2f258e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 03/53] fix: do not loop forever on a NUL byte inside a quoted
 scalar

The content loop stops at NUL as at the end of input, but the end-of-stream
check only looked for the real end, so nothing was ever consumed again.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cd9d126..733ea2c 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1121,7 +1121,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From f71df76d6247304333f7e97205e381e9a87b0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 04/53] fix: stop skipping block scalar indentation at the end
 of input

With an indentation beyond the lookahead window and the input ending before
that column, the loop had no exit.
---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 733ea2c..b27346c 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1713,7 +1713,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                     // reached content or EOF; that is, the buffer is not empty and the next
                     // character is not a space.
                     if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
+                        || self.src.buf_is_empty()
+                        || self.src.peekz(0) != b' '
                     {
                         break;
                     }
-- 
2.43.0


From bdbd6ed54e2fabcd2001e17853d671efa5a909fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 05/53] fix: do not read past the end of the input in
 StrSource::peek_char

The method took the next four bytes unchecked: undefined behaviour (an abort in
debug builds) for an unexpected character among the last three bytes.
---
 yam-core/src/parsing/source.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..40e99da 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,12 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        let rest = self.input.get(self.pos..).unwrap_or_default();
+        rest[..rest.len().min(4)]
+            .utf8_chunks()
+            .next()
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 87320f15b78fe139996112d506e0da39a60d69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 06/53] fix: decode multi-byte percent-escapes in tags as UTF-8

The escaped bytes were concatenated instead of decoded, so '%C3%A9' became
U+C3A9 and three-byte escapes were rejected as invalid code points.
---
 yam-core/src/parsing/scanner.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b27346c..6cb5df5 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2021,7 +2021,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
+                code = match width {
+                    1 => byte,
+                    2 => byte & 0x1F,
+                    3 => byte & 0x0F,
+                    _ => byte & 0x07,
+                };
             } else {
                 if byte & 0xc0 != 0x80 {
                     return Err(YamlError::new_str(
@@ -2029,7 +2034,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                         "while parsing a tag, found an incorrect trailing UTF-8 byte",
                     ));
                 }
-                code = (code << 8) + byte;
+                code = (code << 6) + (byte & 0x3F);
             }
 
             self.skip_n_non_blank(3);
-- 
2.43.0


From 4044c011dcf37547a86c8472969cd24d8a23a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 07/53] fix: keep the token after an empty explicit key in a
 flow sequence

'[? : b]' lost its ':' (and '[? ]' its closing bracket, '[? , a]' its comma)
because the token that ends the empty key was skipped with it.
---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..2bc8255 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1538,7 +1538,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From a11d3090248f4a8b44e3340f0775a3378b4b31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 08/53] fix: honour the indentation indicator of a top-level
 block scalar

Columns are one-indexed, so '--- |2' stripped one space instead of two.
---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6cb5df5..8fa02cd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1335,7 +1335,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             indent = if self.indent >= 1 {
                 self.indent + increment as u32
             } else {
-                increment as u32
+                // Columns are one-indexed.
+                increment as u32 + 1
             }
         }
 
-- 
2.43.0


From 793225542a3bcbeed1c64cfa5e848c6732900507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 09/53] fix: keep all %TAG directives of a document and detect
 repeated handles

The map of declared handles was recreated for every directive, so only the last
one stayed in force and a duplicate was never noticed; a reserved directive also
replaced it.
---
 yam-core/src/parsing/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 2bc8255..784f945 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -875,8 +875,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -905,13 +905,16 @@ impl<'input, T: Source> Parser<'input, T> {
                             "the TAG directive must only be given at most once per handle in the same document",
                         ));
                     }
-                    tags.insert(handle.to_string(), prefix.to_string());
+                    // Reserved directives come as a TAG directive without a handle.
+                    if !handle.is_empty() {
+                        tags.insert(handle.to_string(), prefix.to_string());
+                    }
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.extend(tags);
         Ok(())
     }
 
-- 
2.43.0


From 819934789920d8503736cc9be22af67f9b7ef9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 10/53] fix: end an unindented top-level block scalar at a
 document start marker

Only '...' ended such a scalar; '---' at column one and the whole next document
became its content.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8fa02cd..8edf54f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1388,7 +1388,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.src.next_is_document_indicator() {
                     break;
                 }
             }
-- 
2.43.0


From c44b8f9fc01d8f81d1fb77044a32a9dd3a3b7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 11/53] fix: do not count a line too many at the end of a
 stream ending in a break

Columns are one-indexed, so the virtual line break was added even when the
input already ended with one.
---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 8edf54f..831f4c9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -278,7 +278,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn fetch_stream_end(&mut self) -> ScanResult {
         // force new line
-        if self.mark.col != 0 {
+        if self.mark.col != 1 {
             self.mark.col = 1;
             self.mark.line += 1;
         }
-- 
2.43.0


From 5bd019c7b7af091a9e9bf6e780dde029476f944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 12/53] fix: an empty block scalar at the end of the input has
 no content

'- |' followed by a line break and the end of the input loaded as a line break:
the break that ends the header is not part of the content.
---
 yam-core/src/parsing/scanner.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 831f4c9..7f98bf9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1357,12 +1357,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ChompIndicator::Strip => Vec::new(),
                 // There was no newline after the chomping indicator.
                 _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
+                // We clip lines. A scalar of only empty lines has no content, so there is no
+                // final line break to preserve.
+                ChompIndicator::Clip => Vec::new(),
+                // We keep lines. There was only an unterminated line of spaces.
+                ChompIndicator::Keep if trailing_breaks.is_empty() && self.mark.col > 1 => {
+                    chomping_break
+                }
                 // Otherwise, the newline after chomping is ignored.
                 ChompIndicator::Keep => trailing_breaks,
             };
-- 
2.43.0


From a117bccac6191dbd3ae55b27781e5c45ddce1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 13/53] fix: keep mapping entries whose key is tagged or a bad
 value

---
 yam-core/src/prelude/loader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..f444b07 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,8 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    /// Keys of the mappings being built, [`None`] if the mapping expects a key next.
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +142,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
+                    None => *curr_key = Some(node),
                 }
             }
         } else {
@@ -429,7 +427,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From e8224eeb20a90e13650679e3f05a8d6a245efa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 14/53] fix: IndexMut<usize> on a mapping yields the value, not
 the key

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From 4816df1f6246d55a20b714b38263bf6bb796e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 15/53] fix: resolve an empty plain scalar to null

---
 yam-core/src/node/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..9d48dc3 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -149,6 +149,7 @@ where
         }
 
         match bytes.len() {
+            0 => return Self::Null(PhantomData),
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
                 let f = bytes[0] & 0xDF;
-- 
2.43.0


From eb9f3e01a1f6b3b4c8e8b5332b309d9e982e0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 16/53] fix: do not accept a second or misplaced sign in
 integers

---
 yam-core/src/node/scalar.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 9d48dc3..3e0f98f 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -127,7 +127,8 @@ where
         let s = &*v;
         let bytes = s.as_bytes();
 
-        if bytes.len() >= 2 {
+        // Neither prefix may be followed by a sign, which `from_str_radix` would accept.
+        if bytes.len() > 2 && bytes[2].is_ascii_hexdigit() {
             match (bytes[0], bytes[1]) {
                 (b'0', b'x') => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
@@ -139,11 +140,6 @@ where
                         return Self::Integer(i.into());
                     }
                 }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
                 _ => {}
             }
         }
-- 
2.43.0


From 6d6d7b1069f67ee92986bcde56b5b1b874780e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 17/53] fix: accept all core schema spellings in tagged scalars

---
 yam-core/src/node/scalar.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 3e0f98f..92f36df 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,16 +90,13 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
-                    "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
-                    "null" => {
-                        if ScalarValue::is_null_tagged(&v, &tag) {
-                            Some(Self::Null(PhantomData))
-                        } else {
-                            None
-                        }
+                    // Any spelling of the core schema is fine, as long as it is of the tagged type.
+                    "bool" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Bool(_))),
+                    "int" => {
+                        Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Integer(_)))
                     }
+                    "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
+                    "null" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Null(_))),
                     "str" => Some(Self::String(v.into())),
                     // If we have a tag we do not recognize, return `None`.
                     _ => None,
-- 
2.43.0


From b7ddb837c68fdd7277e314bf60d079caf65afc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 18/53] fix: ScalarValue::is_null follows the resolved type of
 the scalar

---
 yam-core/src/parsing/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 784f945..1b0f500 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError};
+use crate::prelude::{Marker, ScalarType, Span, YamlError, YamlScalar};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -79,9 +79,10 @@ impl<'input> ScalarValue<'input> {
     #[doc(hidden)]
     #[must_use]
     pub fn is_null(&self) -> bool {
-        let dummy = Cow::Owned(Tag::empty());
-        let x = self.tag.as_ref().unwrap_or(&dummy);
-        Self::is_null_tagged(&self.value, x)
+        matches!(
+            YamlScalar::parse_from_scalar(self.clone()),
+            Some(YamlScalar::Null(_))
+        )
     }
 
     #[doc(hidden)]
-- 
2.43.0


From ded36dec9635dd469d8dc6391ec03272501ad5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 19/53] fix: peeking an event twice while deserializing does
 not consume it

---
 yam-serde/src/de.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..9444adf 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -34,13 +34,10 @@ where
     R: Source,
 {
     fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+        if !self.has_peeked {
+            self.last_event = self.yaml_iter.next()?;
+            self.has_peeked = true;
         }
-
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
         Some(self.last_event.clone())
     }
 
-- 
2.43.0


From cbc3b7c5651b03caea90f109cba64188b3af068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 20/53] fix: check the end of the collection being
 deserialized, not of its last child

---
 yam-serde/src/de.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 9444adf..c4fd703 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -258,9 +258,7 @@ where
         }
         self.skip();
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::SeqEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "SeqEnd",
                 found: self.last_event.as_simple_str(),
@@ -282,9 +280,7 @@ where
         }
         self.skip();
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "MapEnd",
                 found: self.last_event.as_simple_str(),
-- 
2.43.0


From 2d551c35504259d5301d0243c88475503c7317f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 21/53] fix: consume the end of the mapping of an enum variant

---
 yam-serde/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index c4fd703..c5f8966 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -314,6 +314,7 @@ where
                         expected: "MapEnd",
                     }));
                 }
+                self.skip();
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
-- 
2.43.0


From 822655b775b8e096294c7cd4d08def3738debc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 22/53] fix: deserialize a unit variant in mapping form

---
 yam-serde/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index c5f8966..3066294 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -494,7 +494,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From 95452578f159295424c8f4c694b9497d8013776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 23/53] fix: deserialize a newtype struct as the value it wraps

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 3066294..f79f680 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -242,10 +242,21 @@ where
 
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
-- 
2.43.0


From 0f9cd434b6136cf6f3793f3c67a0dcf12b8cf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 24/53] fix: do not drop alias events in ParserIter

---
 yam-core/src/parsing/parser_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..aa21f97 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From 6c55f2e583d5ec25fdc9c8ec4c5e9df1a06ef18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 25/53] fix: deserialize hexadecimal and octal integers into
 sized integer types

---
 yam-serde/src/de.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index f79f680..a6c1d29 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -71,9 +71,15 @@ where
 
 macro_rules! parse_from_cow {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {
-        match $e.parse::<$t>() {
-            Ok(i) => $v.$method(i),
-            Err(_) => Err(DeYamlError::Custom(format!(
+        match $e.value.parse::<$t>().ok().or_else(|| {
+            // Not a decimal, but it might be one of the other integers of the core schema.
+            match YamlScalar::parse_from_scalar($e) {
+                Some(YamlScalar::Integer(x)) => <$t>::try_from(x).ok(),
+                _ => None,
+            }
+        }) {
+            Some(i) => $v.$method(i),
+            None => Err(DeYamlError::Custom(format!(
                 "Failed to parse {:?} from scalar value",
                 stringify!($t)
             ))),
@@ -110,7 +116,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_i8, i8)
+            parse_from_cow!(scalar, visitor, visit_i8, i8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -124,7 +130,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_i16, i16)
+            parse_from_cow!(scalar, visitor, visit_i16, i16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i16 deserialization".to_string(),
@@ -138,7 +144,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i32, i32)
+            parse_from_cow!(scalar, visitor, visit_i32, i32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i32 deserialization".to_string(),
@@ -152,7 +158,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_i64, i64)
+            parse_from_cow!(scalar, visitor, visit_i64, i64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i64 deserialization".to_string(),
@@ -166,7 +172,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_u8, u8)
+            parse_from_cow!(scalar, visitor, visit_u8, u8)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for i8 deserialization".to_string(),
@@ -180,7 +186,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.has_peeked = false;
-            parse_from_cow!(&scalar.value, visitor, visit_u16, u16)
+            parse_from_cow!(scalar, visitor, visit_u16, u16)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u16 deserialization".to_string(),
@@ -194,7 +200,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u32, u32)
+            parse_from_cow!(scalar, visitor, visit_u32, u32)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u32 deserialization".to_string(),
@@ -208,7 +214,7 @@ where
     {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             self.skip();
-            parse_from_cow!(&scalar.value, visitor, visit_u64, u64)
+            parse_from_cow!(scalar, visitor, visit_u64, u64)
         } else {
             Err(DeYamlError::Custom(
                 "Expected scalar event for u64 deserialization".to_string(),
-- 
2.43.0


From 20995311a6de57b04a6c3e4d5c8eeef71b0a3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 26/53] fix: escape the content of serialized double-quoted
 strings and fold it losslessly

---
 yam-serde/src/escape_str.rs | 125 +++++++-----------------------------
 yam-serde/src/ser.rs        |  88 ++++++++-----------------
 2 files changed, 47 insertions(+), 166 deletions(-)

diff --git a/yam-serde/src/escape_str.rs b/yam-serde/src/escape_str.rs
index bcc4108..02a8399 100644
--- a/yam-serde/src/escape_str.rs
+++ b/yam-serde/src/escape_str.rs
@@ -3,113 +3,32 @@ use core::fmt::{Error, Write};
 pub(crate) fn peekz_byte(array: &[u8], pos: usize) -> u8 {
     if pos < array.len() { array[pos] } else { 0 }
 }
-pub(crate) fn decode_hex<W: Write>(writer: &mut W, digit_slice: &[u8]) -> Result<(), Error> {
-    if !digit_slice.iter().all(u8::is_ascii_hexdigit) {
-        writer.write_char('\u{FFFD}')?;
-        return Ok(());
-    }
-
-    let code_point = digit_slice
-        .iter()
-        .map(|x| match *x {
-            n @ b'0'..=b'9' => n - b'0',
-            a @ b'a'..=b'f' => a - b'a' + 10,
-            a @ b'A'..=b'F' => a - b'A' + 10,
-            _ => 0u8,
-        })
-        .fold(0u32, |acc, digit| (acc << 4) + u32::from(digit));
-    match code_point {
-        // YAML has special escape rules for certain values
-        // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
-        0 => writer.write_char('\u{FFFD}')?,
-        0x07 => writer.write_str("\\a")?,
-        0x08 => writer.write_str("\\b")?,
-        0x09 => writer.write_str("\\t")?,
-        0x0A => writer.write_str("\\n")?,
-        0x0B => writer.write_str("\\v")?,
-        0x0C => writer.write_str("\\f")?,
-        0x0D => writer.write_str("\\r")?,
-        0x1B => writer.write_str("\\e")?,
-        0x22 => writer.write_str("\\\"")?,
-        0x2F => writer.write_str("\\/")?,
-        0x5C => writer.write_str("\\\\")?,
-        0x85 => writer.write_str("\\N")?,
-        0xA0 => writer.write_str("\\_")?,
-        0x2028 => writer.write_str("\\L")?,
-        0x2029 => writer.write_str("\\P")?,
-        _ => {
-            let encode_char = char::from_u32(code_point);
-            if let Some(encode_char) = encode_char {
-                return writer.write_char(encode_char);
-            }
-        }
-    }
-
-    Ok(())
-}
 
+/// Writes `value` with every character escaped, that can't be written as is between double quotes.
+///
+/// See more in <https://yaml.org/spec/1.2.2/#57-escaped-characters>
 pub(crate) fn escape_double_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
-    let bytes = value.as_bytes();
-
-    let (mut old_pos, mut pos) = (0, 0);
-    while pos < bytes.len() {
-        let byte_char = bytes[pos];
-        let peek_char = peekz_byte(bytes, pos + 1);
-        match (byte_char, peek_char) {
-            (b'\\', b't' | b'r' | b'n') => {
-                // TODO normalize `\r\n` into `\n`
-                pos += 2;
-            }
-
-            (b'\t', _) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\t")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\r', b'\n') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 2;
-                old_pos = pos;
-            }
-            (b'\n', ..) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\\', b'x') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 4])?;
-                pos += 4;
-                old_pos = pos;
-            }
-            (b'\\', b'u') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 6])?;
-                pos += 6;
-                old_pos = pos;
-            }
-            (b'\\', b'U') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 8])?;
-                pos += 8;
-                old_pos = pos;
-            }
-            _ => {
-                pos += 1;
-            }
+    for chr in value.chars() {
+        match chr {
+            '\0' => writer.write_str("\\0")?,
+            '\x07' => writer.write_str("\\a")?,
+            '\x08' => writer.write_str("\\b")?,
+            '\t' => writer.write_str("\\t")?,
+            '\n' => writer.write_str("\\n")?,
+            '\x0B' => writer.write_str("\\v")?,
+            '\x0C' => writer.write_str("\\f")?,
+            '\r' => writer.write_str("\\r")?,
+            '\x1B' => writer.write_str("\\e")?,
+            '"' => writer.write_str("\\\"")?,
+            '\\' => writer.write_str("\\\\")?,
+            '\u{85}' => writer.write_str("\\N")?,
+            '\u{2028}' => writer.write_str("\\L")?,
+            '\u{2029}' => writer.write_str("\\P")?,
+            '\u{FEFF}' | '\u{FFFE}' | '\u{FFFF}' => write!(writer, "\\u{:04X}", u32::from(chr))?,
+            _ if chr.is_control() => write!(writer, "\\x{:02X}", u32::from(chr))?,
+            _ => writer.write_char(chr)?,
         }
     }
-    let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-    writer.write_str(prev_str)?;
     Ok(())
 }
 
diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 55bd3fb..7a2524f 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -2,30 +2,11 @@ use crate::escape_str;
 use crate::escape_str::peekz_byte;
 use alloc::borrow::Cow;
 use alloc::string::String;
-use alloc::vec::Vec;
 use core::fmt::{Debug, Display, Error, Write};
 use serde_core::ser::SerializeStructVariant;
 use serde_core::{Serialize, ser};
 use unicode_segmentation::UnicodeSegmentation;
 
-trait YamlWhitespace {
-    fn is_splittable_ws(&self) -> bool;
-    fn is_last_char_splittable_ws(&self) -> bool;
-}
-
-impl YamlWhitespace for str {
-    fn is_splittable_ws(&self) -> bool {
-        self.bytes().all(|c| c == b' ' || c == b'\n')
-    }
-
-    fn is_last_char_splittable_ws(&self) -> bool {
-        self.bytes()
-            .last()
-            .map(|c| c == b' ' || c == b'\n')
-            .unwrap_or_default()
-    }
-}
-
 #[derive(Debug)]
 pub struct YamSerializer<W> {
     /// This string starts empty and JSON is appended as values are serialized.
@@ -100,56 +81,37 @@ where
         Ok(())
     }
 
-    fn line_split_at(&mut self, line_buff: &str, line_split: &str) -> Result<(), Error> {
-        let escaped = if line_split == " " { "\n" } else { "\n\n" };
-        self.writer.write_str(line_buff)?;
-        self.writer.write_str(escaped)?;
-        self.write_indentors(self.current_depth)
-    }
-
+    /// Writes a double-quoted scalar, breaking lines longer than the preferred length.
+    ///
+    /// A line is only broken at a lone space, so folding the line break restores that space.
     fn write_double_quote_multi(&mut self, str: &str) -> Result<(), Error> {
         self.write_char('"')?;
 
-        let mut line_buff = String::with_capacity(self.formatter.pref_string_length + 20);
-        let mut line_buff_len = 0;
-        let word_bounds = str
-            .split_word_bound_indices()
-            .map(|(_, word)| (word, word.graphemes(true).count()))
-            .collect::<Vec<(&str, usize)>>();
-
-        for (word, grapheme_len) in word_bounds {
-            if self.is_time_to_split(line_buff_len, grapheme_len) {
-                let word_is_splittable = word.is_splittable_ws();
-                let line_buff_is_splittable = line_buff.is_last_char_splittable_ws();
-
-                if line_buff_is_splittable {
-                    // Try to split line on existing buffer
-                    let (line, nl) = line_buff.split_at(line_buff.len() - 1);
-                    self.line_split_at(line, nl)?;
-
-                    // Set current buffer to current word
-                    line_buff.clear();
-                    line_buff.push_str(word);
-                    line_buff_len = grapheme_len;
-                } else if word_is_splittable {
-                    // Try to split line on word
-                    let (front, nl) = word.split_at(0);
-                    self.line_split_at(&line_buff, nl)?;
-
-                    line_buff.clear();
-                    line_buff.push_str(front);
-                    line_buff_len = front.len();
-                } else {
-                    // Write the word to buffer
-                    line_buff.push_str(word);
-                    line_buff_len += grapheme_len;
-                }
+        let mut line_len = 0;
+        let mut previous = "";
+        let mut words = str.split_word_bounds().peekable();
+
+        while let Some(word) = words.next() {
+            let next = words.peek().copied().unwrap_or_default();
+            let rest_len = word.len() + next.graphemes(true).count();
+
+            // At the start of a line `---` or `...` would be a document marker.
+            let is_splittable = word == " "
+                && !previous.is_empty()
+                && !previous.ends_with(' ')
+                && !next.is_empty()
+                && !next.starts_with([' ', '-', '.']);
+
+            if is_splittable && self.is_time_to_split(line_len, rest_len) {
+                self.write_nl()?;
+                self.write_indentors(self.current_depth)?;
+                line_len = 0;
             } else {
-                line_buff.push_str(word);
-                line_buff_len += grapheme_len;
+                escape_str::escape_double_quotes(&mut self.writer, word)?;
+                line_len += word.graphemes(true).count();
             }
+            previous = word;
         }
-        self.writer.write_str(&line_buff)?;
         self.write_char('"')?;
         Ok(())
     }
-- 
2.43.0


From 407409216d5cbaeb6ec490cb332e2b6ab6619f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 27/53] fix: serialize floats so that they read back as the
 same float

---
 yam-serde/src/ser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 7a2524f..0bc0da9 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -273,6 +273,22 @@ where
         write!(self.writer, "{value}")?;
         Ok(())
     }
+
+    /// Writes a float in the core schema, with at least a fraction or an exponent.
+    fn serialize_floats<T: Debug>(
+        &mut self,
+        is_nan: bool,
+        is_infinite: bool,
+        is_negative: bool,
+        value: T,
+    ) -> Result<(), Error> {
+        match (is_nan, is_infinite, is_negative) {
+            (true, _, _) => self.writer.write_str(".nan"),
+            (_, true, true) => self.writer.write_str("-.inf"),
+            (_, true, false) => self.writer.write_str(".inf"),
+            _ => write!(self.writer, "{value:?}"),
+        }
+    }
 }
 
 impl<W> ser::Serializer for &mut YamSerializer<W>
@@ -329,23 +345,11 @@ where
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_floats(v.is_nan(), v.is_infinite(), v.is_sign_negative(), v)
     }
 
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_floats(v.is_nan(), v.is_infinite(), v.is_sign_negative(), v)
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From eb55c1846e2ca406628cfcc9c8cc0b925fe38650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 28/53] fix: escape control characters when serializing a char

---
 yam-serde/src/ser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 0bc0da9..5f1df8b 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -353,10 +353,20 @@ where
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        let string_chr = if v == '\'' { '"' } else { '\'' };
+        // Between single quotes nothing can be escaped.
+        let needs_escape = v.is_control() || matches!(v, '\u{2028}' | '\u{2029}' | '\u{FEFF}');
+        let string_chr = if v == '\'' || needs_escape {
+            '"'
+        } else {
+            '\''
+        };
 
         self.writer.write_char(string_chr)?;
-        self.writer.write_char(v)?;
+        if needs_escape {
+            escape_str::escape_double_quotes(&mut self.writer, v.encode_utf8(&mut [0; 4]))?;
+        } else {
+            self.writer.write_char(v)?;
+        }
         self.writer.write_char(string_chr)?;
         Ok(())
     }
-- 
2.43.0


From d9071ab3cfa4da257ff404cc5223ae794a71f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 29/53] fix: indented document indicators are part of a plain
 scalar

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 7f98bf9..cc8f6a3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -963,7 +963,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         loop {
             let next_is_document_indicator = self.src.next_is_document_indicator();
-            if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
+            if (self.mark.col == 1 && next_is_document_indicator) || self.src.peekz(0) == b'#'
             {
                 break;
             }
-- 
2.43.0


From 06ca9360f7ef51cd169c4e2fdc0d14ff80a77203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 30/53] fix: do not resolve aliases to anchors of an earlier
 document

---
 yam-core/src/parsing/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 1b0f500..6950ef1 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -916,6 +916,8 @@ impl<'input, T: Source> Parser<'input, T> {
             self.skip();
         }
         self.tags.extend(tags);
+        // Anchors do not outlive their document
+        self.anchors.clear();
         Ok(())
     }
 
-- 
2.43.0


From a9f408ff096704a78e48817d87d552a4b3ebdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 31/53] fix: accept an explicit key indicator at the end of the
 input

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cc8f6a3..d4a80bd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -603,7 +603,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        if need_whitespace {
+        if need_whitespace && !self.src.buf_is_empty() {
             Err(YamlError::new_str(self.mark, "expected whitespace"))
         } else {
             Ok(())
-- 
2.43.0


From e3fb740b4e0d996e4170899ce19343f19c8d59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 32/53] fix: locate the end of an explicit pair in a flow
 sequence after its value

---
 yam-core/src/parsing/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6950ef1..231b774 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError, YamlScalar};
+use crate::prelude::{ScalarType, Span, YamlError, YamlScalar};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -117,7 +117,7 @@ enum State {
     FlowSequenceEntry,
     FlowSequenceEntryMappingKey,
     FlowSequenceEntryMappingValue,
-    FlowSequenceEntryMappingEnd(Marker),
+    FlowSequenceEntryMappingEnd,
     FlowMappingFirstKey,
     FlowMappingKey,
     FlowMappingValue,
@@ -785,7 +785,7 @@ impl<'input, T: Source> Parser<'input, T> {
 
             State::FlowSequenceEntryMappingKey => self.flow_sequence_entry_mapping_key(),
             State::FlowSequenceEntryMappingValue => self.flow_sequence_entry_mapping_value(),
-            State::FlowSequenceEntryMappingEnd(mark) => self.flow_sequence_entry_mapping_end(mark),
+            State::FlowSequenceEntryMappingEnd => self.flow_sequence_entry_mapping_end(),
             State::FlowMappingEmptyValue => self.flow_mapping_value(true),
 
             /* impossible */
@@ -1571,25 +1571,26 @@ impl<'input, T: Source> Parser<'input, T> {
                     token_type,
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
-                    self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                    self.state = State::FlowSequenceEntryMappingEnd;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    self.push_state(State::FlowSequenceEntryMappingEnd(span.end));
+                    self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
                 }
             }
             Token { span, .. } => {
-                self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                self.state = State::FlowSequenceEntryMappingEnd;
                 Ok((Event::empty_scalar(), span))
             }
         }
     }
 
-    #[allow(clippy::unnecessary_wraps)]
-    fn flow_sequence_entry_mapping_end<'a>(&mut self, mark: Marker) -> ParseResult<'a>
+    fn flow_sequence_entry_mapping_end<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        // The mapping ends where its value does, before the token that follows.
+        let mark = self.peek_token()?.span.start;
         self.state = State::FlowSequenceEntry;
         Ok((Event::MappingEnd, Span::empty(mark)))
     }
-- 
2.43.0


From 0f3416af2aa2b575eeb8aaf541471f2104d6ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 33/53] fix: decide by the parser state what load still has to
 deliver

After a peek or a partial iteration, load looked at what the scanner had
produced and failed with 'did not find expected <document-start>' or lost
the last document.
---
 yam-core/src/parsing/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 231b774..4470b69 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -627,7 +627,9 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        if self.state == State::StreamStart
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
@@ -638,7 +640,7 @@ impl<'input, T: Source> Parser<'input, T> {
             recv.on_event(ev, span);
         }
 
-        if self.scanner.stream_end_produced {
+        if self.state == State::End && self.current.is_none() {
             // XXX has parsed?
             recv.on_event(Event::StreamEnd, Span::empty(self.scanner.mark));
             return Ok(());
-- 
2.43.0


From 0e6106dd1c89a5c801c24670a50066f9869a9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 34/53] Name SkipTabs outside the crate under cfg(yam_verif)

Without it no other crate can implement the Source trait; used by the
verification harness only.
---
 yam-core/src/parsing/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 97f9483..d36978d 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -17,6 +17,10 @@ pub use parser::EventReceiver;
 pub use parser::SpannedEventReceiver;
 pub use parser::{Event, Parser, ScalarValue};
 pub use parser_iter::ParserIter;
+#[allow(unexpected_cfgs)]
+#[cfg(yam_verif)]
+#[doc(hidden)]
+pub use scanner::SkipTabs;
 pub use source::Source;
 pub use source::StrSource;
 
-- 
2.43.0


From 6b15526bb088bd32be4e9f3b1d72522341be3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 35/53] fix: ParserIter does not resume the parser after an
 error

---
 yam-core/src/parsing/parser_iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index aa21f97..61a0124 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -81,6 +81,10 @@ where
     type Item = YamEvent<'de>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The parser cannot be resumed after an error.
+        if self.error.is_some() {
+            return None;
+        }
         let res = loop {
             match self.state {
                 State::StreamStart => break self.process_start(),
-- 
2.43.0


From 1a33e2457c99d2590415ee2e82890e22318354f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 36/53] fix: each flow collection tracks its own single-pair
 mapping

---
 yam-core/src/parsing/scanner.rs | 65 +++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d4a80bd..63d36c9 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -83,6 +83,10 @@ enum ImplicitMappingState {
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
     Inside,
+    /// We are inside an explicit (`?`) pair of a flow sequence.
+    Explicit,
+    /// The flow collection is a mapping.
+    Mapping,
 }
 
 #[allow(clippy::struct_excessive_bools)] // TODO maybe too much bools?
@@ -94,6 +98,7 @@ pub struct Scanner<'input, S> {
 
     simple_keys: Vec<SimpleKey>,
     indents: Vec<Indent>,
+    /// One state per open flow collection.
     implicit_flow_mapping_states: Vec<ImplicitMappingState>,
     stream_end_reached: bool,
     tokens_available: bool,
@@ -101,7 +106,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +137,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -383,12 +386,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
+        let implicit_mapping = if token_type == TokenType::FlowMappingStart {
+            ImplicitMappingState::Mapping
         } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+            ImplicitMappingState::Possible
+        };
+        self.implicit_flow_mapping_states.push(implicit_mapping);
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -404,10 +407,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.simple_key_allowed = false;
 
-        if matches!(token_type, TokenType::FlowSequenceEnd) {
-            self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
-        }
+        self.end_implicit_mapping(self.mark);
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,16 +424,19 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        match self.implicit_flow_mapping_states.last_mut() {
+            Some(state @ ImplicitMappingState::Inside) => {
+                *state = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            Some(state @ ImplicitMappingState::Explicit) => {
+                *state = ImplicitMappingState::Possible;
+            }
+            _ => {}
         }
     }
 
@@ -543,9 +547,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 TokenType::BlockMappingStart,
                 start_mark,
             );
-        } else {
-            // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+        } else if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            // The parser, upon reading this `Key`, will emit a `MappingStart` event.
+            *state = ImplicitMappingState::Explicit;
         }
 
         self.remove_simple_key()?;
@@ -614,10 +620,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
         let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
-        if is_implicit_flow_mapping {
-            *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
-        }
+            match self.implicit_flow_mapping_states.last_mut() {
+                Some(state @ ImplicitMappingState::Possible) => {
+                    *state = ImplicitMappingState::Inside;
+                    true
+                }
+                _ => false,
+            };
 
         // Skip over ':'.
         self.skip_non_blank();
-- 
2.43.0


From 276638c75397e627209d04910384eaf509112e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 37/53] fix: a tab after an indicator or in leading white space
 separates, it does not indent

---
 yam-core/src/parsing/scanner.rs | 58 ++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 63d36c9..457b2bd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1,5 +1,5 @@
 use crate::parsing::char_utils::{
-    as_hex, is_alpha, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
+    as_hex, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
     is_breakz, is_flow, is_tag_char, is_uri_char,
 };
 use crate::parsing::source::Source;
@@ -506,12 +506,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         // generate BLOCK-SEQUENCE-START if indented
         self.roll_indent(mark.col, None, TokenType::BlockSequenceStart, mark);
         let res = self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-        if res.found_tabs() && (b'-' == self.src.peekz(0)) && is_blank_or_break(self.src.peekz(1)) {
-            return Err(YamlError::new_str(
-                self.mark,
-                "'-' must be followed by a valid YAML whitespace",
-            ));
-        }
 
         self.skip_ws_to_eol(SkipTabs::No, res.has_valid_yaml_ws())?;
 
@@ -520,7 +514,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.remove_simple_key()?;
-        self.simple_key_allowed = true;
+        // Only spaces can indent a block collection on the same line.
+        self.simple_key_allowed = !res.found_tabs();
 
         let span = self.get_span(mark);
         self.tokens.push_back(Token {
@@ -560,12 +555,6 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.skip_non_blank();
         self.skip_yaml_whitespace()?;
-        if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
-        }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
             span,
@@ -584,6 +573,22 @@ impl<'input, S: Source> Scanner<'input, S> {
 
                     need_whitespace = false;
                 }
+                b'\t' => {
+                    if self.leading_whitespace && self.mark.col <= self.indent {
+                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
+                        if !is_breakz(self.src.peekz(0)) {
+                            return Err(YamlError::new_str(
+                                self.mark,
+                                "tabs disallowed in this context",
+                            ));
+                        }
+                    } else {
+                        self.skip_blank();
+                        // Only spaces can indent a block collection.
+                        self.simple_key_allowed = false;
+                    }
+                    need_whitespace = false;
+                }
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
@@ -630,17 +635,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
-        }
+        let found_tabs = is_blank(self.src.peekz(0))
+            && self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
 
         if sk.possible {
             // insert simple key
@@ -701,7 +697,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0;
+            // Only spaces can indent a block collection on the same line.
+            self.simple_key_allowed = self.flow_level == 0 && !found_tabs;
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
@@ -890,7 +887,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 }
-                b'\t' | b' ' => self.skip_blank(),
+                b'\t' => {
+                    if self.leading_whitespace && self.flow_level == 0 {
+                        // Only spaces can indent a block collection.
+                        self.simple_key_allowed = false;
+                    }
+                    self.skip_blank();
+                }
+                b' ' => self.skip_blank(),
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
-- 
2.43.0


From 506f7ba0f519733d0e97a32f8b0ae7db2e91699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 38/53] fix: only the first character of a plain scalar in a
 flow collection may not be '-' or '?' before a flow indicator

---
 yam-core/src/parsing/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 457b2bd..d843095 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -981,10 +981,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && matches!(self.src.peekz(0), b'-' | b'?')
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
-                    "plain scalar cannot start with '-' followed by ,[]{}",
+                    "plain scalar cannot start with '-' or '?' followed by ,[]{}",
                 ));
             }
 
-- 
2.43.0


From 6cfab290eb2ad31cb6a1db77853ac67e62e5021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 39/53] fix: a plain scalar does not change the indentation of
 the flow collection around it

---
 yam-core/src/parsing/scanner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d843095..23b4bd0 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -957,8 +957,13 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     #[allow(clippy::too_many_lines)]
     fn scan_plain_scalar(&mut self) -> Result<Token<'input>, YamlError> {
-        self.unroll_non_block_indents();
-        let indent = self.indent + 1;
+        // Inside a flow collection, the indentation is that of the collection.
+        let indent = if self.flow_level > 0 {
+            self.indent.max(1)
+        } else {
+            self.unroll_non_block_indents();
+            self.indent + 1
+        };
         let start_mark = self.mark;
 
         if self.flow_level > 0 && start_mark.col < indent {
@@ -1086,7 +1091,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
 
             // check indentation level
-            if self.flow_level == 0 && self.mark.col < indent {
+            if self.mark.col < indent {
                 break;
             }
         }
-- 
2.43.0


From a5cc5f2c386420a9710fffdd4a82ca8bb46551a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 40/53] fix: a comment after a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 23b4bd0..d2a3165 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1064,9 +1064,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty or a comment, which ends the scalar.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From 54654aa52103f5abc2def0f4148295a43e55059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 41/53] fix: '|' and '>' do not start a plain scalar in a flow
 collection

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d2a3165..ad438a5 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -364,7 +364,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
-            [b'%' | b'@' | b'`', _] => {
+            [b'%' | b'@' | b'`' | b'|' | b'>', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
                     self.mark,
-- 
2.43.0


From bacd0e317f4453a65dadce6b9eddfd682ab13dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 42/53] fix: an anchor or tag is separated from the collection
 it belongs to

---
 yam-core/src/parsing/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ad438a5..d4ee39b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1527,6 +1527,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
+        if !alias && matches!(self.src.peekz(0), b'[' | b'{') {
+            return Err(YamlError::new_str(
+                start_mark,
+                "while scanning an anchor, did not find expected whitespace or line break",
+            ));
+        }
+
         let tok = if alias {
             TokenType::Alias(Cow::Owned(unsafe { String::from_utf8_unchecked(string) }))
         } else {
@@ -1574,7 +1581,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         if is_blank_or_breakz(self.src.peekz(0))
-            || (self.flow_level > 0 && is_flow(self.src.peekz(0)))
+            || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From 34508799e200c927c6add0a5ebbff3c07e608d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 43/53] fix: a value may be adjacent to its collection key on a
 later line

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d4ee39b..0551771 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -413,12 +413,13 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
+        let span = self.get_span(start_mark);
 
         if self.flow_level > 0 {
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-        let span = self.get_span(start_mark);
         self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
-- 
2.43.0


From b876958083d4f15079d4fd0284d5dc6021ea48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 44/53] fix: a block scalar without content ends at a document
 marker or comment, and may start with a tab at the top level

---
 yam-core/src/parsing/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 0551771..5336bd1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1349,7 +1349,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.read_break(&mut chomping_break);
         }
 
-        if self.src.peekz(0) == b'\t' {
+        // At the top level, the content may have no indentation and start with anything.
+        if self.src.peekz(0) == b'\t' && self.indent > 0 {
             return Err(YamlError::new_str(
                 start_mark,
                 "a block scalar content cannot start with a tab",
@@ -1402,7 +1403,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        // A document indicator or, when the indentation was given, a comment ends the scalar.
+        let ends_scalar = (self.mark.col == 1 && self.src.next_is_document_indicator())
+            || (increment > 0 && self.src.peekz(0) == b'#');
+        if self.mark.col < indent && self.mark.col > self.indent && !ends_scalar {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 859e929d3a38dde2029a7b69cae63978f4fd81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 45/53] fix: the quote after an escaped line break is subject
 to indentation

---
 yam-core/src/parsing/scanner.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5336bd1..bbdbf47 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1168,6 +1168,17 @@ impl<'input, S: Source> Scanner<'input, S> {
                 &start_mark,
             )?;
 
+            // After an escaped line break, the closing quote must be indented too.
+            if leading_blanks
+                && self.mark.col < self.indent
+                && !is_blank_or_break(self.src.peekz(0))
+            {
+                return Err(YamlError::new_str(
+                    start_mark,
+                    "invalid indentation in quoted scalar",
+                ));
+            }
+
             match self.src.peekz(0) {
                 b'\'' if single => break,
                 b'"' if !single => break,
-- 
2.43.0


From 245fcc2e20e5f4196c76a26c7f25d6f92cecefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 46/53] fix: overlong UTF-8 in tag escapes is an error

---
 yam-core/src/parsing/scanner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index bbdbf47..da14ce6 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2041,6 +2041,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
+        let start = self.mark.pos;
         let mut width = 0usize;
         let mut code = 0u32;
         loop {
@@ -2095,8 +2096,11 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+            // A character must not be encoded with more bytes than it needs.
+            Some(ch) if 3 * ch.len_utf8() == self.mark.pos - start => {
+                Ok(ch.to_string().as_bytes().to_vec())
+            }
+            _ => Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
             )),
-- 
2.43.0


From 499a1b53aa64f3e554d6330770ffef22c0864948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 47/53] fix: a verbatim tag must not be empty

---
 yam-core/src/parsing/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index da14ce6..95660cd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1623,6 +1623,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.uri_scans_or_non_blank(&mut string, start_mark)?;
         }
 
+        if string.is_empty() {
+            return Err(YamlError::new_str(
+                *start_mark,
+                "while scanning a verbatim tag, did not find expected tag URI",
+            ));
+        }
+
         if self.src.peekz(0) != b'>' {
             return Err(YamlError::new_str(
                 *start_mark,
-- 
2.43.0


From bc19efb87bb85e088cb5d1e15f9f065cfd3c48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 48/53] fix: white space must separate a tag handle from its
 prefix

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 95660cd..80725a0 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2180,6 +2180,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let n_blanks = self.src.skip_while_blank();
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace",
+            ));
+        }
 
         let prefix = String::from_utf8(self.scan_tag_prefix(mark)?)
             .map_err(|_| YamlError::new_str(*mark, "Error decoding tag prefix as UTF-8"))?
-- 
2.43.0


From 73034dd61bb8ee838ee6370894b9cabe2ff15bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 49/53] fix: a verbatim tag may be followed by a value
 indicator

---
 yam-core/src/parsing/scanner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 80725a0..9b9683f 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1598,6 +1598,10 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_blank_or_breakz(self.src.peekz(0))
             || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
+            // The value indicator of an empty key may follow a verbatim tag.
+            || (self.src.peekz(0) == b':'
+                && (is_blank_or_breakz(self.src.peekz(1))
+                    || (self.flow_level > 0 && is_flow(self.src.peekz(1)))))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From 933bf4c60ece6b288d4d141a0300cb5916a2cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 50/53] fix: tabs cannot indent the content of a sequence entry
 after its properties

---
 yam-core/src/parsing/scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 9b9683f..61f2546 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -877,7 +877,10 @@ impl<'input, S: Source> Scanner<'input, S> {
                 b'\t'
                     if self.is_within_block()
                         && self.leading_whitespace
-                        && self.mark.col < self.indent =>
+                        && (self.mark.col < self.indent
+                            // The children of a block collection must be further indented.
+                            || (self.mark.col == self.indent
+                                && self.indents.last().is_some_and(|i| i.needs_block_end))) =>
                 {
                     self.skip_ws_to_eol(SkipTabs::Yes, false)?;
                     // If we have content on that line with a tab, return an error.
-- 
2.43.0


From bd6f667b9478e58fd3c9f11d7348ce4a183771e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:45 +0000
Subject: [PATCH 51/53] fix: a comment must be separated from an adjacent value
 indicator

---
 yam-core/src/parsing/scanner.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 61f2546..10e9cd8 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -636,8 +636,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        let found_tabs = is_blank(self.src.peekz(0))
-            && self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
+        let found_tabs = self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
 
         if sk.possible {
             // insert simple key
-- 
2.43.0


From 5f0097b786ec266e1cae5f70cabed4fc41b50e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:29 +0000
Subject: [PATCH 52/53] fix: peeking an error does not consume it

---
 yam-core/src/parsing/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 4470b69..abb932f 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -267,6 +267,8 @@ pub struct Parser<'input, T: Source> {
     token: Option<Token<'input>>,
     /// The next YAML event to emit.
     current: Option<(Event<'input>, Span)>,
+    /// The error that was peeked instead of the next event.
+    peeked_error: Option<YamlError>,
     /// Anchors that have been encountered in the YAML document.
     anchors: BTreeMap<Cow<'input, str>, usize>,
     /// Next ID available for an anchor.
@@ -415,6 +417,7 @@ impl<'input, T: Source> Parser<'input, T> {
             state: State::StreamStart,
             token: None,
             current: None,
+            peeked_error: None,
 
             anchors: BTreeMap::new(),
             // valid anchor_id starts from 1
@@ -469,7 +472,10 @@ impl<'input, T: Source> Parser<'input, T> {
             }
             match self.next_event_impl() {
                 Ok(token) => self.current = Some(token),
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    self.peeked_error = Some(e.clone());
+                    return Some(Err(e));
+                }
             }
             self.current.as_ref().map(Ok)
         }
@@ -521,6 +527,9 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         'input: 'a,
     {
+        if let Some(e) = self.peeked_error.take() {
+            return Err(e);
+        }
         match self.current.take() {
             None => self.parse(),
             Some(v) => Ok(v),
-- 
2.43.0


From 0b7d63810cf885c8c5077598c293cdd3a89da48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:55 +0000
Subject: [PATCH 53/53] fix: a tab after the indentation of a flow collection
 in a block separates an explicit key

---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 10e9cd8..1352d61 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -575,7 +575,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                     need_whitespace = false;
                 }
                 b'\t' => {
-                    if self.leading_whitespace && self.mark.col <= self.indent {
+                    if self.leading_whitespace
+                        && (self.mark.col < self.indent
+                            || (self.mark.col == self.indent
+                                && self.indents.last().is_some_and(|i| i.needs_block_end)))
+                    {
                         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
                         if !is_breakz(self.src.peekz(0)) {
                             return Err(YamlError::new_str(
-- 
2.43.0

