From 10e41730e5634ecbb50d7ca2143a695a727b5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 1/7] fix: do not panic on an object without elements or
 material

Collecting the trailing material range of an object that has neither elements
nor a usemtl statement indexed an empty table and panicked, so any file
with only vertices, or cut off before its first element, crashed the caller.
---
 src/obj.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..5174677 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,14 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object without elements and without a material statement
+                    // has no material entry to collect.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 51be9478c9ca271c375cbfbf5fe2afbdb0b095f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 2/7] fix: resolve negative indices relative to the last
 definition

A negative index was subtracted instead of added, so every relative
reference was rejected as out of range, and the most negative integer
overflowed.
---
 src/obj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 5174677..4d04d42 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,9 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            // A negative index counts backwards from the most recently defined item,
+            // i.e. -1 is the last one. Zero is never a valid index.
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 2d74a54c5a418a9c9ca5e413be9f877af39621ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:20 +0000
Subject: [PATCH 3/7] fix: report bad trailing indices of faces and lines

The index list of a face or line stopped silently at the first index that
did not parse or was out of range, discarding it: a damaged quadrilateral
loaded as a triangle.
---
 src/obj.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 4d04d42..0caf6f0 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -963,7 +963,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Parse one more more VTN indices.
+    /// Parse all the remaining VTN indices on the current line of input.
     ///
     /// Return the number of VTN indices parsed if no errors occurred.
     fn parse_vtn_indices(
@@ -974,11 +974,16 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
-            vtn_indices.push(vtn_index);
-            indices_parsed += 1;
+        loop {
+            match self.peek() {
+                Some("\n") | None => break,
+                Some(_) => {
+                    let vtn_index =
+                        self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
+                    vtn_indices.push(vtn_index);
+                    indices_parsed += 1;
+                }
+            }
         }
 
         Ok(indices_parsed)
-- 
2.43.0


From 1f2175a6cacb1e33bd46ef37a6018b8734ce0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 4/7] fix: do not take the end of line for a missing name

o, usemtl, s, newmtl and the texture map statements accepted the newline
token as the name when the name was missing.
---
 src/mtl.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 src/obj.rs | 29 +++++++++++++++++++----------
 2 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..364c114 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -434,6 +434,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ka")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -451,6 +455,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Kd")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -468,6 +476,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ks")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -485,6 +497,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ke")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -506,6 +522,10 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -523,6 +543,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("disp")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -540,6 +564,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_d")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -557,6 +585,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("decal")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -574,6 +606,10 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ns")?;
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected texture map name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -616,6 +652,10 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected material name but got end of line.".to_owned(),
+            ),
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
diff --git a/src/obj.rs b/src/obj.rs
index 0caf6f0..d31dd46 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -868,10 +868,16 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
-                let object_name = self.next_string();
+                let object_name = self.next_string()?;
+                if object_name == "\n" {
+                    return self.error(
+                        ErrorKind::InvalidObjectStatement,
+                        "Got an object statement without an object name.".to_owned(),
+                    );
+                }
                 self.skip_one_or_more_newlines()?;
 
-                object_name
+                Ok(object_name)
             }
             _ => Ok(""),
         }
@@ -1170,7 +1176,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|&name| name != "\n") {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1201,13 +1207,16 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
-            material_names.push(Some(name));
-        } else {
-            return self.error(
-                ErrorKind::MaterialStatementHasNoName,
-                "Got a `usemtl` material declaration without a material name.".to_owned(),
-            );
+        match self.next() {
+            Some(name) if name != "\n" => {
+                material_names.push(Some(name));
+            }
+            _ => {
+                return self.error(
+                    ErrorKind::MaterialStatementHasNoName,
+                    "Got a `usemtl` material declaration without a material name.".to_owned(),
+                );
+            }
         }
 
         Ok(1)
-- 
2.43.0


From 9468f23ca65fc121fa45c4dcefb21040c88ed3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:25 +0000
Subject: [PATCH 5/7] fix: accept CRLF and CR line endings

The lexer produced a separate \r token that both parsers rejected, so no
file with Windows line endings could be loaded.
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..409e01a 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -115,8 +115,12 @@ impl<'a> Lexer<'a> {
 
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
+                // Every line ending, be it `\n`, `\r\n`, or `\r`, is one newline token.
+                if ch == b'\r' && self.stream.get(start_position + 1) == Some(&b'\n') {
+                    self.stream_position += 1;
+                }
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                Some(b"\n")
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 1d6c6608d71f2291b7c14279f1bcc4d8e69798a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:27 +0000
Subject: [PATCH 6/7] fix: report errors on the line they occur on

The line number was advanced as soon as the newline token was taken, so an
error at the end of a line was reported on the following line.
---
 src/mtl.rs | 20 +++++++++++++++-----
 src/obj.rs | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 364c114..eb62303 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -276,6 +276,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// The underlying lexer that tokenizes the input stream.
     lexer: PeekableLexer<'a>,
+    /// Whether the last token taken from the stream ended a line.
+    at_line_end: bool,
 }
 
 impl<'a> Parser<'a> {
@@ -284,6 +286,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -292,19 +295,26 @@ impl<'a> Parser<'a> {
         Err(ParseError::new(self.line_number, kind, message))
     }
 
+    /// Move on to the next line if the last token taken from the stream ended
+    /// the current one, so that the line number is the one the token at hand is on.
+    fn update_line_number(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         self.lexer.peek()
     }
 
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.at_line_end = token == Some("\n");
 
         token
     }
diff --git a/src/obj.rs b/src/obj.rs
index d31dd46..442678e 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -666,6 +666,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// the underlying lexer that generates tokens.
     lexer: PeekableLexer<'a>,
+    /// Whether the last token taken from the stream ended a line.
+    at_line_end: bool,
 }
 
 /// Triangulate a polygon with a triangle fan.
@@ -701,6 +703,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -709,19 +712,26 @@ impl<'a> Parser<'a> {
         Err(ParseError::new(self.line_number, kind, message))
     }
 
+    /// Move on to the next line if the last token taken from the stream ended
+    /// the current one, so that the line number is the one the token at hand is on.
+    fn update_line_number(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         self.lexer.peek()
     }
 
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.at_line_end = token == Some("\n");
 
         token
     }
-- 
2.43.0


From ed984ec903a83c9abd0e13ca16bc8f5d36d5c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 7/7] fix: put elements after a nameless group statement in the
 default group

Elements following a g statement without names, after an earlier
named group, belonged to no group at all.
---
 src/obj.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 442678e..d3fa043 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1365,7 +1365,12 @@ impl<'a> Parser<'a> {
                         (min_group_index, max_group_index),
                     ));
 
-                    let amount_parsed = self.parse_groups(&mut groups)?;
+                    let mut amount_parsed = self.parse_groups(&mut groups)?;
+                    if amount_parsed == 0 {
+                        // A group statement without names selects the default group.
+                        groups.push(Default::default());
+                        amount_parsed = 1;
+                    }
                     min_group_index = max_group_index;
                     max_group_index += amount_parsed;
                     min_element_group_index = max_element_group_index;
-- 
2.43.0

