From 139e1400e2d72ad242437177428c4f4b9f54b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 01/13] fix: treat CRLF as a line break when addressing
 positions

---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..f7bf274 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c == "\n" || c == "\r\n" {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..e9c6d09 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -216,7 +216,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
@@ -239,7 +239,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 569a4ef73c00f3bbb4fd91ebecf7cb2629b1009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 02/13] fix: find positions regardless of where the gap is

---
 src/buffer/gap_buffer.rs | 43 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index e9c6d09..23e82a4 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,16 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap, so we need to look at the content
+        // as a whole; positions can't depend on where the gap happens to be.
+        let content = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" || grapheme == "\r\n" {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in content.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                return Some(self.data_offset(offset));
             }
 
             // Advance the line and offset characters.
@@ -247,7 +226,7 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
+        // We didn't find the position *within* the content, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
@@ -256,6 +235,16 @@ impl GapBuffer {
         None
     }
 
+    // Maps an offset in the content, which excludes
+    // the gap, to its equivalent in the data.
+    fn data_offset(&self, offset: usize) -> usize {
+        if offset < self.gap_start {
+            offset
+        } else {
+            offset + self.gap_length
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
-- 
2.43.0


From 8d7aaf1c7fcc197b64a7b55754d5f243e9255b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 03/13] fix: don't overflow when deleting to or at huge
 positions

---
 src/buffer/gap_buffer.rs       | 2 +-
 src/buffer/operation/delete.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 23e82a4..ab35a2c 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -165,7 +165,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..348355d 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -79,7 +79,7 @@ impl Buffer {
         // the current offset and delete the character to the right.
         let mut end = Position {
             line: self.cursor.line,
-            offset: self.cursor.offset + 1,
+            offset: self.cursor.offset.saturating_add(1),
         };
 
         // If there isn't a character to the right,
@@ -87,7 +87,7 @@ impl Buffer {
         // of the next line. If it doesn't exist, that's okay;
         // these values are bounds-checked by delete() anyway.
         if !self.data.borrow().in_bounds(&end) {
-            end.line += 1;
+            end.line = end.line.saturating_add(1);
             end.offset = 0;
         }
 
-- 
2.43.0


From 216557aeca5484364672693331e1d5f589c12706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 04/13] fix: undo and redo exactly what was inserted or deleted

---
 src/buffer/gap_buffer.rs       | 47 +++++++++++++++++++++++++-----
 src/buffer/operation/delete.rs | 25 ++++++++++------
 src/buffer/operation/insert.rs | 53 ++++++++++++----------------------
 3 files changed, 73 insertions(+), 52 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index ab35a2c..d6d1e9d 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -57,6 +57,33 @@ impl GapBuffer {
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
         // Ensure we have the capacity to insert this data.
+        self.reserve(data);
+
+        let offset = match self.find_offset(position) {
+            Some(o) => o,
+            None => return,
+        };
+
+        self.move_gap(offset);
+        self.write_to_gap(data);
+    }
+
+    /// Inserts the specified data at a byte offset in the buffer's content.
+    pub(super) fn insert_at(&mut self, data: &str, offset: usize) {
+        self.reserve(data);
+        self.move_gap(self.data_offset(offset));
+        self.write_to_gap(data);
+    }
+
+    /// Removes the specified number of bytes
+    /// at a byte offset in the buffer's content.
+    pub(super) fn remove_at(&mut self, length: usize, offset: usize) {
+        self.move_gap(self.data_offset(offset));
+        self.gap_length += length;
+    }
+
+    // Grows the gap if it's too small to hold the specified data.
+    fn reserve(&mut self, data: &str) {
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
             // there beforehand so that we're essentially just increasing the
@@ -75,14 +102,6 @@ impl GapBuffer {
                 self.data.set_len(capacity);
             }
         }
-
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
-        self.write_to_gap(data);
     }
 
     /// Returns the specified range of data from the buffer.
@@ -203,6 +222,18 @@ impl GapBuffer {
         self.find_offset(position).is_some()
     }
 
+    // Maps a position to its byte offset in the
+    // content which, unlike the data, excludes the gap.
+    pub(super) fn content_offset(&self, position: &Position) -> Option<usize> {
+        self.find_offset(position).map(|offset| {
+            if offset < self.gap_start {
+                offset
+            } else {
+                offset - self.gap_length
+            }
+        })
+    }
+
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
         // Grapheme clusters can span the gap, so we need to look at the content
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 348355d..f0877bd 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -5,8 +5,8 @@ use std::clone::Clone;
 /// A reversible buffer delete operation.
 ///
 /// Deletes the content at the specified range. Tracks the deleted content and specified
-/// range, and reverses the operation by (trivially) inserting the deleted content at
-/// the start of the specified range.
+/// range, and reverses the operation by inserting the deleted content at the byte offset
+/// it was deleted from; the start of the range may not exist without the deleted content.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the starting position of this operation when it is run or reversed.
@@ -14,16 +14,25 @@ use std::clone::Clone;
 pub struct Delete {
     content: Option<String>,
     range: Range,
+    offset: Option<usize>,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        // Track where the content is, so that we can restore it.
+        self.offset = buffer.data.borrow().content_offset(&self.range.start());
+        let content = buffer.data();
 
         // Delete the data.
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've deleted. It isn't necessarily
+        // what's in the range, since its end may not exist.
+        let deleted_length = content.len() - buffer.data().len();
+        self.content = self
+            .offset
+            .map(|offset| content[offset..offset + deleted_length].to_string());
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
@@ -31,11 +40,8 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
+            buffer.data.borrow_mut().insert_at(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -55,6 +61,7 @@ impl Delete {
         Delete {
             content: None,
             range,
+            offset: None,
         }
     }
 }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..3888f0f 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,13 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
 /// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// the operation by removing exactly what was inserted from the underlying buffer, based
+/// on its byte offset; its positions may have changed by merging with surrounding content.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,10 +15,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Track where the content goes, so that we can remove it.
+        self.offset = buffer.data.borrow().content_offset(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,38 +34,14 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
         // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .remove_at(self.content.len(), offset);
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +57,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From a4b9f7a9ec4049d129eb00cf74b0a7dd66c14b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 05/13] fix: return grapheme cluster-based positions from
 search

---
 src/buffer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..4a6f4e0 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -335,6 +336,10 @@ impl Buffer {
                 if haystack.len() >= needle.len()
                     && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                 {
+                    // The match offset is byte-based, but position
+                    // offsets should be grapheme cluster-based.
+                    let offset = data[..offset].graphemes(true).count();
+
                     results.push(Position { line, offset });
                 }
             }
-- 
2.43.0


From 3e5349ed25984fe4767c498da3a2c2c41fd6f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 06/13] fix: measure distance offsets in grapheme clusters

---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From bac0d1018554ee330c25a673ccd2c0414e24414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 07/13] fix: don't count grapheme clusters spanning lexemes
 twice

---
 src/buffer/token/token_iterator.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..6ebe8d4 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -99,10 +99,9 @@ impl<'a> TokenIterator<'a> {
                     }));
 
                     // The event/current offsets are byte-based, but
-                    // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // position offsets should be grapheme cluster-based. A cluster
+                    // can span lexemes, so count from the start of the line.
+                    self.current_position.offset = line[..end_of_token].graphemes(true).count();
 
                     self.current_byte_offset = event_offset;
                 }
-- 
2.43.0


From 9fd31f42137258cdd94b92c10295e95e5929039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 08/13] fix: remember the column when moving to the end of an
 empty last line

---
 src/buffer/cursor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index f7bf274..3006ec3 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -175,14 +175,14 @@ impl Cursor {
     /// Moves the cursor offset to after the last character on the current line.
     pub fn move_to_end_of_line(&mut self) {
         let data = self.data.borrow().to_string();
-        let current_line = data.lines().nth(self.line);
-        if let Some(line) = current_line {
-            let new_position = Position {
-                line: self.line,
-                offset: line.graphemes(true).count(),
-            };
-            self.move_to(new_position);
-        }
+
+        // A trailing empty line isn't included in the data's lines.
+        let current_line = data.lines().nth(self.line).unwrap_or("");
+        let new_position = Position {
+            line: self.line,
+            offset: current_line.graphemes(true).count(),
+        };
+        self.move_to(new_position);
     }
 
     /// Moves the cursor to the last line in the buffer.
-- 
2.43.0


From 8c5d17d9548cf0d4c54eb1acb8dad363d69012f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 09/13] fix: allow redoing an operation group that was open
 when undone

---
 src/buffer/mod.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 4a6f4e0..f51afb1 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -242,18 +242,10 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // If there's an open, non-empty operation group, it's what we'll undo. Store
+        // it in the buffer history beforehand, so that it's eligible to be redone.
+        self.end_operation_group();
+        let operation = self.history.previous();
 
         // If we found an eligible operation, reverse it.
         if let Some(mut op) = operation {
-- 
2.43.0


From f01b35447139805d3bfa5af5cb848fd800cdd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 10/13] fix: don't redo stale operations while an operation
 group has modifications

---
 src/buffer/mod.rs             | 6 ++++++
 src/buffer/operation/group.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index f51afb1..242b13b 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -270,6 +270,12 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Modifications in an open operation group rule out
+        // re-applying operations that were undone before them.
+        if self.has_open_operations() {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index c3e7e27..04dce33 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -87,6 +87,13 @@ impl Buffer {
             }
         }
     }
+
+    /// Whether or not there's an open operation group containing operations.
+    pub(in crate::buffer) fn has_open_operations(&self) -> bool {
+        self.operation_group
+            .as_ref()
+            .map_or(false, |group| !group.is_empty())
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 88c4e32b6d071fc66fb21e9557266ed551336abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 11/13] fix: track whether a buffer is modified while an
 operation group is open

---
 src/buffer/mod.rs               | 22 +++++++++++++++++++---
 src/buffer/operation/group.rs   | 21 ++++++++++++++++++++-
 src/buffer/operation/history.rs |  4 ++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 242b13b..ea77da4 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -191,7 +191,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
@@ -216,6 +216,19 @@ impl Buffer {
         })
     }
 
+    /// Flags the buffer's current content as being in sync with its file
+    /// equivalent. In an open operation group, that's a state which is part
+    /// of the group, rather than one before or after it in the history.
+    fn mark(&mut self) {
+        match self.operation_group {
+            Some(ref mut group) if !group.is_empty() => {
+                group.mark();
+                self.history.clear_mark();
+            }
+            _ => self.history.mark(),
+        }
+    }
+
     /// Reverses the last modification to the buffer.
     ///
     /// # Examples
@@ -373,7 +386,10 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        match self.operation_group {
+            Some(ref group) if !group.is_empty() => !group.at_mark(),
+            _ => !self.history.at_mark(),
+        }
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -422,7 +438,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index 04dce33..fff9263 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -13,6 +13,7 @@ use crate::buffer::Buffer;
 /// buffer type to signal the start and end of a group.
 pub struct OperationGroup {
     operations: Vec<Box<dyn Operation>>,
+    marked_length: Option<usize>,
 }
 
 impl Operation for OperationGroup {
@@ -39,6 +40,7 @@ impl Operation for OperationGroup {
                 .iter()
                 .map(|o| (*o).clone_operation())
                 .collect(),
+            marked_length: None,
         })
     }
 }
@@ -48,6 +50,7 @@ impl OperationGroup {
     pub fn new() -> OperationGroup {
         OperationGroup {
             operations: Vec::new(),
+            marked_length: None,
         }
     }
 
@@ -60,6 +63,16 @@ impl OperationGroup {
     pub fn is_empty(&self) -> bool {
         self.operations.is_empty()
     }
+
+    /// Marks the group's current length.
+    pub fn mark(&mut self) {
+        self.marked_length = Some(self.operations.len())
+    }
+
+    /// Whether or not the group's length is the one that was last marked.
+    pub fn at_mark(&self) -> bool {
+        self.marked_length == Some(self.operations.len())
+    }
 }
 
 impl Buffer {
@@ -83,7 +96,13 @@ impl Buffer {
         // Push an open operation group on to the history stack, if one exists.
         if let Some(group) = self.operation_group.take() {
             if !group.is_empty() {
-                self.history.add(Box::new(group))
+                let at_mark = group.at_mark();
+                self.history.add(Box::new(group));
+
+                // Carry over the mark, if the group ends with it.
+                if at_mark {
+                    self.history.mark();
+                }
             }
         }
     }
diff --git a/src/buffer/operation/history.rs b/src/buffer/operation/history.rs
index 288199b..a274c96 100644
--- a/src/buffer/operation/history.rs
+++ b/src/buffer/operation/history.rs
@@ -64,6 +64,10 @@ impl History {
         self.marked_position = Some(self.previous.len())
     }
 
+    pub fn clear_mark(&mut self) {
+        self.marked_position = None
+    }
+
     pub fn at_mark(&self) -> bool {
         if let Some(position) = self.marked_position {
             self.previous.len() == position
-- 
2.43.0


From 471e513464ae2d986bca26be6c28964a4003a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 12/13] fix: don't open a file twice when a buffer's path isn't
 canonical

---
 src/workspace.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/workspace.rs b/src/workspace.rs
index 26c159b..bec011c 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -467,16 +467,22 @@ impl Workspace {
 
     fn select_buffer_by_path(&mut self, path: &Path) -> bool {
         if let Ok(ref canonical_path) = path.canonicalize() {
+            // A buffer's path isn't necessarily canonical; it may
+            // have been assigned, rather than opened from a file.
+            let matches = |buffer: &Buffer| {
+                buffer.path.as_ref().map_or(false, |path| {
+                    path == canonical_path
+                        || path.canonicalize().ok().as_ref() == Some(canonical_path)
+                })
+            };
+
             // Do nothing if the current buffer matches the path.
-            if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
+            if self.current_buffer.as_ref().map_or(false, matches) {
                 return true;
             }
 
             // Look at other open buffers to see if one matches.
-            let index = self
-                .buffers
-                .iter()
-                .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
+            let index = self.buffers.iter().position(matches);
 
             // If we found a matching buffer, select it and propagate the
             // result of that operation. Otherwise, return false.
-- 
2.43.0


From 7c84a1a81809611bbaa4910f8fc25ad7d2560dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 13/13] fix: consider buffers without a path modified

A buffer whose path was cleared after being read or saved was reported as
unmodified, although there's no file left that its content would be in sync
with; the documentation has such buffers always be considered modified.
---
 src/buffer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index ea77da4..145e2c2 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -386,6 +386,11 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
+        // Without a path, there's no file to be in sync with.
+        if self.path.is_none() {
+            return true;
+        }
+
         match self.operation_group {
             Some(ref group) if !group.is_empty() => !group.at_mark(),
             _ => !self.history.at_mark(),
-- 
2.43.0

