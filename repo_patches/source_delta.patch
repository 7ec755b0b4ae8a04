From 964ef26ee4020a54c174e2665a51ac73d8ddb703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 01/40] hooks: expose private editor items and the server event
 loop under cfg(ced_verif)

---
 core/src/editor/mod.rs             |  9 ++++++++
 core/src/editor/piece_table/mod.rs | 11 ++++++++++
 core/src/server.rs                 | 33 ++++++++++++++++++++++++++++++
 3 files changed, 53 insertions(+)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..1481fbd 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -8,6 +8,15 @@ mod range;
 mod selection;
 pub mod view;
 
+/// Private items a verification harness needs (only with `--cfg ced_verif`).
+#[cfg(ced_verif)]
+pub mod verif {
+    pub use super::diff::{diff, Diff};
+    pub use super::piece_table::{Coords, Navigator, PieceTable, PositionIterator};
+    pub use super::range::OffsetRange;
+    pub use super::selection::Selection;
+}
+
 use std::collections::{HashMap, HashSet};
 use std::env;
 use std::path::PathBuf;
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..700d14e 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -637,6 +637,17 @@ impl PieceTable {
     }
 }
 
+#[cfg(ced_verif)]
+impl PieceTable {
+    pub fn verif_undo(&mut self) -> bool {
+        self.undo()
+    }
+
+    pub fn verif_redo(&mut self) -> bool {
+        self.redo()
+    }
+}
+
 impl Default for PieceTable {
     fn default() -> Self {
         Self::new()
diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..94f9242 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -214,3 +214,36 @@ impl Server {
         }))
     }
 }
+
+/// Runs the client event loop on a caller-controlled executor and event queue (only with
+/// `--cfg ced_verif`).
+#[cfg(ced_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct Events(Sender<Event>);
+
+    impl Events {
+        pub fn join(&self, client_id: usize, stream: ServerStream) {
+            self.0.try_send(Event::Join((client_id, stream))).unwrap();
+        }
+
+        pub fn message(&self, client_id: usize, line: &str) {
+            let event = Event::Message((client_id, line.to_owned()));
+            self.0.try_send(event).unwrap();
+        }
+
+        pub fn leave(&self, client_id: usize) {
+            self.0.try_send(Event::Leave(client_id)).unwrap();
+        }
+    }
+
+    pub fn event_loop<'a>(
+        ex: Arc<LocalExecutor<'a>>,
+        session: &str,
+    ) -> (Events, impl Future<Output = ()> + 'a) {
+        let (sender, receiver) = unbounded();
+        let events = Server::handle_events(ex, session.to_owned(), receiver);
+        (Events(sender), events)
+    }
+}
-- 
2.43.0


From 46873bd0effdfcae06d2eab28768d3ecf40874b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 02/40] fix: piece table edits of empty text or zero length no
 longer break the table

---
 core/src/editor/piece_table/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 700d14e..c810ff1 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -179,12 +179,14 @@ impl PieceTable {
     pub fn with_text(text: String) -> PieceTable {
         let mut pieces = RBTreeSet::new();
         let newlines = text.match_indices('\n').map(|(i, _)| i).collect();
-        pieces.insert(Piece {
-            offset: 0,
-            start: 0,
-            length: text.len(),
-            original: true,
-        });
+        if !text.is_empty() {
+            pieces.insert(Piece {
+                offset: 0,
+                start: 0,
+                length: text.len(),
+                original: true,
+            });
+        }
         PieceTable {
             original: text.into_bytes(),
             added: Vec::new(),
@@ -486,6 +488,9 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
@@ -514,6 +519,9 @@ impl PieceTable {
     }
 
     pub fn insert(&mut self, offset: usize, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
@@ -548,6 +556,9 @@ impl PieceTable {
     }
 
     pub fn delete(&mut self, range: &dyn Range) {
+        if range.len() == 0 {
+            return;
+        }
         self.action(Action::Delete);
 
         // special case: deleting exactly the whole content
-- 
2.43.0


From 3d1b27d69838e6e8154c0204ff33f54e5a294fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 03/40] fix: deleting a range no longer shifts the pieces
 before it

---
 core/src/editor/piece_table/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index c810ff1..15fd981 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -575,22 +575,22 @@ impl PieceTable {
                 .take_while(|p| p.offset < range.end())
                 .collect::<Vec<Piece>>();
             let (head, _) = pieces[0].truncate(range.start(), range.len());
-            let (_, tail) = pieces[pieces.len() - 1].truncate(range.start(), range.len());
+            let last = pieces[pieces.len() - 1];
+            let (_, tail) = last.truncate(range.start(), range.len());
             for piece in &pieces {
                 assert!(self.pieces.remove(piece));
             }
-            let mut last_node = None;
+            let next_offset = last.offset + last.length;
+            if let Some(next_node) = self.pieces.get_node(&Piece::offset(next_offset)) {
+                for n in self.pieces.iter_from(&next_node) {
+                    n.apply(|p| p.offset -= range.len());
+                }
+            }
             if let Some(p) = head {
-                last_node = self.pieces.insert(p);
+                self.pieces.insert(p);
             }
             if let Some(p) = tail {
-                last_node = self.pieces.insert(p);
-            }
-            if let Some(ln) = last_node {
-                self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+                self.pieces.insert(p);
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From 03aec4adc82b0c114f7244b1dde0b16a443eea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 04/40] fix: undo and redo restore the line index along with
 the text

---
 core/src/editor/piece_table/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 15fd981..8fcaf2b 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -243,10 +243,15 @@ impl PieceTable {
         self.last_action = None;
     }
 
+    fn refresh_newlines(&mut self) {
+        self.newlines = self.text().match_indices('\n').map(|(i, _)| i).collect();
+    }
+
     fn undo(&mut self) -> bool {
         if let Some(pieces) = self.undos.pop() {
             self.redos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.refresh_newlines();
             self.last_action = None;
             true
         } else {
@@ -258,6 +263,7 @@ impl PieceTable {
         if let Some(pieces) = self.redos.pop() {
             self.undos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.refresh_newlines();
             self.last_action = None;
             true
         } else {
-- 
2.43.0


From fc61310cffec4607f4e1fb7791a57b36a8a293cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/40] fix: coordinates count graphemes on every line and
 refuse positions outside the text

---
 core/src/editor/piece_table/mod.rs | 41 ++++++++++--------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 8fcaf2b..12a4dac 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -333,6 +333,8 @@ impl PieceTable {
     pub fn line_bytes(&self, n: usize) -> Option<Vec<u8>> {
         if n == 0 || self.line_count() < n {
             None
+        } else if self.is_empty() {
+            Some(Vec::new())
         } else if n == 1 {
             let max_len = self.len();
             self.range(&OffsetRange::new(
@@ -377,18 +379,13 @@ impl PieceTable {
 
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_offset = preceding_lines.last().map_or(0, |&nli| nli + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let col = line
+            .grapheme_indices()
+            .take_while(|(i, _, _)| line_offset + i <= offset)
+            .count();
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
@@ -409,7 +406,9 @@ impl PieceTable {
             let lbs = self
                 .line_bytes(coords.l)
                 .unwrap_or_else(|| panic!("get bytes for line {}", coords.l));
-            if coords.c == lbs.graphemes().count() + 1 {
+            if coords.c == 0 {
+                None
+            } else if coords.c == lbs.graphemes().count() + 1 {
                 // this is the newline character for this line
                 Some(line_offset + lbs.len())
             } else {
@@ -446,23 +445,11 @@ impl PieceTable {
 
     pub fn char_at(&self, coords: impl Into<Coords>) -> Option<String> {
         self.coord_to_offset(coords.into())
-            .map(|offset| self.char_at_offset(offset).unwrap())
+            .and_then(|offset| self.char_at_offset(offset))
     }
 
     pub fn line_length(&self, index: usize) -> usize {
-        let mut nls = self.newlines.iter().collect::<Vec<_>>();
-        nls.sort_unstable();
-        if nls.is_empty() {
-            self.len()
-        } else if index == 1 {
-            *nls[0]
-        } else if index - 1 < nls.len() {
-            nls[index - 1] - nls[index - 2] - 1
-        } else if index - 1 == nls.len() {
-            self.len() - nls[index - 2] - 1
-        } else {
-            0
-        }
+        self.line_bytes(index).map_or(0, |l| l.graphemes().count())
     }
 
     pub fn longest_line(&self) -> (usize, usize) {
-- 
2.43.0


From 1e3c63043d66935f5252cfbbdb102e20ac20b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 06/40] fix: diff handles every pair of texts, on character
 boundaries

---
 core/src/editor/diff.rs | 53 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..1200726 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,7 +7,8 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
+/// Lengths of the common prefix and of the common suffix of the rest.
+fn precompute(b1: &[char], b2: &[char]) -> (usize, usize) {
     let l1 = b1.len();
     let l2 = b2.len();
 
@@ -21,14 +22,17 @@ fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
+}
+
+fn byte_len(chars: &[char]) -> usize {
+    chars.iter().map(|c| c.len_utf8()).sum()
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
+    if left.is_empty() || right.is_empty() {
+        return Vec::new();
+    }
     let el = left.len();
     let er = right.len();
 
@@ -79,22 +83,17 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
 
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
+    let cleft: Vec<char> = left.chars().collect();
+    let cright: Vec<char> = right.chars().collect();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(&cleft, &cright);
     if start > 0 {
-        diffs.push(Diff::Both(start));
+        diffs.push(Diff::Both(byte_len(&cleft[..start])));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
-
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
+
+    let l = &cleft[start..cleft.len() - end];
+    let r = &cright[start..cright.len() - end];
     let lcs = find_lcs(l, r);
     let mut i = 0;
     let mut j = 0;
@@ -104,7 +103,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     while let Some(&c) = lcs_it.next() {
         len = 0;
         while i < l.len() && l[i] != c {
-            len += 1;
+            len += l[i].len_utf8();
             i += 1;
         }
         if len > 0 {
@@ -113,7 +112,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
         len = 0;
         while j < r.len() && r[j] != c {
-            len += 1;
+            len += r[j].len_utf8();
             j += 1;
         }
         if len > 0 {
@@ -123,7 +122,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         len = 0;
         let mut sub_c = c;
         while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+            len += sub_c.len_utf8();
             i += 1;
             j += 1;
             match lcs_it.next() {
@@ -136,15 +135,15 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(byte_len(&l[i..])));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(byte_len(&r[j..])));
     }
 
     if end > 0 {
-        diffs.push(Diff::Both(end));
+        diffs.push(Diff::Both(byte_len(&cleft[cleft.len() - end..])));
     }
     diffs
 }
-- 
2.43.0


From 57e2b9396c8e838f2b290e491dc6e906fdfa5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 07/40] fix: reloading a large rewritten file no longer
 allocates a table of both sizes multiplied

---
 core/src/editor/diff.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index 1200726..80db3f0 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -29,12 +29,15 @@ fn byte_len(chars: &[char]) -> usize {
     chars.iter().map(|c| c.len_utf8()).sum()
 }
 
+/// Largest comparison table worth building; beyond it the texts count as wholly different.
+const MAX_TABLE: usize = 1 << 24;
+
 fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
-    if left.is_empty() || right.is_empty() {
-        return Vec::new();
-    }
     let el = left.len();
     let er = right.len();
+    if el == 0 || er == 0 || el.saturating_mul(er) > MAX_TABLE {
+        return Vec::new();
+    }
 
     let mut mt = vec![0; el * er];
     for i in 0..el {
-- 
2.43.0


From 99c5b8084ac2593eed0c7938515fbbf7d77cfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 08/40] fix: cursor moves over multi-byte characters, empty
 lines and unterminated lines

---
 core/src/editor/piece_table/navigator.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..46309b9 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,4 +1,4 @@
-use std::cmp::min;
+use std::cmp::{max, min};
 
 use bstr::ByteSlice;
 
@@ -34,13 +34,20 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
-        let col_count = self
+        let mut col_count = self
             .table
             .line_bytes(self.cursor.l)
             .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
             .graphemes()
-            .count()
-            + 1;
+            .count();
+        // an unterminated line ends on its last character
+        let newline = Coords {
+            c: col_count + 1,
+            ..self.cursor
+        };
+        if col_count == 0 || self.table.char_at(newline).is_some() {
+            col_count += 1;
+        }
         let cursor = Coords {
             c: min(col_count, self.target_col),
             ..self.cursor
@@ -65,11 +72,8 @@ impl Navigator<'_> {
             };
             self.target_col = 1;
         } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
         }
         self
     }
@@ -109,7 +113,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.table.line_length(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From 53ab157476d747b3b6feaf5c513ba00ad6c455b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 09/40] fix: selections cover and highlight whole characters up
 to the last one

---
 core/src/editor/buffer.rs |  7 ++++---
 core/src/editor/view.rs   | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..eb3a535 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -166,11 +166,12 @@ impl Buffer {
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
-        let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
+        let end_coord = self.content.offset_to_coord(sel.end());
+        let end_offset = if end_coord == Some(self.content.max_coord()) {
+            self.content.len()
         } else {
             self.content
-                .navigate(self.content.offset_to_coord(sel.end()))
+                .navigate(end_coord)
                 .unwrap()
                 .next()
                 .pos()
diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..643b678 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -5,6 +5,7 @@ use std::ops::Range;
 
 use crate::editor::selection::Selection;
 use crate::editor::Buffer;
+use bstr::ByteSlice;
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -96,6 +97,15 @@ pub enum ViewItem {
     Lens(Lens),
 }
 
+/// Byte offset of a column in a line displayed with a blank for its line end.
+fn column_offset(line: &str, column: usize) -> usize {
+    let mut starts = line.as_bytes().grapheme_indices().map(|(start, _, _)| start);
+    let count = starts.clone().count();
+    starts
+        .nth(column)
+        .unwrap_or_else(|| line.len() + (column - count).min(1))
+}
+
 #[derive(Clone, Debug, Default)]
 pub struct View(BTreeMap<String, LensGroup>);
 
@@ -193,14 +203,14 @@ impl View {
                         for s in ss {
                             let start = buffer.content.offset_to_coord(s.begin()).unwrap();
                             let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
+                                let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
+                                if end == buffer.content.max_coord() {
                                     end.c += 1;
                                     end
                                 } else {
                                     buffer
                                         .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
+                                        .navigate(end)
                                         .unwrap()
                                         .next()
                                         .pos()
@@ -247,12 +257,16 @@ impl View {
                                 for range in ranges {
                                     match *range {
                                         (Some(start), Some(end)) => {
+                                            let start = column_offset(line, start).min(line.len());
+                                            let end = column_offset(line, end);
                                             deco.set(Face::Selection, start..end);
                                         }
                                         (Some(start), None) => {
+                                            let start = column_offset(line, start).min(line.len());
                                             deco.set(Face::Selection, start..l.len());
                                         }
                                         (None, Some(end)) => {
+                                            let end = column_offset(line, end);
                                             deco.set(Face::Selection, 0..end);
                                         }
                                         (None, None) => {
-- 
2.43.0


From 5df782d60e13ad35566576717630c56bed825cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 10/40] fix: an edit keeps the selections of every client valid
 and refreshes every viewer

---
 core/src/editor/buffer.rs    | 13 ++++++++++
 core/src/editor/core.rs      | 46 ++++++++++++++++++++----------------
 core/src/editor/selection.rs | 18 ++++----------
 3 files changed, 43 insertions(+), 34 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index eb3a535..b8f8db7 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -165,6 +165,19 @@ impl Buffer {
         self.modified = true;
     }
 
+    /// Brings both ends of a selection back on characters of the buffer.
+    pub fn fit_selection(&self, sel: &mut Selection) {
+        let begin_of = |offset| {
+            self.content
+                .offset_to_coord(offset)
+                .and_then(|coords| self.content.coord_to_offset(coords))
+                .unwrap_or(0)
+        };
+        sel.clamp_to(self.content.max_offset());
+        sel.anchor = begin_of(sel.anchor);
+        sel.cursor = begin_of(sel.cursor);
+    }
+
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
         let end_coord = self.content.offset_to_coord(sel.end());
         let end_offset = if end_coord == Some(self.content.max_coord()) {
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..8240ec4 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -324,7 +324,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::fit_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
@@ -424,6 +426,7 @@ impl Core {
         } else if exists {
             let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
             if reloaded {
+                Self::fit_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
             }
             reloaded
@@ -567,25 +570,23 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    /// Keeps the selections of all clients in all views valid after a buffer changed.
+    fn fit_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
+        let state = &mut **state;
+        let buffer = &state.buffers[bufname];
+        for (_id, context) in state.clients.iter_mut() {
+            for sels_by_buffer in context.selections.values_mut() {
+                if let Some(sels) = sels_by_buffer.get_mut(bufname) {
+                    sels.iter_mut().for_each(|s| buffer.fit_selection(s));
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -609,13 +610,17 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::fit_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        let mut to_notify: Vec<usize> = modified_buffers
+            .iter()
+            .flat_map(|bufname| self.clients_with_buffer(bufname))
+            .collect();
+        to_notify.sort_unstable();
+        to_notify.dedup();
+        self.notify_view_update(to_notify);
         deleted
     }
 }
@@ -709,6 +714,7 @@ impl rlua::UserData for Core {
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true);
+                this.notify_view_update(this.clients_with_buffer(&name));
                 Ok(())
             },
         );
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..dbd2169 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -36,19 +36,9 @@ impl Selection {
         }
     }
 
-    pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+    /// Brings both ends back to an offset or before.
+    pub fn clamp_to(&mut self, n: usize) {
+        self.anchor = self.anchor.min(n);
+        self.cursor = self.cursor.min(n);
     }
 }
-- 
2.43.0


From d5f02ff696ec62517c0371b15115328280c51382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 11/40] fix: deleting, changing and naming views keeps views,
 buffers and selections consistent

---
 core/src/editor/core.rs | 58 ++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 8240ec4..2667c2b 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -296,16 +296,19 @@ impl Core {
                 state.clients[c].clone()
             } else {
                 let latest_view = state.views.latest_value().unwrap();
-                let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                let selections = state
+                    .views
+                    .iter()
+                    .map(|(key, view)| {
+                        let sels = view
+                            .borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect();
+                        (key.clone(), sels)
+                    })
+                    .collect();
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
@@ -359,7 +362,7 @@ impl Core {
         }
 
         let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
-        self.debug(&format!("delete view: {}", view_id));
+        let mut deleted_buffers = Vec::new();
         for (_id, context) in lock!(self).clients.iter_mut() {
             context.selections.remove(view_id);
         }
@@ -373,11 +376,11 @@ impl Core {
             }
             if !has_ref {
                 lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+                deleted_buffers.push(buffer.to_owned());
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
@@ -390,6 +393,11 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        // logging refreshes the views, which have to be consistent by then
+        self.debug(&format!("delete view: {}", view_id));
+        for buffer in deleted_buffers {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
@@ -405,8 +413,14 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
-                        context.selections.insert(new_key.clone(), old_sels);
+                    // do not touch what a client selected in the new view if it already existed
+                    let concerned = context.view.borrow().key() == old_key
+                        || !context.selections.contains_key(&new_key);
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        if concerned {
+                            old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
+                            context.selections.insert(new_key.clone(), old_sels);
+                        }
                     }
                 }
                 self.add_view(new_view);
@@ -466,16 +480,12 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
+            self.view(client_id, &key)
         } else {
             Err(Error::ViewNotFound {
                 view_id: view_id.to_owned(),
-- 
2.43.0


From fa5e07d62683cefaf356bacd93852f6ad973457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 12/40] fix: unreadable files are reported to the client, and
 reloading follows what is on disk

---
 core/src/editor/buffer.rs | 90 +++++++++++++++++++--------------------
 core/src/editor/core.rs   | 30 +++++++++----
 core/src/editor/mod.rs    |  5 ++-
 3 files changed, 70 insertions(+), 55 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index b8f8db7..5e0fb9f 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,6 +1,8 @@
+use std::collections::hash_map::DefaultHasher;
 use std::env::current_dir;
-use std::fs::{self, File};
-use std::io::Read;
+use std::fs::File;
+use std::hash::{Hash, Hasher};
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
@@ -57,10 +59,27 @@ fn find_shortest_name(sources: &[BufferSource], idx: usize) -> String {
     }
 }
 
+fn read_text(path: &Path) -> io::Result<String> {
+    let mut file = File::open(path)?;
+    let mut content = String::new();
+    file.read_to_string(&mut content)?;
+    if !content.ends_with('\n') {
+        content.push('\n');
+    }
+    Ok(content)
+}
+
+fn hash_text(text: &str) -> u64 {
+    let mut hasher = DefaultHasher::new();
+    text.hash(&mut hasher);
+    hasher.finish()
+}
+
 pub struct Buffer {
     pub source: BufferSource,
     pub content: PieceTable,
     last_sync: Option<SystemTime>,
+    synced_hash: u64,
     modified: bool,
 }
 
@@ -75,34 +94,35 @@ impl Buffer {
             source: BufferSource::Scratch(name),
             content: PieceTable::with_text(content),
             last_sync: None,
+            synced_hash: 0,
             modified: false,
         }
     }
 
     pub fn new_file(filename: &Path) -> Buffer {
+        Self::open_file(filename).expect("open file")
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
-        let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
         let last_sync = Some(SystemTime::now());
+        let file_content = read_text(&absolute_path)?;
+        let synced_hash = hash_text(&file_content);
 
-        if !file_content.ends_with('\n') {
-            file_content += "\n";
-        }
-
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
             content: PieceTable::with_text(file_content),
             last_sync,
+            synced_hash,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -121,41 +141,21 @@ impl Buffer {
         find_shortest_name(sources, idx)
     }
 
-    fn is_synced(&self) -> bool {
-        if let BufferSource::File(ref path) = self.source {
-            let dt_sync = match self.last_sync {
-                Some(dt) => dt,
-                None => return false,
-            };
-            let meta = match fs::metadata(path) {
-                Ok(data) => data,
-                Err(_) => return false,
-            };
-            if !meta.is_file() {
-                return false;
-            }
-            match meta.modified() {
-                Ok(dt_modified) => return dt_modified < dt_sync,
-                Err(_) => return false,
-            }
-        }
-        true
-    }
-
-    pub fn load_from_disk(&mut self) -> bool {
+    /// Takes over what is on disk if it changed since it was last read.
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
-                if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
-                    self.content.apply_diff(&content);
-                    self.last_sync = Some(SystemTime::now());
-                    true
-                } else {
-                    false
+                let now = SystemTime::now();
+                let content = read_text(path)?;
+                let hash = hash_text(&content);
+                self.last_sync = Some(now);
+                if hash == self.synced_hash {
+                    return Ok(false);
                 }
+                self.content.apply_diff(&content);
+                self.synced_hash = hash;
+                Ok(true)
             }
         }
     }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 2667c2b..53e7fd7 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    FileNotReadable { name: String, source: io::Error },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +126,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            FileNotReadable { name, source } => write!(f, "cannot read file: {}: {}", name, source),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -332,9 +334,10 @@ impl Core {
         Self::fit_selections(&mut state, name);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> io::Result<()> {
+        let buffer = Buffer::open_file(filename)?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -429,7 +432,11 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
+        let not_readable = |source| Error::FileNotReadable {
+            name: name.to_owned(),
+            source,
+        };
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -438,7 +445,12 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = lock!(self)
+                .buffers
+                .get_mut(name)
+                .unwrap()
+                .load_from_disk()
+                .map_err(not_readable)?;
             if reloaded {
                 Self::fit_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
@@ -450,7 +462,7 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path).map_err(not_readable)?;
             true
         };
 
@@ -468,6 +480,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -723,7 +736,8 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)?;
                 this.notify_view_update(this.clients_with_buffer(&name));
                 Ok(())
             },
@@ -731,8 +745,8 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 1481fbd..a3d4b4e 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -253,8 +253,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From e0e30dcd45b6ec7cd97b4f88dccb830feea253ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 13/40] fix: scripts naming an unknown client get an error
 instead of taking the editor down

---
 core/src/editor/core.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 53e7fd7..f7ae014 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { client_id: usize },
     FileNotReadable { name: String, source: io::Error },
     ViewNotFound { view_id: String },
 }
@@ -126,6 +127,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { client_id } => write!(f, "client not found: {}", client_id),
             FileNotReadable { name, source } => write!(f, "cannot read file: {}: {}", name, source),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
@@ -179,6 +181,14 @@ impl Core {
         lock!(self).cwd.to_owned()
     }
 
+    fn check_client(&self, client_id: usize) -> rlua::Result<()> {
+        if lock!(self).clients.contains_key(&client_id) {
+            Ok(())
+        } else {
+            Err(rlua::Error::external(Error::ClientNotFound { client_id }))
+        }
+    }
+
     fn buffer_exists(&self, name: &str) -> bool {
         lock!(self).buffers.contains_key(name)
     }
@@ -700,6 +710,7 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
+            this.check_client(client)?;
             let context = lock!(this).clients[&client].clone();
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
@@ -735,6 +746,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.check_client(client)?;
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
                     .map_err(rlua::Error::external)?;
@@ -745,6 +757,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
+                this.check_client(client)?;
                 this.edit(client, &name, scratch)
                     .map_err(rlua::Error::external)
             },
@@ -755,38 +768,47 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::Left, extend);
             Ok(())
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::Right, extend);
             Ok(())
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::Up, extend);
             Ok(())
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::Down, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::LineBegin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::LineEnd, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::Begin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
+            this.check_client(client)?;
             this.move_cursor(client, CursorTarget::End, extend);
             Ok(())
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
+            this.check_client(client)?;
             let deleted = this.delete_selection(client);
             Ok(deleted)
         });
-- 
2.43.0


From eb8979d99b0073d0273b52019d2161b0a4019192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 14/40] fix: session names with quotes no longer break scripts
 and keys

---
 core/src/editor/mod.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index a3d4b4e..013cda5 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -166,17 +166,10 @@ impl Editor {
     {
         self.lua
             .context(|context| {
-                let env_source = format!(
-                    r#"
-                    env = {{
-                        session = "{session}",
-                        client = "{client}",
-                    }}
-                    "#,
-                    session = self.session_name,
-                    client = client_id,
-                );
-                context.load(&env_source).exec()?;
+                let env = context.create_table()?;
+                env.set("session", self.session_name.as_str())?;
+                env.set("client", client_id.to_string())?;
+                context.globals().set("env", env)?;
                 f(context)
             })
             .map_err(|e| {
-- 
2.43.0


From ec0ef436bd3e3c2b8f10aef9f8d078138f4fd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 15/40] fix: a joining client is sent the view it starts with

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index f7ae014..3a9bacd 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -330,6 +330,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0


From 7b137cc1abbd500340fd91f154aa6e59f2118133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 16/40] fix: the server outlives clients that quit, disconnect
 early or send requests after quitting

---
 core/src/server.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 94f9242..b4018e9 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -106,23 +106,35 @@ impl Server {
                 }
                 Event::Leave(client_id) => {
                     editor.remove_client(client_id);
+                    // a client which has quit is not there anymore
                     clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
-                Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
-                    Ok(message) => {
-                        let mut index = clients.write().expect("lock client index");
-                        let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                Event::Message((client_id, raw)) => {
+                    let connected = clients
+                        .read()
+                        .expect("lock client index")
+                        .contains_key(&client_id);
+                    if !connected {
+                        log::warn!("client {}: message after quit: {:?}", client_id, raw);
+                        continue;
+                    }
+                    match editor.handle(client_id, &raw) {
+                        Ok(message) => {
+                            let mut index = clients.write().expect("lock client index");
+                            let stream = index.get_mut(&client_id).unwrap();
+                            let res = Self::write_client(client_id, stream, &message);
+                            if let Err(e) = res {
+                                log::error!("{}", e);
+                            }
+                        }
+                        Err(e) => log::error!("{}: {:?}", e, raw),
                     }
-                    Err(e) => log::error!("{}: {:?}", e, raw),
-                },
+                }
             }
             for client_id in editor.removed_clients() {
                 clients
-- 
2.43.0


From b222f39a18a2b25442149cba010da158d40b54bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 17/40] fix: menus accept any search text

---
 core/src/editor/menu.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..e16461d 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -150,10 +150,11 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
-        let raw_re = format!("(?i){}", elements.join(".*"));
-        Regex::new(&raw_re).unwrap()
+        let raw_re = format!("(?is){}", elements.join(".*"));
+        // nothing matches a search that is too big to compile
+        Regex::new(&raw_re).unwrap_or_else(|_| Regex::new(r"\z.").unwrap())
     }
 
     pub fn filter<T>(&self, items: &[T]) -> Candidates<T>
-- 
2.43.0


From dbf828fffaa38b80f0a1ad563092ca4149c6a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 18/40] fix: null results survive decoding and reading a
 response never panics

---
 remote/src/jsonrpc.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..d59248c 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -2,7 +2,7 @@ use std::fmt;
 use std::str::FromStr;
 
 use serde::de::DeserializeOwned;
-use serde::Serialize;
+use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::{from_value, to_string, to_value, Value};
 
 pub type JsonCodingError = serde_json::Error;
@@ -198,11 +198,23 @@ impl fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Tells a null value from a missing one.
+fn present_value<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Response {
     jsonrpc: String,
     pub id: Id,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "present_value",
+        skip_serializing_if = "Option::is_none"
+    )]
     result: Option<Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     error: Option<Error>,
@@ -227,9 +239,9 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match self.error {
+            Some(ref error) => Err(error.clone()),
+            None => Ok(from_value(self.result.clone().unwrap_or_default())?),
         })
     }
 
-- 
2.43.0


From 14de554a38145822820955fa20318dc45d194765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 19/40] fix: every named key reads back from its description

---
 remote/src/keys.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..0719ec3 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,13 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 9b087b9ad73642382b08e71d6a5437b92f41537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 20/40] fix: moving in or choosing from a menu without entries
 no longer panics

---
 remote/src/connection.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..e8040f4 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -33,8 +33,8 @@ impl Menu {
         }
     }
 
-    fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+    fn selected_item(&self) -> Option<&str> {
+        self.entries.get(self.selected).map(|e| e.value.as_str())
     }
 }
 
@@ -197,7 +197,13 @@ impl Connection {
 
     pub fn menu_select(&mut self) {
         if let Some(menu) = self.state().menu {
-            let selected = menu.selected_item();
+            let selected = match menu.selected_item() {
+                Some(value) => value,
+                None => {
+                    log::warn!("menu_select without any entry");
+                    return;
+                }
+            };
             let id = self.request_id();
             let choice = if selected.is_empty() {
                 &menu.search
-- 
2.43.0


From ccf4bbf8b9cb04c593dad74c8fb236bc583bc108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 21/40] fix: undecodable data from the server is an error
 event, not a panic

---
 remote/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..37a288a 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -3,6 +3,7 @@ use crate::session::Session;
 use crate::transport::ServerStream;
 use async_channel::{unbounded, Receiver, Sender};
 use futures_lite::*;
+use serde::de::Error as _;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
@@ -37,8 +38,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(JsonCodingError::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
-- 
2.43.0


From 991e20f22ca09d33f0d38564c1ab627dfb5b1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 22/40] fix: a daemon listens where its session was asked for,
 not only in the default directory

---
 remote/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index e80371c..e75613a 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -43,7 +43,11 @@ pub fn find_bin() -> String {
 
 pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let bin = find_bin();
-    let session_arg = format!("--session={}", session.mode);
+    let session_arg = match &session.mode {
+        // the whole path, as a session may live outside of the default directory
+        ConnectionMode::Socket(path) => format!("--session={}", path.display()),
+        mode => format!("--session={}", mode),
+    };
     let args = vec!["--mode=server", &session_arg];
     let stderr = if std::env::var("CED_FWSTDERR") == Ok(String::from("1")) {
         log::debug!("forwarding stderr from daemon to client");
-- 
2.43.0


From 797c482ea00f8e91a5573b0dc5d424e02ad270ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 23/40] fix: session addresses that cannot be resolved are no
 longer fatal, and all IPv4 addresses are recognised

---
 remote/src/session.rs | 44 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..3a3d054 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -1,7 +1,7 @@
 use std::env;
 use std::fmt;
 use std::fs;
-use std::net::SocketAddr;
+use std::net::{SocketAddr, ToSocketAddrs};
 use std::path::PathBuf;
 use std::str::FromStr;
 
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
@@ -24,8 +24,14 @@ pub enum ConnectionMode {
 }
 
 impl ConnectionMode {
-    fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+    fn parse_tcp(s: &str) -> Option<SocketAddr> {
+        let caps = RE_ADDR.captures(s)?;
+        let address = caps.name("address").map_or("127.0.0.1", |m| m.as_str());
+        let port = caps.name("port")?.as_str().parse::<u16>().ok()?;
+        (address, port)
+            .to_socket_addrs()
+            .ok()?
+            .find(SocketAddr::is_ipv4)
     }
 }
 
@@ -44,19 +50,10 @@ impl FromStr for ConnectionMode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use self::ConnectionMode::*;
-        if let Some(caps) = RE_ADDR.captures(s) {
-            let address = caps
-                .name("address")
-                .map(|m| m.as_str())
-                .unwrap_or("127.0.0.1");
-            let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
-            Ok(Tcp(sock_addr))
-        } else {
-            Ok(Socket(s.into()))
-        }
+        Ok(match ConnectionMode::parse_tcp(s) {
+            Some(sock_addr) => Tcp(sock_addr),
+            None => Socket(s.into()),
+        })
     }
 }
 
@@ -73,16 +70,11 @@ impl Session {
     }
 
     pub fn from_name(name: &str) -> Session {
-        let session_name = if ConnectionMode::is_tcp(name) {
-            name.to_owned()
-        } else {
-            let mut session_path = Self::build_root();
-            session_path.push(name);
-            session_path.to_str().unwrap().to_owned()
+        let mode = match ConnectionMode::parse_tcp(name) {
+            Some(sock_addr) => ConnectionMode::Tcp(sock_addr),
+            None => ConnectionMode::Socket(Self::build_root().join(name)),
         };
-        Session {
-            mode: session_name.parse().unwrap(),
-        }
+        Session { mode }
     }
 
     pub fn from_pid() -> Session {
-- 
2.43.0


From 5d6770ceceea8c5a14eae747ec5ca138491ba452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 24/40] fix: standalone and JSON modes relay every message and
 survive quitting

Each event written by the JSON bridge ends its line and is flushed, the
standalone mode stops after the client quits instead of panicking on the
next request, opening more than a hundred files does not block it, and a
missing script is named in the error.
---
 core/src/clients.rs | 13 ++++++++++---
 core/src/script.rs  |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..1c60c9f 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -2,7 +2,7 @@ use std::io::BufRead;
 use std::thread;
 
 use crate::editor::Editor;
-use async_channel::{bounded, Sender};
+use async_channel::{unbounded, Sender};
 use async_executor::LocalExecutor;
 use blocking::Unblock;
 use futures_lite::*;
@@ -11,7 +11,7 @@ use remote::{protocol::requests::EditParams, Client, Request, Session};
 const CLIENT_ID: usize = 1;
 
 pub fn start_standalone(filenames: &[&str]) {
-    let (tx, rx) = bounded(100);
+    let (tx, rx) = unbounded();
     let mut editor = Editor::new("", tx);
 
     editor.add_client(CLIENT_ID);
@@ -41,6 +41,10 @@ pub fn start_standalone(filenames: &[&str]) {
             },
             Err(e) => eprintln!("failed to read line: {}", e),
         }
+        if !editor.removed_clients().is_empty() {
+            // the client quit
+            return;
+        }
     }
 
     editor.remove_client(CLIENT_ID);
@@ -80,7 +84,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
diff --git a/core/src/script.rs b/core/src/script.rs
index f8654f5..6df3529 100644
--- a/core/src/script.rs
+++ b/core/src/script.rs
@@ -21,7 +21,8 @@ pub fn exec_scripts(filenames: &[&str]) -> io::Result<()> {
             stdin.read_to_string(&mut buffer)?;
             buffer
         } else {
-            read_to_string(fname)?
+            read_to_string(fname)
+                .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", fname, e)))?
         };
         editor
             .exec_lua(fname, CLIENT_ID, |lua| lua.load(&source).exec())
-- 
2.43.0


From 63589fac5ef2b2db85e9af73aabe207fb01e9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 25/40] fix: short buffer names are the shortest and always
 exist

Only files that share the trailing parts taken so far matter for how many
more are needed, and paths that run out of parts are named in full.
---
 core/src/editor/buffer.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 5e0fb9f..03381ab 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -12,20 +12,23 @@ use crate::editor::view::Focus;
 use crate::editor::PieceTable;
 
 fn find_uniq_name(path: &Path, acc: &str, path_set: &[PathBuf]) -> String {
-    let head = path.parent().unwrap();
-    let tail = path.file_name().unwrap();
-    let matches = path_set
+    let (head, tail) = match (path.parent(), path.file_name()) {
+        (Some(head), Some(tail)) => (head, tail),
+        // nothing left to tell it apart from the others
+        _ => return path.join(acc).display().to_string(),
+    };
+    let matches: Vec<&PathBuf> = path_set
         .iter()
-        .filter(|x| x.file_name().map_or(false, |x| x.to_str().unwrap() == tail))
-        .count();
-    let mut new_acc = tail.to_str().unwrap().to_owned();
+        .filter(|x| x.file_name() == Some(tail))
+        .collect();
+    let mut new_acc = tail.to_string_lossy().into_owned();
     if !acc.is_empty() {
         new_acc.push('/');
         new_acc.push_str(acc);
     }
-    if matches > 1 {
+    if matches.len() > 1 {
         let mut new_path_set: Vec<PathBuf> = Vec::new();
-        for pb in path_set {
+        for pb in matches {
             let mut new_pb = PathBuf::from(pb);
             if new_pb.pop() {
                 new_path_set.push(new_pb);
@@ -50,8 +53,11 @@ fn find_shortest_name(sources: &[BufferSource], idx: usize) -> String {
         BufferSource::File(ref path) => {
             let mut path_set: Vec<PathBuf> = Vec::new();
             for s in sources {
-                if let BufferSource::File(ref path) = *s {
-                    path_set.push(path.clone());
+                match *s {
+                    BufferSource::File(ref path) if !path_set.contains(path) => {
+                        path_set.push(path.clone())
+                    }
+                    _ => {}
                 }
             }
             find_uniq_name(path, "", &path_set)
-- 
2.43.0


From b7dd6d9534ccacf9e305800e6bb458d32ba5017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 26/40] fix: a request that is not valid UTF-8 is refused
 instead of dropping its client

---
 core/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index b4018e9..2ba6a7d 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -155,15 +155,17 @@ impl Server {
         stream: ServerStream,
         sender: Sender<Event>,
     ) -> io::Result<()> {
-        let mut lines = io::BufReader::new(stream).lines();
+        let mut lines = io::BufReader::new(stream).split(b'\n');
         while let Some(line) = lines.next().await {
-            if line.is_err() {
+            let line = match line {
+                // an undecodable line is answered as any malformed request
+                Ok(bytes) => String::from_utf8_lossy(&bytes).into_owned(),
                 // connection reset
-                break;
-            }
+                Err(_) => break,
+            };
             log::trace!("read event for {}: {:?}", client_id, line);
             sender
-                .send(Event::Message((client_id, line.unwrap())))
+                .send(Event::Message((client_id, line)))
                 .await
                 .unwrap_or_else(|e| log::error!("{}", e));
         }
-- 
2.43.0


From 99e8c5dcc5fec545db8630dc35a34a235c10ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 27/40] fix: the C interface hands over every event and never
 aborts its host

Hints are events too, menu entries and the lines of lenses can be iterated,
undecodable messages and refused connections are errors instead of panics,
responses are skipped, null characters are replaced, and an error stays
pending until its message fits the given buffer.
---
 core/src/tui.rs              |  6 +++++-
 remote-ffi/ffigen.toml       | 14 +++++++++++++-
 remote-ffi/src/connection.rs | 25 ++++++++++++++++++------
 remote-ffi/src/event.rs      | 14 +++++++++++---
 remote-ffi/src/lib.rs        | 37 ++++++++++++++++++++++--------------
 remote-ffi/src/text.rs       |  7 +++++++
 remote/src/connection.rs     | 10 +++++-----
 7 files changed, 83 insertions(+), 30 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..8139fa3 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -132,7 +132,11 @@ impl Term {
             })
             .detach();
 
-            let (mut messages, request_loop) = self.connection.connect().await;
+            let (mut messages, request_loop) = self
+                .connection
+                .connect()
+                .await
+                .expect("connect to the session");
             ex.spawn(request_loop).detach();
             let messages_tx = tx.clone();
             ex.spawn(async move {
diff --git a/remote-ffi/ffigen.toml b/remote-ffi/ffigen.toml
index 96abe35..e2b8f82 100644
--- a/remote-ffi/ffigen.toml
+++ b/remote-ffi/ffigen.toml
@@ -17,6 +17,12 @@ iterator = true
 [[structure]]
 symbol = "CedVersion"
 
+[[structure]]
+symbol = "MenuItem"
+module = "crate::event"
+[structure.functions]
+iterator = true
+
 [[structure]]
 symbol = "StatusItem"
 module = "crate::event"
@@ -33,4 +39,10 @@ iterator = true
 symbol = "ViewLens"
 module = "crate::event"
 [structure.functions]
-iterator = true
\ No newline at end of file
+iterator = true
+
+[[structure]]
+symbol = "ViewLensLine"
+module = "crate::event"
+[structure.functions]
+iterator = true
diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..61808b1 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -26,7 +26,13 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
     }
 
     let connection = Connection::new(session);
-    let (events, request_loop) = future::block_on(connection.connect());
+    let (events, request_loop) = match future::block_on(connection.connect()) {
+        Ok(connected) => connected,
+        Err(err) => {
+            set_last_error(err);
+            return ptr::null_mut();
+        }
+    };
     std::thread::spawn(|| future::block_on(request_loop));
     let (tx, rx) = mpsc::channel();
     std::thread::spawn(move || {
@@ -60,11 +66,18 @@ pub unsafe extern "C" fn ced_connection_next_event<'a>(p: *mut CedConnection) ->
     //         ptr::null_mut()
     //     }
     // }
-    if let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
+    while let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
         println!("<-- {:?}", ev);
-        Box::into_raw(Box::new(CedEvent::from(ev)))
-    } else {
-        println!("<-- None");
-        ptr::null_mut()
+        match ev {
+            // nothing to hand over
+            ConnectionEvent::Noop => continue,
+            ConnectionEvent::ConnErr(err) => {
+                set_last_error(err);
+                return ptr::null_mut();
+            }
+            ev => return Box::into_raw(Box::new(CedEvent::from(ev))),
+        }
     }
+    println!("<-- None");
+    ptr::null_mut()
 }
diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..6b675fd 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -32,6 +32,9 @@ pub enum CedEvent {
     View {
         items: *mut ViewIterator,
     },
+    Hint {
+        lines: *mut ViewLensLineIterator,
+    },
 }
 
 impl From<ConnectionEvent> for CedEvent {
@@ -40,7 +43,9 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
+            ConnectionEvent::Hint(hint) => CedEvent::Hint {
+                lines: raw!(ViewLensLineIterator::from(&hint.text)),
+            },
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,8 +63,9 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
+            ConnectionEvent::ConnErr(_) | ConnectionEvent::Noop => {
+                unreachable!("not an event for the other side")
+            }
         }
     }
 }
@@ -143,4 +149,6 @@ impl From<ViewParamsLens> for ViewLens {
 
 pub type ViewLensIterator = IndexedIterator<ViewParamsLens, ViewLens>;
 
+pub type ViewLensLine = CedTextIterator;
+
 pub type ViewLensLineIterator = IndexedIterator<Text, CedTextIterator>;
diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..94428db 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -5,6 +5,7 @@ mod text;
 
 use std::cell::RefCell;
 use std::error::Error;
+use std::ffi::CString;
 use std::marker::PhantomData;
 use std::os::raw::{c_char, c_int};
 use std::ptr;
@@ -20,12 +21,16 @@ macro_rules! raw {
 #[macro_export]
 macro_rules! cstring {
     ($e:expr) => {
-        std::ffi::CString::new($e)
-            .expect("failed to encode string")
-            .into_raw()
+        $crate::encode_string($e).into_raw()
     };
 }
 
+/// A C string cannot contain the null character.
+fn encode_string(text: impl Into<String>) -> CString {
+    let text = text.into().replace('\0', "\u{fffd}");
+    CString::new(text).expect("failed to encode string")
+}
+
 pub struct IndexedIterator<T, U> {
     items: Vec<T>,
     next_idx: usize,
@@ -81,38 +86,42 @@ fn set_last_error<E: Into<Box<dyn Error>> + 'static>(err: E) {
     });
 }
 
-fn take_last_error() -> Option<Box<dyn Error>> {
-    LAST_ERROR.with(|last| last.borrow_mut().take())
+fn last_error_message() -> Option<String> {
+    LAST_ERROR.with(|last| last.borrow().as_ref().map(|err| err.to_string()))
+}
+
+fn clear_last_error() {
+    LAST_ERROR.with(|last| *last.borrow_mut() = None);
 }
 
 /// Length of the last error message. Useful for last_error_message.
 /// If no error is pending the length will be -1.
 #[no_mangle]
 pub unsafe extern "C" fn ced_last_error_length() -> c_int {
-    LAST_ERROR.with(|last| match last.borrow().as_ref() {
-        Some(ref e) => e.to_string().len() as c_int,
+    match last_error_message() {
+        Some(message) => message.len() as c_int,
         None => -1,
-    })
+    }
 }
 
 /// Copy the last error message to the buffer, see last_error_length to get the length of the
 /// message. It returns the length of the message if the copy succeed, -1 if the buffer was a
-/// nullptr and -2 if the buffer was too small.
+/// nullptr and -2 if the buffer was too small, in which case the error stays pending.
 #[no_mangle]
 pub unsafe extern "C" fn ced_last_error_message(buffer: *mut c_char, length: c_int) -> c_int {
     if buffer.is_null() {
         return -1;
     }
-    let last_error = match take_last_error() {
-        Some(err) => err,
+    let message = match last_error_message() {
+        Some(message) => message,
         None => return 0,
     };
 
-    let message = last_error.to_string();
-    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
-    if message.len() >= buffer.len() {
+    if length < 0 || message.len() >= length as usize {
         return -2;
     }
+    clear_last_error();
+    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
     ptr::copy_nonoverlapping(message.as_ptr(), buffer.as_mut_ptr(), message.len());
     buffer[message.len()] = 0;
 
diff --git a/remote-ffi/src/text.rs b/remote-ffi/src/text.rs
index e7e926d..2ab504b 100644
--- a/remote-ffi/src/text.rs
+++ b/remote-ffi/src/text.rs
@@ -4,6 +4,7 @@ use crate::cstring;
 use crate::IndexedIterator;
 use remote::protocol::{Text, TextFragment};
 
+#[repr(C)]
 pub struct CedTextItem {
     pub text: *const c_char,
     pub face: *const c_char,
@@ -20,6 +21,12 @@ impl From<TextFragment> for CedTextItem {
 
 pub type CedTextIterator = IndexedIterator<TextFragment, CedTextItem>;
 
+impl From<Text> for CedTextIterator {
+    fn from(text: Text) -> CedTextIterator {
+        CedTextIterator::from(&text)
+    }
+}
+
 impl From<&Text> for CedTextIterator {
     fn from(text: &Text) -> CedTextIterator {
         CedTextIterator::from(
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index e8040f4..09290f5 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -147,13 +147,13 @@ impl Connection {
 
     pub async fn connect(
         &self,
-    ) -> (
+    ) -> io::Result<(
         ConnectionEventStream<impl FnMut(ClientEventResult) -> ConnectionEvent>,
         impl Future<Output = ()>,
-    ) {
+    )> {
         let ctx_lock = self.state_lock.clone();
-        let (events, request_loop) = self.client.run().await.unwrap();
-        (
+        let (events, request_loop) = self.client.run().await?;
+        Ok((
             events.map(move |ev| match ev {
                 Ok(e) => {
                     let mut ctx = ctx_lock.write().unwrap();
@@ -162,7 +162,7 @@ impl Connection {
                 Err(e) => ConnectionEvent::ConnErr(e.to_string()),
             }),
             request_loop,
-        )
+        ))
     }
 
     fn request_id(&mut self) -> Id {
-- 
2.43.0


From 2de7420bac0da7bf9330cb024907c2f51f7c2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 28/40] fix: the terminal client draws any content in any
 window

Rows are cut and padded by characters instead of bytes, sizes never
underflow, a view item starting on the last row no longer scrolls the
screen, and error messages reach the server quoted.
---
 core/src/tui.rs | 123 ++++++++++++++++++++++++++----------------------
 1 file changed, 68 insertions(+), 55 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 8139fa3..ea43fa4 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -2,6 +2,7 @@ use std::io::{self, Write};
 
 use async_channel::bounded;
 use async_executor::LocalExecutor;
+use bstr::ByteSlice;
 use crossterm::{
     cursor,
     event::{Event as CEvent, EventStream, KeyCode as CKeyCode, KeyModifiers as CKeyModifiers},
@@ -11,21 +12,15 @@ use crossterm::{
     Result as CTResult,
 };
 use futures_lite::*;
-use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, TextFragment};
+use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
 fn logline(msg: impl std::fmt::Display) {
     use std::fs::OpenOptions;
 
-    let mut file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("log.txt")
-        .expect("open file");
-
-    if let Err(e) = writeln!(file, "{}", msg) {
-        eprintln!("Couldn't write to file: {}", e);
-    }
+    // a log which cannot be written is not worth disturbing the display
+    let file = OpenOptions::new().create(true).append(true).open("log.txt");
+    let _ = file.and_then(|mut f| writeln!(f, "{}", msg));
 }
 
 struct ToKey(Option<KeyEvent>);
@@ -68,6 +63,35 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+fn width_of(text: &str) -> usize {
+    text.as_bytes().graphemes().count()
+}
+
+fn cut(text: &str, width: usize) -> String {
+    text.as_bytes().graphemes().take(width).collect()
+}
+
+/// Renders what fits in `width` columns.
+fn render_cut<F>(text: &Text, width: usize, format: F) -> String
+where
+    F: Fn(&TextFragment) -> String,
+{
+    let mut rendered = String::new();
+    let mut left = width;
+    for tf in text.iter() {
+        let visible = cut(&tf.text, left);
+        if visible.is_empty() {
+            continue;
+        }
+        left -= width_of(&visible);
+        rendered += &format(&TextFragment {
+            text: visible,
+            face: tf.face.clone(),
+        });
+    }
+    rendered
+}
+
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
@@ -124,7 +148,7 @@ impl Term {
                             tx.send(Event::Resize((w, h))).await.expect("send event")
                         }
                         Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
+                            .send(Event::Error(format!("event read: {}", e)))
                             .await
                             .expect("send event"),
                     }
@@ -183,7 +207,8 @@ impl Term {
     }
 
     fn error(&mut self, message: &str) {
-        self.connection.exec(&format!("editor:error({})", message));
+        self.connection
+            .exec(&format!("editor:error({:?})", message));
     }
 
     fn draw_view(&mut self) -> CTResult<()> {
@@ -194,25 +219,22 @@ impl Term {
         queue!(stdout, Clear(ClearType::All))?;
         let mut i = 0;
         let mut content = Vec::new();
+        let width = width as usize;
         'outer: for item in &state.view {
-            let buffer = &item.buffer;
-            let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
-            content.push(format!("-[{}][{}]{}", buffer, coords, padding));
+            if i + 1 >= height {
+                break 'outer;
+            }
+            let title = format!("-[{}][{}:{}]", item.buffer, item.start, item.end);
+            let padding = "-".repeat(width.saturating_sub(width_of(&title)));
+            content.push(cut(&title, width) + &padding);
             i += 1;
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if i + 1 >= height {
                         break 'outer;
                     }
-                    let rendered = line.render(format_text);
-                    let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
-                    } else {
-                        &rendered
-                    };
-                    content.push(line_view.to_string());
+                    content.push(render_cut(line, width, format_text));
                     i += 1;
                 }
             }
@@ -228,21 +250,17 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
-        let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
-        for line in &hint.text {
-            // TODO clamp to screen size (or less?)
-            let text = line.render(format_text);
+        let width_h = hint.text.iter().map(|l| width_of(&l.plain())).max();
+        let x = (width_w as usize).saturating_sub(width_h.unwrap_or(0)) as u16;
+        let mut y = (height_w as usize).saturating_sub(hint.text.len()) as u16;
+        for line in hint.text.iter().take(height_w as usize) {
+            let text = render_cut(line, width_w as usize, format_text);
             queue!(
                 stdout,
                 cursor::MoveTo(x, y),
                 PrintStyledContent(style(text).reverse())
             )?;
             y += 1;
-            if y == height_w {
-                break;
-            }
         }
 
         stdout.flush()?;
@@ -252,8 +270,9 @@ impl Term {
     fn draw_menu(&mut self, menu: &Menu) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
-        let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let width = width as usize;
+        let title = cut(&format!("{}:{}", menu.title, menu.search), width);
+        let padding = " ".repeat(width - width_of(&title));
 
         queue!(
             stdout,
@@ -262,21 +281,15 @@ impl Term {
             PrintStyledContent(style(title + &padding).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1) as usize;
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
                 }
-                let item = &menu.entries[i].text.render(|tf| match tf.face {
+                let item_view = render_cut(&menu.entries[i].text, width, |tf| match tf.face {
                     Face::Match => style(&tf.text).underlined().to_string(),
                     _ => tf.text.to_owned(),
                 });
-
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
-                } else {
-                    &item
-                };
                 let item_print = if i == menu.selected {
                     PrintStyledContent(style(item_view).reverse())
                 } else {
@@ -306,19 +319,19 @@ impl Term {
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
             .join("·");
-        let text = if echo.text_len() >= width as usize {
-            echo.render(format_text)
-        } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+        let width = width as usize;
+        let echo_width = width_of(&echo.plain());
+        let status_width = width_of(&status);
+        let echo_view = render_cut(&echo, width, format_text);
+        let text = if echo_width >= width {
+            echo_view
+        } else if echo_width + status_width >= width {
+            let skip = echo_width + status_width + 1 - width;
+            let end: String = status.as_bytes().graphemes().skip(skip).collect();
+            format!("{} {}", echo_view, end)
         } else {
-            let padding = width as usize - echo.text_len() - status.len();
-            format!(
-                "{}{}{}",
-                echo.render(format_text),
-                " ".repeat(padding),
-                status
-            )
+            let padding = width - echo_width - status_width;
+            format!("{}{}{}", echo_view, " ".repeat(padding), status)
         };
         queue!(
             stdout,
-- 
2.43.0


From 3c1b7d6e3d1e3799ee42e2b078c7b4cccdee5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 29/40] fix: a client's status line always shows that client's
 identity

---
 core/scripts/editor.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/scripts/editor.lua b/core/scripts/editor.lua
index 58c0c39..f556f05 100644
--- a/core/scripts/editor.lua
+++ b/core/scripts/editor.lua
@@ -120,7 +120,7 @@ function Editor:add_client(client_id)
             client = {
                 index = 100,
                 text = function()
-                    return "[" .. env.client .. "@" .. env.session .. "]"
+                    return "[" .. client_id .. "@" .. env.session .. "]"
                 end,
             },
         },
-- 
2.43.0


From 3bb42d1ee022d106616416f2c4f4e3c4fd019630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 30/40] fix: a wanted column made void by an edit does not move
 the cursor at borders

---
 core/src/editor/buffer.rs | 8 ++++++++
 core/src/editor/core.rs   | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 03381ab..ce65cae 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -182,6 +182,14 @@ impl Buffer {
         sel.clamp_to(self.content.max_offset());
         sel.anchor = begin_of(sel.anchor);
         sel.cursor = begin_of(sel.cursor);
+        // a wanted column which would not lead to where the cursor is now is void
+        if let Some(coords) = self.content.offset_to_coord(sel.cursor) {
+            let mut nv = self.content.navigate(coords).unwrap();
+            nv.target_col = sel.target_col;
+            if nv.pos().coords != coords {
+                sel.target_col = coords.c;
+            }
+        }
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 3a9bacd..e9b5116 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -256,8 +256,10 @@ impl Core {
     fn append_to(&mut self, buffer: &str, text: String) {
         if !self.buffer_exists(buffer) {
             self.open_scratch(buffer, text);
-        } else if let Some(buf) = lock!(self).buffers.get_mut(buffer) {
-            buf.append(text);
+        } else {
+            let mut state = lock!(self);
+            state.buffers.get_mut(buffer).unwrap().append(text);
+            Self::fit_selections(&mut state, buffer);
         }
         self.notify_view_update(self.clients_with_buffer(buffer));
     }
-- 
2.43.0


From 676c081207771e5f7b5082eab823bdc5ae1716ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 31/40] fix: views of buffers with braces in their names are
 not mistaken for others

---
 core/src/editor/view.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 643b678..cfb7234 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -126,7 +126,9 @@ impl View {
                 .iter()
                 .map(|lens| lens.focus.to_string())
                 .collect::<Vec<String>>();
-            parts.push(format!("{}{{{}}}", buffer, coords.join(",")));
+            // keys of different views differ whatever the buffer names
+            let name = buffer.replace('\\', "\\\\").replace('{', "\\{");
+            parts.push(format!("{}{{{}}}", name, coords.join(",")));
         }
         parts.join("|")
     }
-- 
2.43.0


From aa88257fdd5af5c232d2ec7713c04b02b3c35b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 32/40] fix: a client which stops reading does not freeze the
 server anymore

---
 core/src/server.rs | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 2ba6a7d..203bc68 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -58,18 +58,35 @@ impl Server {
         Server { session }
     }
 
-    fn write_client<T>(client_id: usize, stream: &mut ServerStream, message: &T) -> io::Result<()>
+    fn write_client<T>(client_id: usize, outbox: &Sender<String>, message: &T)
     where
         T: fmt::Display,
     {
         log::trace!("-> ({}) {}", client_id, message);
-        future::block_on(stream.write_all(format!("{}\n", message).as_bytes()))
+        let res = outbox.try_send(format!("{}\n", message));
+        if let Err(e) = res {
+            log::error!("{}", e);
+        }
+    }
+
+    /// Sends what is in the outbox of a client, at the pace of this client.
+    async fn flush_client(
+        mut stream: ServerStream,
+        outbox: Receiver<String>,
+        _flushing: Sender<()>,
+    ) {
+        while let Ok(line) = outbox.recv().await {
+            if let Err(e) = stream.write_all(line.as_bytes()).await {
+                log::error!("{}", e);
+            }
+        }
     }
 
     async fn handle_events(ex: Arc<LocalExecutor<'_>>, session: String, receiver: Receiver<Event>) {
         let (bsender, breceiver) = unbounded();
         let mut editor = Editor::new(&session, bsender);
-        let clients = Arc::new(RwLock::new(HashMap::<usize, ServerStream>::new()));
+        let clients = Arc::new(RwLock::new(HashMap::<usize, Sender<String>>::new()));
+        let (flushing, flushed) = unbounded();
 
         let bclients = Arc::clone(&clients);
         log::trace!("spawning broadcast handler task");
@@ -77,13 +94,10 @@ impl Server {
             log::trace!("spawned broadcast handler task");
             while let Ok(bm) = breceiver.recv().await {
                 log::trace!("broadcast event: {:?}", bm);
-                let mut index = bclients.write().expect("lock client index");
-                for (client_id, stream) in index.iter_mut() {
+                let index = bclients.read().expect("lock client index");
+                for (client_id, outbox) in index.iter() {
                     if bm.should_notify(*client_id) {
-                        let res = Self::write_client(*client_id, stream, &bm.message);
-                        if let Err(e) = res {
-                            log::error!("{}", e);
-                        }
+                        Self::write_client(*client_id, outbox, &bm.message);
                     }
                 }
             }
@@ -96,10 +110,13 @@ impl Server {
             let mut is_leave_event = false;
             match event {
                 Event::Join((client_id, stream)) => {
+                    let (outbox, messages) = unbounded();
                     clients
                         .write()
                         .expect("lock client index")
-                        .insert(client_id, stream);
+                        .insert(client_id, outbox);
+                    ex.spawn(Self::flush_client(stream, messages, flushing.clone()))
+                        .detach();
                     log::info!("client {} connected", client_id);
                     // TODO check if ping or real client
                     editor.add_client(client_id);
@@ -125,12 +142,8 @@ impl Server {
                     }
                     match editor.handle(client_id, &raw) {
                         Ok(message) => {
-                            let mut index = clients.write().expect("lock client index");
-                            let stream = index.get_mut(&client_id).unwrap();
-                            let res = Self::write_client(client_id, stream, &message);
-                            if let Err(e) = res {
-                                log::error!("{}", e);
-                            }
+                            let index = clients.read().expect("lock client index");
+                            Self::write_client(client_id, &index[&client_id], &message);
                         }
                         Err(e) => log::error!("{}: {:?}", e, raw),
                     }
@@ -148,6 +161,9 @@ impl Server {
                 break;
             }
         }
+        // let the clients which are gone get their last messages
+        drop(flushing);
+        let _ = flushed.recv().await;
     }
 
     async fn read_client(
-- 
2.43.0


From 42bdb471d6ab18395a66ef73d08263bc8440e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 33/40] hook: client readers can be run by the harness

---
 core/src/server.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 203bc68..34183e1 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -258,13 +258,13 @@ pub mod verif {
             self.0.try_send(Event::Join((client_id, stream))).unwrap();
         }
 
-        pub fn message(&self, client_id: usize, line: &str) {
-            let event = Event::Message((client_id, line.to_owned()));
-            self.0.try_send(event).unwrap();
-        }
-
-        pub fn leave(&self, client_id: usize) {
-            self.0.try_send(Event::Leave(client_id)).unwrap();
+        /// Reads the lines of a client and queues them as events.
+        pub fn reader(
+            &self,
+            client_id: usize,
+            stream: ServerStream,
+        ) -> impl Future<Output = io::Result<()>> {
+            Server::read_client(client_id, stream, self.0.clone())
         }
     }
 
-- 
2.43.0


From 4089baca809902c4cbb87c496abbdcf5db36912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 34/40] fix: a second server for a session does not remove the
 socket of the first

---
 core/src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 34183e1..1d904ad 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -195,11 +195,10 @@ impl Server {
 
     async fn serve(
         ex: Arc<LocalExecutor<'_>>,
-        session: Session,
+        listener: ServerListener,
         sender: Sender<Event>,
     ) -> io::Result<()> {
         let mut next_client_id = FIRST_CLIENT_ID;
-        let listener = ServerListener::bind(&session).await?;
         let mut incoming = listener.incoming();
         // notify readiness to a potential awaiting client
         println!();
@@ -226,9 +225,10 @@ impl Server {
         let ex = Arc::new(LocalExecutor::new());
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
+            // the address might be the one of a running session, leave it alone then
+            let listener = ServerListener::bind(&self.session).await?;
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender))
-                .detach();
+            ex.spawn(Self::serve(ex.clone(), listener, sender)).detach();
             Self::handle_events(ex.clone(), self.session.to_string(), receiver).await;
 
             log::info!("no more client, exiting...");
-- 
2.43.0


From 738d73914cd775f9e9b66d098d79bd312906491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 35/40] fix: a server that could not start is not reported as
 started

---
 remote/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index e75613a..b4c4ba5 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -64,10 +64,14 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let pid = prg.id();
 
     //  Once ready to accept connections the server send an empty line on stdout.
+    let mut is_ready = false;
     if let Some(stdout) = prg.stdout {
         for line in BufReader::new(stdout).lines() {
             let should_stop = match line {
-                Ok(l) => l.is_empty(),
+                Ok(l) => {
+                    is_ready = l.is_empty();
+                    is_ready
+                }
                 Err(err) => {
                     log::error!("failed to read stdout: {}", err);
                     true
@@ -82,13 +86,24 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     }
 
     log::info!("server command: {} {:?}", bin, args);
+    if !is_ready {
+        return Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("could not start a server for session {}", session),
+        ));
+    }
     Ok(pid)
 }
 
 pub fn ensure_session(session: &Session) -> io::Result<()> {
     if let ConnectionMode::Socket(path) = &session.mode {
         if !path.exists() {
-            start_daemon(&session)?;
+            if let Err(err) = start_daemon(&session) {
+                // another client might have started it in the meantime
+                if !path.exists() {
+                    return Err(err);
+                }
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 1c30a068784dbabba1aab2c517110f07469ac480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 36/40] fix: standalone mode writes its last notifications
 whole before it ends

---
 core/src/clients.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 1c60c9f..4d5f73c 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -24,8 +24,8 @@ pub fn start_standalone(filenames: &[&str]) {
             .command_edit(CLIENT_ID, &params)
             .map_err(|err| log::error!("could not open file '{}': {}", fname, err));
     }
-    thread::spawn(move || loop {
-        if let Ok(bm) = future::block_on(rx.recv()) {
+    let printer = thread::spawn(move || {
+        while let Ok(bm) = future::block_on(rx.recv()) {
             if bm.should_notify(CLIENT_ID) {
                 println!("{}", &bm.message);
             }
@@ -43,11 +43,14 @@ pub fn start_standalone(filenames: &[&str]) {
         }
         if !editor.removed_clients().is_empty() {
             // the client quit
-            return;
+            break;
         }
     }
 
     editor.remove_client(CLIENT_ID);
+    // let the last notifications go out whole
+    drop(editor);
+    let _ = printer.join();
 }
 
 pub struct StdioClient {
-- 
2.43.0


From 00cd35e4572931b4f0f28f608c2d1de3b4a06a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 37/40] fix: a menu entry as wide as the window keeps its last
 character

---
 core/src/tui.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index ea43fa4..e38284e 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -298,8 +298,8 @@ impl Term {
                 queue!(
                     stdout,
                     cursor::MoveTo(0, 1 + i as u16),
-                    item_print,
-                    Clear(ClearType::UntilNewLine)
+                    Clear(ClearType::UntilNewLine),
+                    item_print
                 )?;
             }
         }
-- 
2.43.0


From a39125337e96dacdfa701dc3484953f29beac6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 38/40] fix: the terminal client ends well when a key is typed
 as its server ends

---
 core/src/tui.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index e38284e..9762432 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -139,18 +139,15 @@ impl Term {
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
                     logline(format!("new input: {:?}", event));
-                    match event {
-                        Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
-                        }
-                        Ok(CEvent::Mouse(_)) => {}
-                        Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
-                        }
-                        Err(e) => tx
-                            .send(Event::Error(format!("event read: {}", e)))
-                            .await
-                            .expect("send event"),
+                    let sent = match event {
+                        Ok(ev @ CEvent::Key(_)) => tx.send(Event::Input(ev)).await,
+                        Ok(CEvent::Mouse(_)) => Ok(()),
+                        Ok(CEvent::Resize(w, h)) => tx.send(Event::Resize((w, h))).await,
+                        Err(e) => tx.send(Event::Error(format!("event read: {}", e))).await,
+                    };
+                    if sent.is_err() {
+                        // the connection was lost meanwhile
+                        break;
                     }
                 }
             })
-- 
2.43.0


From ac8f3921756654c8ceb95955e6045e4917950663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 39/40] hooks: separate guards for the editor and the server,
 only the items in use

---
 core/src/editor/mod.rs             | 8 +++-----
 core/src/editor/piece_table/mod.rs | 2 +-
 core/src/server.rs                 | 4 ++--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 013cda5..48fc5e8 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -8,13 +8,11 @@ mod range;
 mod selection;
 pub mod view;
 
-/// Private items a verification harness needs (only with `--cfg ced_verif`).
-#[cfg(ced_verif)]
+/// Private items a verification harness needs (only with `--cfg 'ced_verif="editor"'`).
+#[cfg(ced_verif = "editor")]
 pub mod verif {
-    pub use super::diff::{diff, Diff};
-    pub use super::piece_table::{Coords, Navigator, PieceTable, PositionIterator};
+    pub use super::piece_table::{Coords, PieceTable};
     pub use super::range::OffsetRange;
-    pub use super::selection::Selection;
 }
 
 use std::collections::{HashMap, HashSet};
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 12a4dac..eaff2f2 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -641,7 +641,7 @@ impl PieceTable {
     }
 }
 
-#[cfg(ced_verif)]
+#[cfg(ced_verif = "editor")]
 impl PieceTable {
     pub fn verif_undo(&mut self) -> bool {
         self.undo()
diff --git a/core/src/server.rs b/core/src/server.rs
index 1d904ad..13cc315 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -246,8 +246,8 @@ impl Server {
 }
 
 /// Runs the client event loop on a caller-controlled executor and event queue (only with
-/// `--cfg ced_verif`).
-#[cfg(ced_verif)]
+/// `--cfg 'ced_verif="server"'`).
+#[cfg(ced_verif = "server")]
 pub mod verif {
     use super::*;
 
-- 
2.43.0


From ef49f894e74bbfc04216d5f60d01f917836aec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:57 +0000
Subject: [PATCH 40/40] fix: the JSON bridge could lose what it read or printed
 last

The pipe within blocking::Unblock reports its end when it is closed right
after something was written to it, between two looks of its reader: requests
followed by the end of standard input were lost now and then.  Lines are now
read as items, and each message is printed by a task of its own.
---
 core/src/clients.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 4d5f73c..9aec1cd 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -1,10 +1,10 @@
-use std::io::BufRead;
+use std::io::{BufRead, Write};
 use std::thread;
 
 use crate::editor::Editor;
 use async_channel::{unbounded, Sender};
 use async_executor::LocalExecutor;
-use blocking::Unblock;
+use blocking::{unblock, Unblock};
 use futures_lite::*;
 use remote::{protocol::requests::EditParams, Client, Request, Session};
 
@@ -67,11 +67,11 @@ impl StdioClient {
     pub fn run(&self) -> io::Result<()> {
         let ex = LocalExecutor::new();
         future::block_on(ex.run(async {
-            let stdin = Unblock::new(std::io::stdin());
-            let mut stdout = Unblock::new(std::io::stdout());
+            // whole lines, as the bytes read last may be lost by `Unblock`
+            let stdin = std::io::BufReader::new(std::io::stdin());
+            let mut lines = Unblock::new(stdin.lines());
             let requests_tx = self.requests.clone();
             ex.spawn(async move {
-                let mut lines = io::BufReader::new(stdin).lines();
                 while let Some(maybe_line) = lines.next().await {
                     match maybe_line {
                         Ok(line) => match line.parse() {
@@ -88,8 +88,13 @@ impl StdioClient {
             while let Some(event) = events.next().await {
                 match event {
                     Ok(msg) => {
-                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
-                        stdout.flush().await?;
+                        let line = format!("{}\n", msg);
+                        unblock(move || {
+                            let mut stdout = std::io::stdout();
+                            stdout.write_all(line.as_bytes())?;
+                            stdout.flush()
+                        })
+                        .await?;
                     }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
-- 
2.43.0

