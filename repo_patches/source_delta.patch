From e7693bcf6b8bd56e8584fef603119635083d1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 01/33] fix: diff drops edits that touch one end of the text or
 leave one byte over

---
 core/src/editor/diff.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..1ab5446 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,7 +7,7 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
+fn precompute(b1: &[u8], b2: &[u8]) -> (usize, usize) {
     let l1 = b1.len();
     let l2 = b2.len();
 
@@ -21,16 +21,15 @@ fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
 }
 
 fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
     let el = left.len();
     let er = right.len();
+    if el == 0 || er == 0 {
+        return Vec::new();
+    }
 
     let mut mt = vec![0; el * er];
     for i in 0..el {
@@ -83,15 +82,10 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     let bright = right.as_bytes();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(bleft, bright);
     if start > 0 {
         diffs.push(Diff::Both(start));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
 
     let l = &bleft[start..bleft.len() - end];
     let r = &bright[start..bright.len() - end];
@@ -136,10 +130,10 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
+    if i < l.len() {
         diffs.push(Diff::Left(l.len() - i));
     }
-    if j < r.len() - 1 {
+    if j < r.len() {
         diffs.push(Diff::Right(r.len() - j));
     }
 
-- 
2.43.0


From a2c525aba9977c0e8837435a52cf28eee0fce0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 02/33] fix: empty text leaves zero-length pieces in the piece
 table

---
 core/src/editor/piece_table/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..5add9fb 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -179,12 +179,14 @@ impl PieceTable {
     pub fn with_text(text: String) -> PieceTable {
         let mut pieces = RBTreeSet::new();
         let newlines = text.match_indices('\n').map(|(i, _)| i).collect();
-        pieces.insert(Piece {
-            offset: 0,
-            start: 0,
-            length: text.len(),
-            original: true,
-        });
+        if !text.is_empty() {
+            pieces.insert(Piece {
+                offset: 0,
+                start: 0,
+                length: text.len(),
+                original: true,
+            });
+        }
         PieceTable {
             original: text.into_bytes(),
             added: Vec::new(),
@@ -486,6 +488,9 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
@@ -514,6 +519,9 @@ impl PieceTable {
     }
 
     pub fn insert(&mut self, offset: usize, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
-- 
2.43.0


From 099f3d574e2a5fc2e0085a4c843679411dff87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/33] fix: deleting whole pieces corrupts the offsets of the
 following ones

---
 core/src/editor/piece_table/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 5add9fb..0f3e935 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -556,6 +556,9 @@ impl PieceTable {
     }
 
     pub fn delete(&mut self, range: &dyn Range) {
+        if range.len() == 0 {
+            return;
+        }
         self.action(Action::Delete);
 
         // special case: deleting exactly the whole content
@@ -585,9 +588,9 @@ impl PieceTable {
             }
             if let Some(ln) = last_node {
                 self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+            } else if let Some(next_node) = self.pieces.get_node(&Piece::offset(range.end())) {
+                next_node.apply(|n| n.offset -= range.len());
+                self.shift_offset_after(&next_node, -(range.len() as i64));
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From 62855bce07d1b344def2a369c2e9f185e2dfed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 04/33] fix: undo and redo leave the newline index of the other
 text

---
 core/src/editor/piece_table/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 0f3e935..9ac468d 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -171,8 +171,8 @@ pub struct PieceTable {
     pieces: RBTreeSet<Piece>,
     newlines: BTreeSet<usize>,
     last_action: Option<Action>,
-    undos: Vec<RBTreeSet<Piece>>,
-    redos: Vec<RBTreeSet<Piece>>,
+    undos: Vec<(RBTreeSet<Piece>, BTreeSet<usize>)>,
+    redos: Vec<(RBTreeSet<Piece>, BTreeSet<usize>)>,
 }
 
 impl PieceTable {
@@ -220,7 +220,7 @@ impl PieceTable {
 
     fn commit(&mut self) {
         self.pieces.repack();
-        self.undos.push(self.pieces.clone());
+        self.undos.push((self.pieces.clone(), self.newlines.clone()));
         self.redos.clear();
         self.last_action = None;
     }
@@ -244,9 +244,11 @@ impl PieceTable {
     }
 
     fn undo(&mut self) -> bool {
-        if let Some(pieces) = self.undos.pop() {
-            self.redos.push(self.pieces.clone());
+        if let Some((pieces, newlines)) = self.undos.pop() {
+            self.redos
+                .push((self.pieces.clone(), self.newlines.clone()));
             self.pieces = pieces;
+            self.newlines = newlines;
             self.last_action = None;
             true
         } else {
@@ -255,9 +257,11 @@ impl PieceTable {
     }
 
     fn redo(&mut self) -> bool {
-        if let Some(pieces) = self.redos.pop() {
-            self.undos.push(self.pieces.clone());
+        if let Some((pieces, newlines)) = self.redos.pop() {
+            self.undos
+                .push((self.pieces.clone(), self.newlines.clone()));
             self.pieces = pieces;
+            self.newlines = newlines;
             self.last_action = None;
             true
         } else {
-- 
2.43.0


From c1d236a4296c114e486153d715d582e747ee050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 05/33] fix: synchronizing to a text panics when a difference
 starts inside a multi-byte character

---
 core/src/editor/piece_table/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 9ac468d..edfb98e 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -492,6 +492,10 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        self.append_bytes(text.as_bytes());
+    }
+
+    fn append_bytes(&mut self, text: &[u8]) {
         if text.is_empty() {
             return;
         }
@@ -510,8 +514,8 @@ impl PieceTable {
             original: false,
         });
         self.newlines
-            .extend(text.match_indices('\n').map(|(i, _)| offset + i));
-        self.added.extend(text.into_bytes());
+            .extend(text.find_iter("\n").map(|i| offset + i));
+        self.added.extend(text);
     }
 
     fn shift_offset_after(&mut self, node: &Node<Piece>, value: i64) {
@@ -523,13 +527,17 @@ impl PieceTable {
     }
 
     pub fn insert(&mut self, offset: usize, text: String) {
+        self.insert_bytes(offset, text.as_bytes());
+    }
+
+    fn insert_bytes(&mut self, offset: usize, text: &[u8]) {
         if text.is_empty() {
             return;
         }
         self.action(Action::Insert);
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
-            self.added.extend(text.as_bytes());
+            self.added.extend(text);
             let new = Piece {
                 offset,
                 start: added_start,
@@ -550,12 +558,12 @@ impl PieceTable {
                 .map(|&i| if offset <= i { i + new.length } else { i })
                 .collect();
             self.newlines.extend(
-                text.match_indices('\n')
-                    .map(|(i, _)| i + offset)
+                text.find_iter("\n")
+                    .map(|i| i + offset)
                     .collect::<Vec<_>>(),
             );
         } else {
-            self.append(text);
+            self.append_bytes(text);
         }
     }
 
@@ -631,7 +639,7 @@ impl PieceTable {
             match diff {
                 Diff::Left(len) => self.delete(&OffsetRange::new(loffset, len)),
                 Diff::Right(len) => {
-                    self.insert(loffset, text[roffset..roffset + len].to_owned());
+                    self.insert_bytes(loffset, &text.as_bytes()[roffset..roffset + len]);
                     loffset += len;
                     roffset += len;
                 }
-- 
2.43.0


From 1d05fae3af013df37720e9246767e9e6a9a60b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 06/33] fix: columns and cursor motions count bytes instead of
 graphemes

---
 core/src/editor/piece_table/mod.rs       | 25 ++++++-------
 core/src/editor/piece_table/navigator.rs | 46 ++++++++++++++----------
 2 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index edfb98e..0a0d6d5 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -331,6 +331,8 @@ impl PieceTable {
     pub fn line_bytes(&self, n: usize) -> Option<Vec<u8>> {
         if n == 0 || self.line_count() < n {
             None
+        } else if self.is_empty() {
+            Some(Vec::new())
         } else if n == 1 {
             let max_len = self.len();
             self.range(&OffsetRange::new(
@@ -369,24 +371,17 @@ impl PieceTable {
             let lineno = idx + 1;
             return Some(Coords {
                 l: lineno,
-                c: self.line_length(lineno) + 1,
+                c: self.line_bytes(lineno).unwrap().graphemes().count() + 1,
             });
         }
 
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_start = preceding_lines.last().map_or(0, |&nli| nli + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
+        let col = indices.range(..=offset - line_start).count();
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
@@ -412,7 +407,7 @@ impl PieceTable {
                 Some(line_offset + lbs.len())
             } else {
                 lbs.grapheme_indices()
-                    .nth(coords.c - 1)
+                    .nth(coords.c.checked_sub(1)?)
                     .map(|(i, _, _)| i)
                     .map(|col| line_offset + col)
             }
@@ -444,7 +439,7 @@ impl PieceTable {
 
     pub fn char_at(&self, coords: impl Into<Coords>) -> Option<String> {
         self.coord_to_offset(coords.into())
-            .map(|offset| self.char_at_offset(offset).unwrap())
+            .and_then(|offset| self.char_at_offset(offset))
     }
 
     pub fn line_length(&self, index: usize) -> usize {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..c3cf2d8 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,4 +1,4 @@
-use std::cmp::min;
+use std::cmp::{max, min};
 
 use bstr::ByteSlice;
 
@@ -33,16 +33,27 @@ impl Navigator<'_> {
         self.cursor == self.table.max_coord()
     }
 
-    pub fn pos(&self) -> Position {
-        let col_count = self
-            .table
-            .line_bytes(self.cursor.l)
-            .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
+    fn grapheme_count(&self, line: usize) -> usize {
+        self.table
+            .line_bytes(line)
+            .unwrap_or_else(|| panic!("get bytes for line {}", line))
             .graphemes()
             .count()
-            + 1;
+    }
+
+    /// Column of the newline, or of the last grapheme when the line is not terminated.
+    fn last_column(&self, line: usize) -> usize {
+        let count = self.grapheme_count(line);
+        if line <= self.table.newlines.len() {
+            count + 1
+        } else {
+            max(count, 1)
+        }
+    }
+
+    pub fn pos(&self) -> Position {
         let cursor = Coords {
-            c: min(col_count, self.target_col),
+            c: min(self.last_column(self.cursor.l), self.target_col),
             ..self.cursor
         };
         Position {
@@ -56,20 +67,15 @@ impl Navigator<'_> {
     }
 
     pub fn next(&mut self) -> &mut Self {
-        if self.cursor == self.table.max_coord() {
-            return self;
-        } else if self.table.char_at(self.cursor).map_or(false, |c| c == "\n") {
+        if self.cursor.c < self.last_column(self.cursor.l) {
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
+        } else if self.cursor.l < self.table.line_count() {
             self.cursor = Coords {
                 l: self.cursor.l + 1,
                 c: 1,
             };
             self.target_col = 1;
-        } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
         }
         self
     }
@@ -79,7 +85,7 @@ impl Navigator<'_> {
             if self.cursor.l != 1 && self.cursor.c == 1 {
                 let l = self.cursor.l - 1;
                 self.cursor.l = l;
-                self.cursor.c = self.table.line_length(l) + 1;
+                self.cursor.c = self.grapheme_count(l) + 1;
             } else {
                 self.cursor.c -= 1;
             }
@@ -91,6 +97,7 @@ impl Navigator<'_> {
     pub fn next_line(&mut self) -> &mut Self {
         if self.cursor.l < self.table.line_count() {
             self.cursor.l += 1;
+            self.cursor.c = min(self.last_column(self.cursor.l), self.target_col);
         }
         self
     }
@@ -98,6 +105,7 @@ impl Navigator<'_> {
     pub fn previous_line(&mut self) -> &mut Self {
         if self.cursor.l > 1 {
             self.cursor.l -= 1;
+            self.cursor.c = min(self.last_column(self.cursor.l), self.target_col);
         }
         self
     }
@@ -109,7 +117,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.grapheme_count(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From b3193945faa50f3c5d1a7259a3586028d16732d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 07/33] fix: selections on non-ASCII lines are cut inside
 characters

---
 core/src/editor/buffer.rs | 15 +++++----------
 core/src/editor/view.rs   | 30 +++++++++++++++++-------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..4ad9953 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -166,16 +166,11 @@ impl Buffer {
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
-        let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
-        } else {
-            self.content
-                .navigate(self.content.offset_to_coord(sel.end()))
-                .unwrap()
-                .next()
-                .pos()
-                .offset
-        };
+        let end_offset = sel.end()
+            + self
+                .content
+                .char_at_offset(sel.end())
+                .map_or(0, |grapheme| grapheme.len());
         sel.begin()..end_offset
     }
 }
diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..c43c7d7 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -5,6 +5,7 @@ use std::ops::Range;
 
 use crate::editor::selection::Selection;
 use crate::editor::Buffer;
+use bstr::ByteSlice;
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -193,18 +194,12 @@ impl View {
                         for s in ss {
                             let start = buffer.content.offset_to_coord(s.begin()).unwrap();
                             let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
+                                let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
+                                if end == buffer.content.max_coord() {
                                     end.c += 1;
                                     end
                                 } else {
-                                    buffer
-                                        .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
-                                        .unwrap()
-                                        .next()
-                                        .pos()
-                                        .coords
+                                    buffer.content.navigate(end).unwrap().next().pos().coords
                                 }
                             };
                             if start.l == end.l {
@@ -243,17 +238,26 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
-                            if let Some(ranges) = selected.get(&i) {
+                            // columns count graphemes whereas decorations count bytes
+                            let index = |col: usize| {
+                                line.as_bytes()
+                                    .grapheme_indices()
+                                    .map(|(idx, _, _)| idx)
+                                    .chain(std::iter::once(line.len()))
+                                    .nth(col)
+                                    .unwrap_or_else(|| l.len())
+                            };
+                            if let Some(ranges) = selected.get(&(i + lens.focus.start())) {
                                 for range in ranges {
                                     match *range {
                                         (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
+                                            deco.set(Face::Selection, index(start)..index(end));
                                         }
                                         (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
+                                            deco.set(Face::Selection, index(start)..l.len());
                                         }
                                         (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
+                                            deco.set(Face::Selection, 0..index(end));
                                         }
                                         (None, None) => {
                                             deco.set(Face::Selection, 0..l.len());
-- 
2.43.0


From 784360bbfea01b7a107df47fdc4f621a1e1189fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 08/33] fix: selections of the other clients and views point
 past the end of a shrunk buffer

---
 core/src/editor/core.rs            | 48 +++++++++++++++++-------------
 core/src/editor/piece_table/mod.rs |  7 +++++
 core/src/editor/selection.rs       | 17 +++--------
 3 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..c011a71 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -324,7 +324,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::clamp_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
@@ -423,6 +425,7 @@ impl Core {
             false
         } else if exists {
             let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            Self::clamp_selections(&mut lock!(self), name);
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -567,24 +570,26 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    fn clamp_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
+        let CoreState {
+            buffers, clients, ..
+        } = &mut **state;
+        let content = &buffers[bufname].content;
+        let max_offset = content.max_offset();
+        for ctx in clients.values_mut() {
+            for sels in ctx.selections.values_mut() {
+                for s in sels.get_mut(bufname).into_iter().flatten() {
+                    s.clamp_to(max_offset);
+                    s.anchor = content.grapheme_start(s.anchor);
+                    s.cursor = content.grapheme_start(s.cursor);
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
-        {
+        let modified_buffers = {
             let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
@@ -609,13 +614,16 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::clamp_selections(&mut state, bufname);
             }
+            modified_buffers
+        };
+        let mut to_notify = HashSet::new();
+        for bufname in modified_buffers {
+            to_notify.extend(self.clients_with_buffer(&bufname));
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        self.notify_view_update(to_notify.into_iter().collect());
         deleted
     }
 }
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 0a0d6d5..a22bed3 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -426,6 +426,13 @@ impl PieceTable {
         self.offset_to_coord(self.max_offset()).unwrap()
     }
 
+    /// Offset of the beginning of the grapheme at `offset`.
+    pub(crate) fn grapheme_start(&self, offset: usize) -> usize {
+        self.offset_to_coord(offset)
+            .and_then(|coord| self.coord_to_offset(coord))
+            .unwrap_or(0)
+    }
+
     pub fn char_at_offset(&self, offset: usize) -> Option<String> {
         // TODO the closest new line is used but this could be optimized using the next boundary
         let end = self
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..336979e 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -37,18 +37,9 @@ impl Selection {
     }
 
     pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+        let delta = self.end().saturating_sub(n);
+        self.anchor = self.anchor.min(n);
+        self.cursor = self.cursor.min(n);
+        delta
     }
 }
-- 
2.43.0


From eb69dcd3f5629f4cbeb24a50252a826160277251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 09/33] fix: view requests leave clients on missing buffers or
 without selections

---
 core/src/editor/core.rs | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index c011a71..d4901e1 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -297,15 +297,16 @@ impl Core {
             } else {
                 let latest_view = state.views.latest_value().unwrap();
                 let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                for view in state.views.values() {
+                    selections.insert(
+                        view.borrow().key(),
+                        view.borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect(),
+                    );
+                }
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
@@ -359,7 +360,7 @@ impl Core {
         }
 
         let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
-        self.debug(&format!("delete view: {}", view_id));
+        let mut deleted = Vec::new();
         for (_id, context) in lock!(self).clients.iter_mut() {
             context.selections.remove(view_id);
         }
@@ -373,11 +374,11 @@ impl Core {
             }
             if !has_ref {
                 lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+                deleted.push(buffer.to_owned());
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
@@ -390,6 +391,10 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        self.debug(&format!("delete view: {}", view_id));
+        for buffer in deleted {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
@@ -405,7 +410,8 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
                         context.selections.insert(new_key.clone(), old_sels);
                     }
                 }
@@ -466,16 +472,12 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
+            self.view(client_id, &key)
         } else {
             Err(Error::ViewNotFound {
                 view_id: view_id.to_owned(),
-- 
2.43.0


From 72647d7bed41d4b003e70bf7e1110e7fb0b34223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 10/33] fix: editing or reloading an unreadable file takes the
 whole editor down

---
 core/src/editor/buffer.rs | 25 +++++++++++++++----------
 core/src/editor/core.rs   | 24 +++++++++++++++---------
 core/src/editor/mod.rs    |  5 +++--
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 4ad9953..6f278bb 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,6 +1,6 @@
 use std::env::current_dir;
 use std::fs::{self, File};
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
@@ -80,29 +80,33 @@ impl Buffer {
     }
 
     pub fn new_file(filename: &Path) -> Buffer {
+        Self::open_file(filename).expect("open file")
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
+        let mut file = File::open(&absolute_path)?;
         let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
+        file.read_to_string(&mut file_content)?;
         let last_sync = Some(SystemTime::now());
 
         if !file_content.ends_with('\n') {
             file_content += "\n";
         }
 
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
             content: PieceTable::with_text(file_content),
             last_sync,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -147,9 +151,10 @@ impl Buffer {
             BufferSource::Scratch(_) => true,
             BufferSource::File(ref path) => {
                 if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
+                    let content = match fs::read_to_string(path) {
+                        Ok(content) => content,
+                        Err(_) => return false,
+                    };
                     self.content.apply_diff(&content);
                     self.last_sync = Some(SystemTime::now());
                     true
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index d4901e1..3ff7e15 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    FileNotOpened { name: String, reason: String },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +126,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            FileNotOpened { name, reason } => write!(f, "could not open '{}': {}", name, reason),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -330,9 +332,13 @@ impl Core {
         Self::clamp_selections(&mut state, name);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
+        let buffer = Buffer::open_file(filename).map_err(|e| Error::FileNotOpened {
+            name: buffer_name.to_owned(),
+            reason: e.to_string(),
+        })?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -421,7 +427,7 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -442,14 +448,14 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path)?;
             true
         };
 
         let view = View::for_buffer(name);
         let view_id = view.key();
         self.add_view(view);
-        self.view(client_id, &view_id).expect("set view after edit");
+        self.view(client_id, &view_id)?;
 
         self.debug(&format!("edit: {}", name));
         if notify_change {
@@ -460,6 +466,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -718,15 +725,14 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true).map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..4ab744d 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -244,8 +244,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_params(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From 5fdd1a90938385416aa87716694f784e72c56ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 11/33] fix: lens focus ordering is not an order and nested
 lenses shrink the header range

---
 core/src/editor/view.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index c43c7d7..9741f0d 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -47,6 +47,7 @@ impl PartialOrd for Focus {
 impl Ord for Focus {
     fn cmp(&self, other: &Focus) -> Ordering {
         match (self, other) {
+            (Focus::Whole, Focus::Whole) => Ordering::Equal,
             (Focus::Whole, _) => Ordering::Greater,
             (_, Focus::Whole) => Ordering::Less,
             (Focus::Range(a), Focus::Range(b)) => {
@@ -78,7 +79,13 @@ impl LensGroup {
     pub fn focus(&self) -> Focus {
         match (&self.first().unwrap().focus, &self.last().unwrap().focus) {
             (Focus::Whole, _) | (_, Focus::Whole) => Focus::Whole,
-            (Focus::Range(first), Focus::Range(last)) => Focus::Range(first.start..last.end),
+            (Focus::Range(first), Focus::Range(last)) => {
+                let end = self.iter().fold(last.end, |end, lens| match &lens.focus {
+                    Focus::Range(range) => end.max(range.end),
+                    Focus::Whole => end,
+                });
+                Focus::Range(first.start..end)
+            }
         }
     }
 }
-- 
2.43.0


From e32883b8b1a666f59b846a239a58b5309bd0ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 12/33] fix: searching a menu for a regex metacharacter takes
 the editor down

---
 core/src/editor/menu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..daab47a 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -150,7 +150,7 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
         let raw_re = format!("(?i){}", elements.join(".*"));
         Regex::new(&raw_re).unwrap()
-- 
2.43.0


From 7811596e7fc954c7594c757d2f6b89c287187ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 13/33] fix: reading back a null result panics

---
 remote/src/jsonrpc.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..1e5eb54 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -227,9 +227,11 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match (&self.result, &self.error) {
+            (Some(result), _) => Ok(from_value(result.clone())?),
+            (None, Some(error)) => Err(error.clone()),
+            // a null result is read back as a missing one
+            (None, None) => Ok(from_value(Value::Null)?),
         })
     }
 
-- 
2.43.0


From fae873fa4bc6c7e0d26311d637c877ad2f4c3052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 14/33] fix: menu selection panics on a menu without entries

---
 remote/src/connection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..9e8138e 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -34,7 +34,9 @@ impl Menu {
     }
 
     fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+        self.entries
+            .get(self.selected)
+            .map_or("", |entry| entry.value.as_str())
     }
 }
 
-- 
2.43.0


From 2745ffd2be708f983a0425c46b16bded091ea457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 15/33] fix: displayed special keys are not read back

---
 remote/src/keys.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..5f9f330 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,14 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 7e1abd0146ecdb83f33390910db6ddd76266ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 16/33] fix: TCP session names either panic or are taken for
 socket names

---
 remote/src/session.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..9abc4df 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
@@ -25,7 +25,7 @@ pub enum ConnectionMode {
 
 impl ConnectionMode {
     fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+        matches!(s.parse(), Ok(ConnectionMode::Tcp(_)))
     }
 }
 
@@ -50,13 +50,11 @@ impl FromStr for ConnectionMode {
                 .map(|m| m.as_str())
                 .unwrap_or("127.0.0.1");
             let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
-            Ok(Tcp(sock_addr))
-        } else {
-            Ok(Socket(s.into()))
+            if let Ok(sock_addr) = format!("{}:{}", address, port).parse() {
+                return Ok(Tcp(sock_addr));
+            }
         }
+        Ok(Socket(s.into()))
     }
 }
 
-- 
2.43.0


From 5e35a79396b0f9f5d0f4240b8d6c97da3641e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 17/33] fix: the server dies of a client that leaves or talks
 after quitting

---
 core/src/server.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..355bf1c 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -105,15 +105,25 @@ impl Server {
                     editor.add_client(client_id);
                 }
                 Event::Leave(client_id) => {
-                    editor.remove_client(client_id);
-                    clients
+                    let removed = clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
+                    // a client that quit is already gone
+                    if removed.is_some() {
+                        editor.remove_client(client_id);
+                    }
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
+                Event::Message((client_id, _))
+                    if !clients
+                        .read()
+                        .expect("lock client index")
+                        .contains_key(&client_id) =>
+                {
+                    log::warn!("message from removed client {}", client_id)
+                }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
-- 
2.43.0


From 22c97657d6f9a11ed4da85f085151e8082d46717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 18/33] fix: characters spread over several pieces are read
 back as replacement characters

---
 core/src/editor/piece_table/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index a22bed3..742a8f9 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -290,8 +290,9 @@ impl PieceTable {
             })
     }
 
-    fn join(&self, sep: &str) -> String {
-        self.pieces
+    pub fn text(&self) -> String {
+        let bytes = self
+            .pieces
             .values()
             .map(|p| {
                 let buffer = if p.original {
@@ -299,15 +300,12 @@ impl PieceTable {
                 } else {
                     &self.added
                 };
-                // TODO handle decoding error
-                String::from_utf8_lossy(&buffer[p.start..p.end()]).into()
+                &buffer[p.start..p.end()]
             })
-            .collect::<Vec<String>>()
-            .join(sep)
-    }
-
-    pub fn text(&self) -> String {
-        self.join("")
+            .collect::<Vec<&[u8]>>()
+            .concat();
+        // TODO handle decoding error
+        String::from_utf8_lossy(&bytes).into()
     }
 
     pub fn text_range(&self, range: &dyn Range) -> Option<String> {
-- 
2.43.0


From 5935bdcdc4ff68b39d32455bd71dcc1d9d2d93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 19/33] verification hooks behind cfg(ced_verif)

---
 core/src/editor/core.rs              |  3 ++
 core/src/editor/core/verif.rs        | 81 ++++++++++++++++++++++++++++
 core/src/editor/mod.rs               |  9 ++++
 core/src/editor/piece_table/mod.rs   |  2 +
 core/src/editor/piece_table/verif.rs | 18 +++++++
 remote/src/connection.rs             |  3 ++
 remote/src/connection/verif.rs       | 29 ++++++++++
 7 files changed, 145 insertions(+)
 create mode 100644 core/src/editor/core/verif.rs
 create mode 100644 core/src/editor/piece_table/verif.rs
 create mode 100644 remote/src/connection/verif.rs

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 3ff7e15..2ddc780 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -20,6 +20,9 @@ use remote::protocol::{
     Face, Text, TextFragment,
 };
 
+#[cfg(ced_verif)]
+pub mod verif;
+
 pub const BUFFER_DEBUG: &str = "*debug*";
 pub const BUFFER_SCRATCH: &str = "*scratch*";
 
diff --git a/core/src/editor/core/verif.rs b/core/src/editor/core/verif.rs
new file mode 100644
index 0000000..4b6784b
--- /dev/null
+++ b/core/src/editor/core/verif.rs
@@ -0,0 +1,81 @@
+//! Snapshots of the editor state for the verification harness.
+use super::Core;
+use crate::editor::Editor;
+
+pub fn normalize_error_message(message: &str) -> String {
+    super::normalize_error_message(message)
+}
+
+#[derive(Clone, Debug, PartialEq)]
+pub struct ClientState {
+    pub id: usize,
+    pub view: String,
+    /// View key, buffer, (anchor, cursor) of each selection.
+    pub selections: Vec<(String, String, Vec<(usize, usize)>)>,
+}
+
+#[derive(Clone, Debug, PartialEq)]
+pub struct State {
+    pub clients: Vec<ClientState>,
+    /// Name and text.
+    pub buffers: Vec<(String, String)>,
+    /// Key, key recomputed from the view itself, shown buffers.
+    pub views: Vec<(String, String, Vec<String>)>,
+}
+
+impl Core {
+    fn verif_state(&self) -> State {
+        let state = self.state.lock().expect("lock state mutex");
+        let mut clients: Vec<ClientState> = state
+            .clients
+            .iter()
+            .map(|(&id, ctx)| {
+                let mut selections = Vec::new();
+                for (view, by_buffer) in &ctx.selections {
+                    for (buffer, sels) in by_buffer {
+                        selections.push((
+                            view.clone(),
+                            buffer.clone(),
+                            sels.iter().map(|s| (s.anchor, s.cursor)).collect(),
+                        ));
+                    }
+                }
+                selections.sort();
+                let view = ctx.view.borrow().key();
+                ClientState {
+                    id,
+                    view,
+                    selections,
+                }
+            })
+            .collect();
+        clients.sort_by_key(|c| c.id);
+        let mut buffers: Vec<(String, String)> = state
+            .buffers
+            .iter()
+            .map(|(name, buffer)| (name.clone(), buffer.content.text()))
+            .collect();
+        buffers.sort();
+        let mut views: Vec<(String, String, Vec<String>)> = state
+            .views
+            .iter()
+            .map(|(key, view)| {
+                let view = view.borrow();
+                let shown = view.buffers().into_iter().cloned().collect();
+                (key.clone(), view.key(), shown)
+            })
+            .collect();
+        views.sort();
+        State {
+            clients,
+            buffers,
+            views,
+        }
+    }
+}
+
+impl Editor {
+    pub fn verif_state(&self) -> State {
+        self.core.verif_state()
+    }
+}
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 4ab744d..5d776a8 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -8,6 +8,15 @@ mod range;
 mod selection;
 pub mod view;
 
+#[cfg(ced_verif)]
+pub mod verif {
+    pub use super::core::verif::*;
+    pub use super::diff::{diff, Diff};
+    pub use super::piece_table::{Navigator, PieceTable, Position};
+    pub use super::range::OffsetRange;
+    pub use super::selection::Selection;
+}
+
 use std::collections::{HashMap, HashSet};
 use std::env;
 use std::path::PathBuf;
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 742a8f9..a2b3d57 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -1,5 +1,7 @@
 mod navigator;
 mod position;
+#[cfg(ced_verif)]
+mod verif;
 
 use std::cmp::{max, Ordering};
 use std::collections::BTreeSet;
diff --git a/core/src/editor/piece_table/verif.rs b/core/src/editor/piece_table/verif.rs
new file mode 100644
index 0000000..04cd7ef
--- /dev/null
+++ b/core/src/editor/piece_table/verif.rs
@@ -0,0 +1,18 @@
+//! Read access and private operations for the verification harness.
+use super::PieceTable;
+
+impl PieceTable {
+    pub fn verif_undo(&mut self) -> bool {
+        self.undo()
+    }
+
+    pub fn verif_redo(&mut self) -> bool {
+        self.redo()
+    }
+
+    pub fn verif_newlines(&self) -> Vec<usize> {
+        let mut newlines: Vec<usize> = self.newlines.iter().cloned().collect();
+        newlines.sort_unstable();
+        newlines
+    }
+}
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 9e8138e..2692fb6 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -11,6 +11,9 @@ use crate::session::Session;
 use async_channel::Sender;
 use futures_lite::*;
 
+#[cfg(ced_verif)]
+mod verif;
+
 #[derive(Clone, Debug, Default)]
 pub struct Menu {
     pub command: String,
diff --git a/remote/src/connection/verif.rs b/remote/src/connection/verif.rs
new file mode 100644
index 0000000..c9bc82d
--- /dev/null
+++ b/remote/src/connection/verif.rs
@@ -0,0 +1,29 @@
+//! Private operations for the verification harness.
+use super::{Connection, ConnectionEvent, ConnectionState, Menu};
+use crate::jsonrpc::{ClientEvent, Id};
+
+impl Menu {
+    pub fn verif_select_next(&mut self) {
+        self.select_next();
+    }
+
+    pub fn verif_select_previous(&mut self) {
+        self.select_previous();
+    }
+
+    pub fn verif_selected_item(&self) -> &str {
+        self.selected_item()
+    }
+}
+
+impl ConnectionState {
+    pub fn verif_event_update(&mut self, event: &ClientEvent) -> Option<ConnectionEvent> {
+        self.event_update(event)
+    }
+}
+
+impl Connection {
+    pub fn verif_request_id(&mut self) -> Id {
+        self.request_id()
+    }
+}
-- 
2.43.0


From 8874ab7dc1d500123543c7efe1b3f7628644f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 20/33] fix: the server dies of a client that leaves before its
 answer

---
 core/src/server.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 355bf1c..bffe2df 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -128,8 +128,11 @@ impl Server {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
                         let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                        // the client may be gone before its answer
+                        let res = Self::write_client(client_id, stream, &message);
+                        if let Err(e) = res {
+                            log::error!("{}", e);
+                        }
                     }
                     Err(e) => log::error!("{}: {:?}", e, raw),
                 },
-- 
2.43.0


From 62067052b8028b87f22b2429f0683a54ddc3864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 21/33] fix: buffers named like a view took that view's key

A view is identified by a key made of its buffers' names. A buffer named
"a{*}|b" got the key of the view of a and b and replaced it: clients kept
looking at a view that is unknown to the editor, whose buffers could then be
deleted, and the next notification sent to them panicked.
---
 core/src/editor/view.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 9741f0d..4947593 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -124,7 +124,9 @@ impl View {
                 .iter()
                 .map(|lens| lens.focus.to_string())
                 .collect::<Vec<String>>();
-            parts.push(format!("{}{{{}}}", buffer, coords.join(",")));
+            // a buffer named like a view must not take its key
+            let name = buffer.replace("{", "{{");
+            parts.push(format!("{}{{{}}}", name, coords.join(",")));
         }
         parts.join("|")
     }
-- 
2.43.0


From cadd5b9a94ca19acab7b60b9e60c45f0168a281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 22/33] fix: a cursor that cannot move jumps to a column
 remembered before the text changed

A position was computed from the remembered column instead of the cursor, so
that after another client's deletion 'left' on the first position, or 'down'
on the last line, moved the cursor sideways.
---
 core/src/editor/piece_table/navigator.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index c3cf2d8..5cc4767 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -52,17 +52,13 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
-        let cursor = Coords {
-            c: min(self.last_column(self.cursor.l), self.target_col),
-            ..self.cursor
-        };
         Position {
             offset: self
                 .table
-                .coord_to_offset(cursor)
-                .unwrap_or_else(|| panic!("convert coordinates: {:?}", cursor)),
-            coords: cursor,
-            grapheme: self.table.char_at(cursor),
+                .coord_to_offset(self.cursor)
+                .unwrap_or_else(|| panic!("convert coordinates: {:?}", self.cursor)),
+            coords: self.cursor,
+            grapheme: self.table.char_at(self.cursor),
         }
     }
 
-- 
2.43.0


From 6a517992acfbff2f852569c118cd6e3424014b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 23/33] fix: words on either side of a line feed in a menu
 label were not found

---
 core/src/editor/menu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index daab47a..abcefb6 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -152,7 +152,7 @@ impl MenuFilter {
             .split_whitespace()
             .map(|e| format!("({})", regex::escape(e)))
             .collect();
-        let raw_re = format!("(?i){}", elements.join(".*"));
+        let raw_re = format!("(?is){}", elements.join(".*"));
         Regex::new(&raw_re).unwrap()
     }
 
-- 
2.43.0


From f8403b8b62789fff4ccc41e0dcb290847b1b5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 24/33] fix: displaying a session whose path has no file name
 panicked

---
 remote/src/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 9abc4df..5261608 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -33,7 +33,10 @@ impl fmt::Display for ConnectionMode {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use self::ConnectionMode::*;
         match self {
-            Socket(path) => write!(f, "{}", path.file_name().unwrap().to_str().unwrap()),
+            Socket(path) => match path.file_name() {
+                Some(name) => write!(f, "{}", name.to_string_lossy()),
+                None => write!(f, "{}", path.display()),
+            },
             Tcp(addr) => write!(f, "@{}", addr),
         }
     }
-- 
2.43.0


From 15ae28ffadec6fc307a1d499edd1e62347f1c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 25/33] fix: a negative buffer length was taken for a huge one

---
 remote-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..952e5ae 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -109,6 +109,9 @@ pub unsafe extern "C" fn ced_last_error_message(buffer: *mut c_char, length: c_i
     };
 
     let message = last_error.to_string();
+    if length < 0 {
+        return -2;
+    }
     let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
     if message.len() >= buffer.len() {
         return -2;
-- 
2.43.0


From 26b57cd1ddb78a26d0c5877ce021e1bf728d0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 26/33] fix: the server died of a menu search that was too
 large

---
 core/src/editor/menu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index abcefb6..b241aba 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -153,7 +153,8 @@ impl MenuFilter {
             .map(|e| format!("({})", regex::escape(e)))
             .collect();
         let raw_re = format!("(?is){}", elements.join(".*"));
-        Regex::new(&raw_re).unwrap()
+        // a search that is too large to compile matches nothing
+        Regex::new(&raw_re).unwrap_or_else(|_| Regex::new(r"\z.").unwrap())
     }
 
     pub fn filter<T>(&self, items: &[T]) -> Candidates<T>
-- 
2.43.0


From 504301b3ba5f5f0adec18cb160692e64a94f8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 27/33] fix: a selected line feed after a carriage return was
 not shown as selected

---
 core/src/editor/view.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 4947593..19326df 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -256,14 +256,17 @@ impl View {
                                     .nth(col)
                                     .unwrap_or_else(|| l.len())
                             };
+                            // a stripped carriage return and its line feed are both shown by the
+                            // trailing space
+                            let start_index = |col: usize| index(col).min(line.len());
                             if let Some(ranges) = selected.get(&(i + lens.focus.start())) {
                                 for range in ranges {
                                     match *range {
                                         (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, index(start)..index(end));
+                                            deco.set(Face::Selection, start_index(start)..index(end));
                                         }
                                         (Some(start), None) => {
-                                            deco.set(Face::Selection, index(start)..l.len());
+                                            deco.set(Face::Selection, start_index(start)..l.len());
                                         }
                                         (None, Some(end)) => {
                                             deco.set(Face::Selection, 0..index(end));
-- 
2.43.0


From b3dc5f01a014cfd9661bd75c298d4c631fee3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 28/33] fix: menu entries with nearly equal long spans were
 ordered by label

---
 core/src/editor/menu.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index b241aba..2fb7e7a 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -26,11 +26,11 @@ impl Searchable for String {
     }
 }
 
-fn compute_candidate_score(locations: &CaptureLocations) -> f32 {
+fn compute_candidate_score(locations: &CaptureLocations) -> f64 {
     if locations.len() > 0 {
         let (start, _) = locations.get(0).unwrap();
         let (_, end) = locations.get(locations.len() - 1).unwrap();
-        100.0 / (1 + end - start) as f32
+        100.0 / (1 + end - start) as f64
     } else {
         0.0
     }
@@ -39,7 +39,7 @@ fn compute_candidate_score(locations: &CaptureLocations) -> f32 {
 #[derive(Debug)]
 pub struct Candidate<T: Searchable> {
     pub object: T,
-    score: Option<f32>,
+    score: Option<f64>,
     locations: CaptureLocations,
 }
 
-- 
2.43.0


From 148a76eb338b19025b27f370bf9b140daa014eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 29/33] verification hooks: what a view shows (behind
 cfg(ced_verif))

---
 core/src/editor/core/verif.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/editor/core/verif.rs b/core/src/editor/core/verif.rs
index 4b6784b..f496650 100644
--- a/core/src/editor/core/verif.rs
+++ b/core/src/editor/core/verif.rs
@@ -74,7 +74,21 @@ impl Core {
     }
 }
 
+impl Core {
+    fn verif_shown(&self, client: usize) -> remote::protocol::notifications::ViewParams {
+        let state = self.state.lock().expect("lock state mutex");
+        let ctx = &state.clients[&client];
+        let view = ctx.view.borrow();
+        view.to_notification_params(&state.buffers, ctx.selections.get(&view.key()))
+    }
+}
+
 impl Editor {
+    /// What the view of the client shows now.
+    pub fn verif_shown(&self, client: usize) -> remote::protocol::notifications::ViewParams {
+        self.core.verif_shown(client)
+    }
+
     pub fn verif_state(&self) -> State {
         self.core.verif_state()
     }
-- 
2.43.0


From 243cebf9e99fff8d40f6f1e60426b630783b4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 30/33] fix: a new client was not told what its view shows

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 2ddc780..2f911b1 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -321,6 +321,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0


From 4a53dc9cee1e9216748e36802f82396a0bff94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 31/33] fix: clients were not told of the line added to an
 empty buffer

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 2f911b1..0c20f0c 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -623,6 +623,7 @@ impl Core {
                 let buffer = &mut state.buffers.get_mut(bufname).unwrap();
                 if buffer.content.is_empty() {
                     buffer.content.append("\n".to_owned());
+                    modified_buffers.insert(bufname.to_owned());
                 }
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
-- 
2.43.0


From 60d06f6772da675d74b7ef5da32dd3371696f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 32/33] fix: clients showing a replaced scratch buffer were not
 told of it

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 0c20f0c..424ecc9 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -730,6 +730,7 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
+                this.notify_view_update(this.clients_with_buffer(&name));
                 this.edit(client, &name, true).map_err(rlua::Error::external)
             },
         );
-- 
2.43.0


From bd3134296f5f47680256b7d31c40dd8a16e6b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 33/33] fix: changing a view into one that exists reset the
 selections of the clients looking at that one

---
 core/src/editor/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 424ecc9..d1f1bb7 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -420,9 +420,13 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
+                    let is_current = context.view.borrow().key() == old_key;
                     if let Some(mut old_sels) = context.selections.remove(&old_key) {
-                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
-                        context.selections.insert(new_key.clone(), old_sels);
+                        // keep the selections of a view that exists already
+                        if is_current || !context.selections.contains_key(&new_key) {
+                            old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
+                            context.selections.insert(new_key.clone(), old_sels);
+                        }
                     }
                 }
                 self.add_view(new_view);
-- 
2.43.0

