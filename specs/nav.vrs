//@ unit nav
//@ include coordfns.vrs
//@ source core/src/editor/piece_table/position.rs
//@ struct Position
//@ source core/src/editor/piece_table/navigator.rs
//@ const BEGIN
//@ struct Navigator
//@ verus
// ---- motions ---------------------------------------------------------------------
/// the last column of a line: its line feed, or its last grapheme when it has none
spec fn lastcol(b: Seq<u8>, l: int) -> int {
    if l <= nlpos(b).len() { gcount(b, l) + 1 } else if gcount(b, l) > 1 { gcount(b, l) } else { 1 }
}
spec fn right_of(b: Seq<u8>, p: Coords) -> Coords {
    if p.c < lastcol(b, p.l as int) { Coords { l: p.l, c: (p.c + 1) as usize } }
    else if p.l < nlines(b) { Coords { l: (p.l + 1) as usize, c: 1 } }
    else { p }
}
spec fn left_of(b: Seq<u8>, p: Coords) -> Coords {
    if p.c > 1 { Coords { l: p.l, c: (p.c - 1) as usize } }
    else if p.l > 1 { Coords { l: (p.l - 1) as usize, c: (gcount(b, p.l - 1) + 1) as usize } }
    else { p }
}
/// column `t` as far as line `l` reaches
spec fn reach(b: Seq<u8>, l: int, t: int) -> int { if t < lastcol(b, l) { t } else { lastcol(b, l) } }
/// a position of the text
spec fn place(b: Seq<u8>, p: Coords) -> bool { 1 <= p.l <= nlines(b) && 1 <= p.c <= lastcol(b, p.l as int) }
impl Navigator<'_> {
    spec fn b(&self) -> Seq<u8> { self.table.bytes() }
    spec fn nav(&self) -> bool {
        &&& self.table.wf()
        &&& place(self.b(), self.cursor)
        &&& self.target_col >= 1
    }
    /// the cursor is as near to the target column as its line reaches
    spec fn tight(&self) -> bool { self.cursor.c == reach(self.b(), self.cursor.l as int, self.target_col as int) }
    /// moved to `p`, on the same text
    spec fn moved(&self, old: Self, p: Coords) -> bool {
        &&& self.table == old.table
        &&& self.cursor == p
        &&& self.target_col == (if p == old.cursor { old.target_col } else { p.c })
    }
}
proof fn lemma_cols(b: Seq<u8>, l: int)
    requires b.len() <= CAP(), 1 <= l <= nlines(b)
    ensures gcount(b, l) <= b.len(), lastcol(b, l) <= gcount(b, l) + 1, 1 <= lastcol(b, l), nlines(b) <= b.len() + 1,
        l < nlines(b) ==> lastcol(b, l) == gcount(b, l) + 1,
{
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
    lemma_line(b, l);
    lemma_gcount(line(b, l));
}
/// a left motion undoes a right motion that moved, and the other way round
proof fn lemma_undone(b: Seq<u8>, p: Coords)
    requires b.len() <= CAP(), place(b, p)
    ensures right_of(b, p) != p ==> left_of(b, right_of(b, p)) == p, left_of(b, p) != p ==> right_of(b, left_of(b, p)) == p,
{
    lemma_cols(b, p.l as int);
    if p.l > 1 { lemma_cols(b, p.l - 1); }
}
/// every position is the one of a byte of the text (or the start of an empty one)
proof fn lemma_place(b: Seq<u8>, p: Coords)
    requires b.len() <= CAP(), place(b, p)
    ensures exists_at(b, p), b.len() > 0 ==> offset_of(b, p) < b.len(), b.len() == 0 ==> offset_of(b, p) == 0,
{
    broadcast use axiom_graphemes;
    let l = p.l as int;
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
    lemma_nl(nlpos(b), b);
    lemma_line(b, l);
    lemma_gcount(line(b, l));
    assert(b.len() > 0 && l > nlpos(b).len() ==> line(b, l).len() > 0);
}
/// the coordinates of a byte are a position
proof fn lemma_coord_place(b: Seq<u8>, p: Coords, off: int)
    requires b.len() <= CAP(), coord_of(b, p, off), 0 <= off < b.len() || (off == 0 && b.len() == 0)
    ensures place(b, p)
{
    broadcast use axiom_graphemes;
    let l = p.l as int;
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
    lemma_nl(nlpos(b), b);
    lemma_line(b, l);
}
//@ fn Navigator::from_position
    requires table.wf(), coords.l > 0
    ensures result is Some <==> exists_at(table.bytes(), coords),
        result matches Some(n) ==> n.table == table && n.cursor == coords && n.target_col == coords.c && (place(table.bytes(), coords) ==> n.nav() && n.tight()),
//@ fn Navigator::new
    requires table.wf()
    ensures result.nav(), result.tight(), result.table == table, result.cursor == (Coords { l: 1, c: 1 }),
//@ entry
    proof { lemma_cols(table.bytes(), 1); }
//@ fn Navigator::is_at_end
    requires self.nav()
    ensures result ==> coord_of(self.b(), self.cursor, if self.b().len() == 0 { 0 } else { self.b().len() - 1 })
//@ fn Navigator::grapheme_count
    requires self.table.wf(), 1 <= line <= nlines(self.b())
    ensures result == gcount(self.b(), line as int)
//@ fn Navigator::last_column
    requires self.table.wf(), 1 <= line <= nlines(self.b())
    ensures result == lastcol(self.b(), line as int)
//@ entry
    proof { lemma_cols(self.b(), line as int); lemma_nl(self.table.newlines@, self.b()); }
//@ fn Navigator::pos
    requires self.nav()
    ensures result.coords == self.cursor, result.offset == offset_of(self.b(), self.cursor),
        self.b().len() > 0 ==> result.offset < self.b().len() && result.grapheme is Some,
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); lemma_place(self.b(), self.cursor); }
//@ fn Navigator::next
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.moved(*old(self), right_of(old(self).b(), old(self).cursor)),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); if self.cursor.l < nlines(self.b()) { lemma_cols(self.b(), self.cursor.l + 1); } }
//@ fn Navigator::previous
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.moved(*old(self), left_of(old(self).b(), old(self).cursor)),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); if self.cursor.l > 1 { lemma_cols(self.b(), self.cursor.l - 1); } }
//@ fn Navigator::next_line
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == old(self).target_col,
        result.cursor == (if old(self).cursor.l < nlines(old(self).b()) {
            Coords { l: (old(self).cursor.l + 1) as usize, c: reach(old(self).b(), old(self).cursor.l + 1, old(self).target_col as int) as usize }
        } else { old(self).cursor }),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); if self.cursor.l < nlines(self.b()) { lemma_cols(self.b(), self.cursor.l + 1); } }
//@ fn Navigator::previous_line
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == old(self).target_col,
        result.cursor == (if old(self).cursor.l > 1 {
            Coords { l: (old(self).cursor.l - 1) as usize, c: reach(old(self).b(), old(self).cursor.l - 1, old(self).target_col as int) as usize }
        } else { old(self).cursor }),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); if self.cursor.l > 1 { lemma_cols(self.b(), self.cursor.l - 1); } }
//@ fn Navigator::line_begin
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == 1,
        result.cursor == (Coords { l: old(self).cursor.l, c: 1 }),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); }
//@ fn Navigator::line_end
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == result.cursor.c,
        result.cursor.l == old(self).cursor.l,
        result.cursor.c == (if gcount(old(self).b(), old(self).cursor.l as int) > 1 { gcount(old(self).b(), old(self).cursor.l as int) } else { 1 }),
//@ entry
    proof { lemma_cols(self.b(), self.cursor.l as int); }
//@ fn Navigator::begin
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == 1, result.cursor == (Coords { l: 1, c: 1 }),
//@ entry
    proof { lemma_cols(self.b(), 1); }
//@ fn Navigator::end
    requires old(self).nav()
    ensures *final(result) == *final(self), result.nav(), old(self).tight() ==> result.tight(), result.table == old(self).table, result.target_col == result.cursor.c,
        coord_of(old(self).b(), result.cursor, if old(self).b().len() == 0 { 0 } else { old(self).b().len() - 1 }),
//@ entry
    proof {
        let off = if self.b().len() == 0 { 0 } else { self.b().len() - 1 };
        assert forall|p: Coords| #[trigger] coord_of(self.b(), p, off) implies place(self.b(), p) by { lemma_coord_place(self.b(), p, off); }
    }
//@ source core/src/editor/piece_table/mod.rs
//@ fn PieceTable::navigate
//@ rewrite impl Into < Option < Coords > > => Option<Coords>
//@ rewrite from . into ( ) => from
    requires self.wf(), from matches Some(c) ==> c.l > 0
    ensures from is None ==> result is Some && result->0.nav() && result->0.tight() && result->0.cursor == (Coords { l: 1, c: 1 }),
        from matches Some(c) ==> (result is Some <==> exists_at(self.bytes(), c)),
        from matches Some(c) ==> result matches Some(n) ==> n.table == self && n.cursor == c && n.target_col == c.c && (place(self.bytes(), c) ==> n.nav() && n.tight()),
