//@ include ptfns.vrs
//@ include minmax.vrs
//@ sources graphemes grapheme_indices range_to range_to_incl range_from
//@ rewrite . range ( .. = $$x ) => . range_to_incl($$x)
//@ rewrite . range ( .. $$x ) => . range_to($$x)
//@ rewrite . range ( offset .. ) => . range_from(offset)
//@ source core/src/editor/piece_table/mod.rs
//@ struct Coords Clone,Copy,PartialEq,Structural,Eq
//@ include coordspec.vrs
//@ fn PieceTable::offset_to_coord
    requires self.wf()
    ensures
        offset > 0 && offset >= self.bytes().len() ==> result is None,
        offset == 0 || offset < self.bytes().len() ==> result is Some && coord_of(self.bytes(), result->0, offset as int),
        offset == 0 ==> result == Some(Coords { l: 1, c: 1 }),
//@ entry
    proof {
        broadcast use axiom_graphemes;
        let b = self.bytes();
        lemma_nl(self.newlines@, b);
        lemma_nl_count(self.newlines@, b);
        lemma_line(b, 1);
        lemma_below(self.newlines@, offset as int);
        if 0 < offset < b.len() { lemma_line_at(b, offset as int); lemma_line(b, line_at(b, offset as int)); lemma_gcount(line(b, line_at(b, offset as int))); }
        if gcount(b, 1) > 1 { assert(gstarts(line(b, 1))[0] < gstarts(line(b, 1))[1]); }
    }
//@ collect 1 BTreeSet
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k: int = 0;
    proof { assert(src.skip(0) =~= src); }
//@ loop 0
    invariant_except_break vx_acc0 is None, vx_it0@ == src.skip(k), forall|i: int| 0 <= i < k ==> *(#[trigger] src[i]) != offset,
    invariant 0 <= k <= src.len(), vx_n0 == k, src.len() <= CAP(),
        vx_acc0 is None || (vx_acc0 matches Some(x) && x < src.len() && *src[x as int] == offset),
    ensures vx_acc0 is None ==> forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) != offset,
    decreases src.len() - k
//@ loop 0 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); } }
//@ loop 0 end
    proof { k = k + 1; }
//@ before let line = self . line_bytes ( lineno ) . unwrap ( )
    proof {
        let b = self.bytes();
        let nl = self.newlines@;
        assert(nl.len() < nlines(b) || b.last() == 10u8);
        lemma_line(b, lineno as int);
    }
//@ loop 1 before
    let ghost g = gstarts(line@);
    let ghost mut k: int = 0;
    proof { broadcast use axiom_graphemes; assert(vx_it1@.skip(0) =~= vx_it1@); }
    let ghost src = vx_it1@;
//@ loop 1
    invariant 0 <= k <= src.len(), vx_it1@ == src.skip(k), src.len() == g.len(), g == gstarts(line@),
        forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i]).0 == g[i],
        forall|y: usize| #[trigger] vx_acc1@.contains(y) <==> g.take(k).contains(y),
    ensures vx_acc1@ == g
    decreases src.len() - k
//@ loop 1 entry
    proof {
        broadcast use axiom_graphemes, axiom_bset;
        if k < src.len() {
            assert(src.skip(k).skip(1) =~= src.skip(k + 1));
            assert(src.skip(k)[0] == src[k]);
            assert(g.take(k + 1) =~= g.take(k).push(g[k]));
            assert forall|y: usize| g.take(k + 1).contains(y) <==> g.take(k).contains(y) || y == g[k] by {
                if g.take(k).contains(y) { let i = g.take(k).index_of(y); assert(g.take(k + 1)[i] == y); }
                if y == g[k] { assert(g.take(k + 1)[k] == y); }
                if g.take(k + 1).contains(y) { let i = g.take(k + 1).index_of(y); if i < k { assert(g.take(k)[i] == y); } }
            }
        } else {
            assert(g.take(k) =~= g);
            lemma_incr_unique(vx_acc1@, g);
        }
    }
//@ loop 1 end
    proof { k = k + 1; }
//@ exit
    proof { }
//@ before let col =
    proof {
        broadcast use axiom_graphemes;
        lemma_below(indices@, offset - line_start + 1);
    }
//@ fn PieceTable::max_coord
    requires self.wf()
    ensures coord_of(self.bytes(), result, if self.bytes().len() == 0 { 0 } else { self.bytes().len() - 1 })
//@ fn PieceTable::coord_to_offset
    requires self.wf()
    ensures
        coords.l == 0 ==> result == Some(0usize),
        coords.l > 0 ==> (result is Some <==> exists_at(self.bytes(), coords)),
        coords.l > 0 && result is Some ==> result->0 == offset_of(self.bytes(), coords),
        result is Some ==> result->0 <= self.bytes().len(),
//@ entry
    proof {
        broadcast use axiom_graphemes;
        let b = self.bytes();
        lemma_nl(self.newlines@, b);
        lemma_nl_count(self.newlines@, b);
        if 1 <= coords.l <= nlines(b) { lemma_line(b, coords.l as int); lemma_gcount(line(b, coords.l as int)); }
    }
//@ fn PieceTable::char_at_offset
    requires self.wf(), offset <= self.bytes().len()
    ensures
        offset == self.bytes().len() ==> result is None,
        offset < self.bytes().len() ==> ({
            let b = self.bytes();
            let e = lend(b, line_at(b, offset as int));
            result is Some && result->0@ == gtext(b.subrange(offset as int, if e > offset { e } else { offset + 1 }), 0)
        }),
//@ entry
    proof {
        broadcast use axiom_graphemes;
        let b = self.bytes();
        lemma_nl(self.newlines@, b);
        lemma_nl_count(self.newlines@, b);
        lemma_below(self.newlines@, offset as int);
        if offset < b.len() { lemma_line_at(b, offset as int); }
    }
//@ fn PieceTable::grapheme_start
    requires self.wf()
    ensures
        offset >= self.bytes().len() ==> result == 0,
        offset < self.bytes().len() ==> result <= offset && result <= self.bytes().len() && exists|p: Coords| coord_of(self.bytes(), p, offset as int) && result == #[trigger] offset_of(self.bytes(), p),
//@ entry
    proof { assert forall|p: Coords| #[trigger] coord_of(self.bytes(), p, offset as int) implies exists_at(self.bytes(), p) && offset_of(self.bytes(), p) <= offset by { lemma_back_and_there(self.bytes(), p, offset as int); } }
//@ fn PieceTable::char_at
//@ rewrite impl Into < Coords > => Coords
//@ rewrite coords . into ( ) => coords
    requires self.wf()
    ensures
        coords.l > 0 ==> (result is Some <==> exists_at(self.bytes(), coords) && offset_of(self.bytes(), coords) < self.bytes().len()),
