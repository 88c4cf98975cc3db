//@ include bytes.vrs
//@ include range.vrs
//@ sources values values_from iter_from find_iter match_indices
//@ arena self.pieces
//@ rewrite String :: from_utf8_lossy ( $$x ) . into ( ) => vx_lossy($$x)
//@ rewrite . concat ( ) => .vx_concat()
//@ rewrite . sort_unstable ( ) => .vx_sort()
//@ source core/src/editor/piece_table/mod.rs
//@ struct Piece Clone,Copy
//@ enum Action Clone,Copy,PartialEq,Structural,Eq
//@ include rbt.vrs
//@ struct PieceTable
//@ include ptspec.vrs
//@ include ptedit.vrs

//@ fn Piece::offset
    ensures result.offset == offset
//@ fn Piece::end
    requires self.start + self.length <= usize::MAX
    ensures result == self.start + self.length
//@ fn Piece::contains
    requires self.offset + self.length <= usize::MAX
    ensures result == hasoff(*self, offset as int)
//@ fn Piece::split
    requires hasoff(self, offset as int), self.offset + self.length + length <= usize::MAX,
        self.start + self.length <= usize::MAX
    ensures
        result.0 is None <==> offset == self.offset,
        ({ let d = offset - self.offset;
           &&& result.0 matches Some(p) ==> p == Piece { offset: self.offset, start: self.start, length: d as usize, original: self.original }
           &&& result.1 == Piece { offset: (offset + length) as usize, start: (self.start + d) as usize, length: (self.length - d) as usize, original: self.original }
        }),
//@ fn Piece::truncate
    requires offset + length <= usize::MAX, self.offset + self.length <= CAP(), self.start + self.length <= CAP(),
    ensures
        result.0 is Some <==> hasoff(self, offset as int) && self.offset != offset,
        result.0 matches Some(p) ==> p == (Piece { offset: self.offset, start: self.start, length: (offset - self.offset) as usize, original: self.original }),
        result.1 is Some <==> hasoff(self, offset + length),
        result.1 matches Some(p) ==> ({ let d = offset + length - self.offset;
           p == Piece { offset: offset, start: (self.start + d) as usize, length: (self.length - d) as usize, original: self.original } }),
//@ fn Piece::ranged
    requires range.rok(), 0 <= range.rs() <= range.re(), self.offset + self.length <= CAP(), self.start + self.length <= CAP(),
        range.rs() < self.offset + self.length, self.offset < range.re() || hasoff(self, range.rs())
    ensures ({
        let lo = if range.rs() > self.offset { range.rs() - self.offset } else { 0 };
        let hi = if range.re() < self.offset + self.length { range.re() - self.offset } else { self.length as int };
        result.start == self.start + lo && result.length == hi - lo && result.original == self.original
    })
//@ fn Ord@Piece::cmp
    ensures result == (if self.offset < other.offset { core::cmp::Ordering::Less } else if self.offset == other.offset { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
//@ fn PartialOrd@Piece::partial_cmp
    ensures result == Some(if self.offset < other.offset { core::cmp::Ordering::Less } else if self.offset == other.offset { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
//@ fn PartialEq@Piece::eq
    requires other.offset + other.length <= usize::MAX
    ensures result == hasoff(*other, self.offset as int)
//@ fn Consecutive@Piece::consecutive
    requires self.offset + self.length <= usize::MAX, self.start + self.length <= usize::MAX
    ensures result == consec(*self, *other)
//@ fn Consecutive@Piece::merged
    requires self.length + other.length <= usize::MAX
    ensures result == joined(*self, *other)

//@ fn PieceTable::with_text
    requires sbytes(text@).len() <= CAP()
    ensures result.wf(), result.bytes() == sbytes(text@), result.fresh()
//@ entry
    proof { reveal(sd); reveal(tiles); reveal(allok); }
//@ collect 0 BTreeSet
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost nl = src.map_values(|e: (usize, char)| e.0);
    let ghost mut k: int = 0;
    proof { broadcast use axiom_bset; assert(lfs(nl, sbytes(text@))); }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), nl == src.map_values(|e: (usize, char)| e.0),
        forall|y: usize| #[trigger] vx_acc0@.contains(y) <==> exists|i: int| 0 <= i < k && #[trigger] nl[i] == y,
    ensures forall|y: usize| #[trigger] vx_acc0@.contains(y) <==> nl.contains(y),
    decreases src.len() - k
//@ loop 0 end
    proof { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(nl[k] == src[k].0); k = k + 1; }
//@ exit
    proof {
        let o = vx_ret.original@;
        let a = vx_ret.added@;
        let ps = vx_ret.pieces@;
        broadcast use axiom_bset, axiom_vec_cap;
        reveal(tiles); reveal(allok);
        if o.len() > 0 {
            lemma_flat_one(o, a, ps[0]);
            assert(ps =~= seq![ps[0]]);
            assert(pbytes(o, a, ps[0]) =~= o);
        } else {
            lemma_flat_step(o, a, ps);
            assert(flat(o, a, ps) =~= o);
        }
    }
//@ fn PieceTable::new
    ensures result.wf(), result.bytes() == Seq::<u8>::empty(), result.fresh()
//@ exit
    proof { vx_ret.lemma_empty(); }
//@ fn PieceTable::len
    requires self.wf()
    ensures result == self.bytes().len()
//@ loop 0 before
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost mut k: int = 0;
    proof { lemma_flat_step(o, a, ps.take(0)); }
//@ loop 0
    invariant 0 <= k <= ps.len(), vx_it0@ == ps.skip(k), state_ok(o, a, ps, self.newlines@),
        vx_acc0 == flat(o, a, ps.take(k)).len(),
    ensures vx_acc0 == flat(o, a, ps).len(),
    decreases ps.len() - k
//@ loop 0 entry
    proof {
        if k < ps.len() {
            assert(ps.skip(k).skip(1) =~= ps.skip(k + 1));
            assert(ps.take(k + 1).drop_last() =~= ps.take(k));
            lemma_flat_step(o, a, ps.take(k + 1));
            assert(pok(o, a, ps[k])) by { reveal(allok); }
            lemma_take_skip(o, a, ps, k + 1);
        } else { assert(ps.take(k) =~= ps); }
    }
//@ loop 0 end
    proof { k = k + 1; }
//@ fn PieceTable::is_empty
    requires self.wf()
    ensures result == (self.bytes().len() == 0)
//@ entry
    proof { lemma_tiles(self.original@, self.added@, self.pieces@, 0); }

//@ fn PieceTable::commit
    requires old(self).wf()
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(),
        final(self).undo_texts() == old(self).undo_texts().push(old(self).bytes()),
        final(self).redos@.len() == 0, final(self).last_action is None,
        final(self).original@ == old(self).original@, final(self).added@ == old(self).added@, final(self).newlines@ == old(self).newlines@,
//@ entry
    proof { lemma_tiles(self.original@, self.added@, self.pieces@, 0); }
//@ exit
    proof {
        let o = self.original@; let a = self.added@;
        lemma_repacked(o, a, old(self).pieces@, self.pieces@);
        assert(self.undo_texts() =~= old(self).undo_texts().push(old(self).bytes()));
        assert forall|i: int| 0 <= i < self.undos@.len() implies state_ok(o, a, (#[trigger] self.undos@[i]).0@, self.undos@[i].1@) by {
            if i < old(self).undos@.len() { assert(self.undos@[i] == old(self).undos@[i]); }
        }
    }
//@ fn PieceTable::action
    requires old(self).wf()
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).stepped(*old(self), action),
        final(self).original@ == old(self).original@, final(self).added@ == old(self).added@, final(self).newlines@ == old(self).newlines@,
//@ fn PieceTable::start_bulk
    requires old(self).wf()
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).stepped(*old(self), Action::Bulk),
//@ fn PieceTable::end_bulk
    requires old(self).wf()
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).undo_texts() == old(self).undo_texts(),
        final(self).redo_texts() == old(self).redo_texts(), final(self).last_action is None,
//@ fn PieceTable::undo
    requires old(self).wf()
    ensures final(self).wf(),
        result == (old(self).undo_texts().len() > 0),
        !result ==> final(self).bytes() == old(self).bytes() && final(self).same_history(*old(self)),
        result ==> {
            &&& final(self).bytes() == old(self).undo_texts().last()
            &&& final(self).undo_texts() == old(self).undo_texts().drop_last()
            &&& final(self).redo_texts() == old(self).redo_texts().push(old(self).bytes())
            &&& final(self).last_action is None
        },
//@ exit
    proof {
        if vx_ret {
            let o = self.original@; let a = self.added@;
            assert(self.undo_texts() =~= old(self).undo_texts().drop_last());
            assert(self.redo_texts() =~= old(self).redo_texts().push(old(self).bytes()));
            assert forall|i: int| 0 <= i < self.redos@.len() implies state_ok(o, a, (#[trigger] self.redos@[i]).0@, self.redos@[i].1@) by {
                if i < old(self).redos@.len() { assert(self.redos@[i] == old(self).redos@[i]); }
            }
        }
    }
//@ fn PieceTable::redo
    requires old(self).wf()
    ensures final(self).wf(),
        result == (old(self).redo_texts().len() > 0),
        !result ==> final(self).bytes() == old(self).bytes() && final(self).same_history(*old(self)),
        result ==> {
            &&& final(self).bytes() == old(self).redo_texts().last()
            &&& final(self).redo_texts() == old(self).redo_texts().drop_last()
            &&& final(self).undo_texts() == old(self).undo_texts().push(old(self).bytes())
            &&& final(self).last_action is None
        },
//@ exit
    proof {
        if vx_ret {
            let o = self.original@; let a = self.added@;
            assert(self.redo_texts() =~= old(self).redo_texts().drop_last());
            assert(self.undo_texts() =~= old(self).undo_texts().push(old(self).bytes()));
            assert forall|i: int| 0 <= i < self.undos@.len() implies state_ok(o, a, (#[trigger] self.undos@[i]).0@, self.undos@[i].1@) by {
                if i < old(self).undos@.len() { assert(self.undos@[i] == old(self).undos@[i]); }
            }
        }
    }

//@ fn PieceTable::range
    requires self.wf(), range.rok(), 0 <= range.rs() <= range.re()
    ensures
        result is None <==> range.rs() >= self.bytes().len(),
        result matches Some(v) ==> v@ == self.bytes().subrange(range.rs(), if range.re() <= self.bytes().len() { range.re() } else { self.bytes().len() as int }),
//@ entry
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost b = self.bytes();
    proof {
        lemma_tiles(o, a, ps, 0);
        lemma_range_at(o, a, ps, range.rs());
    }
//@ loop 0 before
    let ghost i0 = node_idx(start_piece);
    let ghost mut k: int = 0;
    let ghost rs = range.rs();
    let ghost re = range.re();
    proof { assert(b.subrange(rs, rs) =~= cat(Seq::<&[u8]>::empty())); lemma_piece(o, a, ps, i0); assert(vx_it0@ == ps.skip(i0)); }
//@ loop 0
    invariant_except_break vx_it0@ == ps.skip(i0).skip(k),
    invariant 0 <= i0 < ps.len(), 0 <= k <= ps.len() - i0,
        o == self.original@, a == self.added@, ps == self.pieces@, b == self.bytes(), self.wf(),
        rs == range.rs(), re == range.re(), range.rok(), 0 <= rs <= re, rs < b.len(), hasoff(ps[i0], rs),
        rs <= cut(ps, i0, k, rs, re) <= re, cut(ps, i0, k, rs, re) <= b.len(),
        cat(vx_acc0@) == b.subrange(rs, cut(ps, i0, k, rs, re)),
    ensures cat(vx_acc0@) == b.subrange(rs, if re <= b.len() { re } else { b.len() as int })
    decreases ps.len() - i0 - k
//@ loop 0 entry
    let ghost acc = vx_acc0@;
    proof {
        lemma_tiles(o, a, ps, 0);
        if k > 0 { lemma_piece(o, a, ps, i0 + k - 1); }
        if i0 + k < ps.len() {
            lemma_piece(o, a, ps, i0 + k);
            assert(ps.skip(i0).skip(k)[0] == ps[i0 + k]);
            assert(ps.skip(i0).skip(k).skip(1) =~= ps.skip(i0).skip(k + 1));
        }
    }
//@ loop 0 end
    proof {
        lemma_cat_push(acc, vx_e3);
        lemma_cut(o, a, ps, i0, k, rs, re, vx_e3@);
        k = k + 1;
    }
//@ fn PieceTable::text
    requires self.wf()
    ensures result@ == lossy(self.bytes())
//@ loop 0 before
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost mut k: int = 0;
    proof { lemma_flat_step(o, a, ps.take(0)); assert(cat(Seq::<&[u8]>::empty()) =~= flat(o, a, ps.take(0))); }
//@ loop 0
    invariant 0 <= k <= ps.len(), vx_it0@ == ps.skip(k), o == self.original@, a == self.added@, ps == self.pieces@, self.wf(),
        cat(vx_acc0@) == flat(o, a, ps.take(k)),
    ensures cat(vx_acc0@) == self.bytes(),
    decreases ps.len() - k
//@ loop 0 entry
    let ghost acc = vx_acc0@;
    proof {
        if k < ps.len() {
            lemma_piece(o, a, ps, k);
            assert(ps.skip(k).skip(1) =~= ps.skip(k + 1));
            assert(ps.take(k + 1).drop_last() =~= ps.take(k));
            lemma_flat_step(o, a, ps.take(k + 1));
        } else { assert(ps.take(k) =~= ps); }
    }
//@ loop 0 end
    proof { lemma_cat_push(acc, vx_e1); k = k + 1; }
//@ fn PieceTable::text_range
    requires self.wf(), range.rok(), 0 <= range.rs() <= range.re()
    ensures
        result is None <==> range.rs() >= self.bytes().len(),
        result matches Some(v) ==> v@ == lossy(self.bytes().subrange(range.rs(), if range.re() <= self.bytes().len() { range.re() } else { self.bytes().len() as int })),
//@ fn PieceTable::max_offset
    requires self.wf()
    ensures result == (if self.bytes().len() == 0 { 0 } else { self.bytes().len() - 1 })
//@ fn PieceTable::line_count
    requires self.wf()
    ensures result == nlines(self.bytes())
//@ entry
    proof { lemma_nl(self.newlines@, self.bytes()); lemma_nl_count(self.newlines@, self.bytes()); }
//@ fn PieceTable::line_bytes
    requires self.wf()
    ensures result is None <==> (n == 0 || n > nlines(self.bytes())),
        result matches Some(v) ==> v@ == line(self.bytes(), n as int),
//@ entry
    proof {
        lemma_nl(self.newlines@, self.bytes());
        lemma_nl_count(self.newlines@, self.bytes());
        if 1 <= n <= nlines(self.bytes()) { lemma_line(self.bytes(), n as int); }
    }
//@ exit
    proof {
        if vx_ret is Some { assert(vx_ret->0@ =~= line(self.bytes(), n as int)); }
    }
//@ fn PieceTable::line_text
    requires self.wf()
    ensures result is None <==> (n == 0 || n > nlines(self.bytes())),
        result matches Some(v) ==> v@ == lossy(line(self.bytes(), n as int)),
//@ fn PieceTable::line_length
    requires self.wf(), index >= 1
    ensures index <= nlines(self.bytes()) ==> result == line(self.bytes(), index as int).len(),
        index == nlines(self.bytes()) + 1 && index > 1 && self.bytes().last() == 10u8 ==> result == 0,
//@ entry
    proof {
        lemma_nl(self.newlines@, self.bytes());
        lemma_nl_count(self.newlines@, self.bytes());
        if 1 <= index <= nlines(self.bytes()) { lemma_line(self.bytes(), index as int); }
        let nl = self.newlines@;
        if 0 < index - 1 < nl.len() { assert(nl[index - 2] < nl[index - 1]); }
        if index > 1 && index - 2 < nl.len() { assert(nl[index - 2] < self.bytes().len()); }
        if nl.len() > 0 && self.bytes().last() == 10u8 { lemma_last_nl(nl, self.bytes()); }
    }
//@ fn PieceTable::longest_line
    requires self.wf()
    ensures
        result.0 == 0 ==> result.1 == 0 && forall|n: int| 1 <= n <= nlines(self.bytes()) ==> (#[trigger] line(self.bytes(), n)).len() == 0,
        result.0 != 0 ==> {
            &&& 1 <= result.0 <= nlines(self.bytes()) && result.1 == line(self.bytes(), result.0 as int).len() && result.1 > 0
            &&& forall|n: int| 1 <= n <= nlines(self.bytes()) ==> (#[trigger] line(self.bytes(), n)).len() <= result.1
            &&& forall|n: int| 1 <= n < result.0 ==> (#[trigger] line(self.bytes(), n)).len() < result.1
        },
//@ entry
    proof { lemma_nl_count(self.newlines@, self.bytes()); }
//@ loop 0 before
    let ghost b = self.bytes();
    let ghost src = vx_it0@;
    let ghost mut k: int = 0;
    proof { lemma_nl(self.newlines@, b); lemma_nl_count(self.newlines@, b); assert(src.skip(0) =~= src); }
//@ loop 0
    invariant self.wf(), b == self.bytes(), 0 <= k <= src.len(), src.len() == nlpos(b).len() + 1, vx_it0@ == src.skip(k), self.newlines@ == nlpos(b),
        forall|i: int| 0 <= i < src.len() ==> #[trigger] src[i] == 1 + i,
        longest.0 <= k, longest.0 <= nlines(b),
        longest.0 == 0 ==> longest.1 == 0 && forall|n: int| 1 <= n <= k && n <= nlines(b) ==> (#[trigger] line(b, n)).len() == 0,
        longest.0 != 0 ==> {
            &&& longest.1 == line(b, longest.0 as int).len() && longest.1 > 0
            &&& forall|n: int| 1 <= n <= k && n <= nlines(b) ==> (#[trigger] line(b, n)).len() <= longest.1
            &&& forall|n: int| 1 <= n < longest.0 ==> (#[trigger] line(b, n)).len() < longest.1
        },
    ensures k == src.len(),
    decreases src.len() - k
//@ loop 0 entry
    proof { lemma_nl_count(self.newlines@, b); if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); } }
//@ loop 0 end
    proof { k = k + 1; }

//@ fn PieceTable::append_bytes
    requires old(self).wf(), old(self).bytes().len() + text@.len() <= CAP()
    ensures final(self).edited(*old(self), Action::Insert, text@.len() > 0, old(self).bytes() + text@)
//@ entry
    proof { if text@.len() == 0 { assert(self.bytes() + text@ =~= self.bytes()); } }
//@ after self . action ( Action :: Insert ) ;
    let ghost pre = *self;
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost b = self.bytes();
    proof {
        broadcast use axiom_vec_cap;
        reveal_strlit("\n");
        lemma_tiles(o, a, ps, 0);
        if ps.len() > 0 { lemma_piece(o, a, ps, ps.len() - 1); }
        lemma_flat_step(o, a, ps);
    }
    let ghost p = Piece { offset: b.len() as usize, start: a.len() as usize, length: text@.len() as usize, original: false };
//@ loop 0 before
    proof { lemma_ins(ps, p, ps.len() as int); assert(ps.insert(ps.len() as int, p) =~= ps.push(p)); }
    let ghost src = vx_it0@;
    let ghost nl0 = self.newlines@;
    let ghost mut k: int = 0;
    proof { lemma_has_lfs(src, text@); lemma_has_lfs(nl0, b); }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), lfs(src, text@), offset == b.len(), b.len() + text@.len() <= CAP(),
        self.pieces@ == ps.push(p), self.original@ == o, self.added@ == a,
        self.undos == pre.undos, self.redos == pre.redos, self.last_action == pre.last_action,
        forall|y: usize| #[trigger] self.newlines@.contains(y) <==> (nl0.contains(y) || has(src, k, y - offset)),
    ensures forall|y: usize| #[trigger] self.newlines@.contains(y) <==> (nl0.contains(y) || has(src, src.len() as int, y - offset)),
    decreases src.len() - k
//@ loop 0 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); lemma_has_step(src, k); assert(src.contains(src[k])); } }
//@ loop 0 end
    proof { k = k + 1; }
//@ loop 0 after
    proof {
        broadcast use axiom_bset;
        let x = text@;
        lemma_has_lfs(nl0, b);
        assert forall|y: usize| #[trigger] self.newlines@.contains(y) <==> {
            ||| y < b.len() && has(nl0, nl0.len() as int, y as int)
            ||| y >= b.len() + x.len() && has(nl0, nl0.len() as int, y - x.len())
            ||| has(src, src.len() as int, y - b.len())
        } by {
            assert(has(nl0, nl0.len() as int, y as int) <==> nl0.contains(y));
            assert(has(nl0, nl0.len() as int, y - x.len()) ==> y - x.len() < b.len());
        }
        lemma_nl_ins(nl0, b, b.len() as int, x, src, self.newlines@);
        assert(b.take(b.len() as int) + x + b.skip(b.len() as int) =~= b + x);
    }
//@ exit
    proof {
        broadcast use axiom_vec_cap;
        let x = text@;
        assert(self.keeps(pre, x));
        assert(self.added@.len() <= CAP());
        self.lemma_keeps(pre, x);
        lemma_grow_tiles(o, a, x, ps, 0);
        lemma_tiles_one(o, a + x, p);
        assert(pbytes(o, a + x, p) =~= x);
        lemma_tiles_concat(o, a + x, ps, seq![p], 0);
        assert(ps.push(p) =~= ps + seq![p]);
    }
//@ fn PieceTable::append
    requires old(self).wf(), old(self).bytes().len() + sbytes(text@).len() <= CAP()
    ensures final(self).edited(*old(self), Action::Insert, text@.len() > 0, old(self).bytes() + sbytes(text@))
//@ entry
    proof { lemma_sbytes_empty(text@); }
//@ fn PieceTable::shift_offset_after
    requires at(old(self).pieces, *node, node_idx(*node)), shiftable(old(self).pieces@, node_idx(*node), value as int),
    ensures final(self).pieces@ == shifted(old(self).pieces@, node_idx(*node), value as int),
        set_ver(final(self).pieces) == set_ver(old(self).pieces),
        *final(self) == (PieceTable { pieces: final(self).pieces, ..*old(self) }),
//@ entry
    proof { reveal(shiftable); }
//@ loop 0 before
    let ghost i0 = node_idx(*node);
    let ghost ps = self.pieces@;
    let ghost src = vx_it0@;
    let ghost mut k: int = 0;
    let ghost sv = set_ver(self.pieces);
    proof {
        assert(src.len() == ps.len() - i0 - 1);
        assert forall|i: int| 0 <= i < src.len() implies node_ver(#[trigger] src[i]) == sv && node_idx(src[i]) == i0 + 1 + i by { }
    }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), 0 <= i0 < ps.len(), src.len() == ps.len() - i0 - 1, set_ver(self.pieces) == sv,
        ps == old(self).pieces@, i0 == node_idx(*node), sv == set_ver(old(self).pieces),
        forall|i: int| 0 <= i < src.len() ==> node_ver(#[trigger] src[i]) == sv && node_idx(src[i]) == i0 + 1 + i,
        self.pieces@.len() == ps.len(),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] self.pieces@[i]) == (if i0 < i <= i0 + k { moved(ps[i], value as int) } else { ps[i] }),
        *self == (PieceTable { pieces: self.pieces, ..*old(self) }),
        forall|i: int| i0 < i < ps.len() ==> 0 <= (#[trigger] ps[i]).offset + value <= CAP() && ps[i].offset <= CAP(),
    ensures k == src.len(),
    decreases src.len() - k
//@ loop 0 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); assert(ps[i0 + 1 + k].offset <= CAP()); } }
//@ loop 0 end
    proof { k = k + 1; }
//@ exit
    proof {
        assert(self.pieces@ =~= shifted(old(self).pieces@, node_idx(*node), value as int)) by {
            if value == 0 {
                assert forall|i: int| 0 <= i < self.pieces@.len() implies #[trigger] moved(self.pieces@[i], 0) == self.pieces@[i] by {}
            }
        }
    }
//@ fn PieceTable::insert_bytes
    requires old(self).wf(), old(self).bytes().len() + text@.len() <= CAP()
    ensures final(self).edited(*old(self), Action::Insert, text@.len() > 0, ins_text(old(self).bytes(), offset as int, text@))
//@ collect 0 BTreeSet
//@ entry
    proof { if text@.len() == 0 {
        let b = self.bytes();
        assert(b + text@ =~= b);
        if offset < b.len() { assert(b.take(offset as int) + text@ + b.skip(offset as int) =~= b); }
    } }
//@ after self . action ( Action :: Insert ) ;
    let ghost pre = *self;
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost b = self.bytes();
    let ghost nl0 = self.newlines@;
    let ghost x = text@;
    let ghost l = text@.len() as int;
    let ghost new0 = Piece { offset, start: a.len() as usize, length: text@.len() as usize, original: false };
    proof {
        broadcast use axiom_vec_cap;
        reveal_strlit("\n");
        lemma_tiles(o, a, ps, 0);
        lemma_range_at(o, a, ps, offset as int);
    }
//@ after self . added . extend ( text ) ;
    let ghost kk = node_idx(*node);
    proof {
        broadcast use axiom_vec_cap;
        assert(self.added@.len() <= CAP());
        lemma_piece(o, a, ps, kk);
        lemma_ins_steps(o, a, ps, kk, offset as int, new0);
        lemma_insert(o, a, x, ps, kk, offset as int, new0);
        reveal(shiftable);
        assert forall|i: int| kk < i < ps.len() implies 0 <= (#[trigger] ps[i]).offset + l <= CAP() && ps[i].offset <= CAP() by {}
    }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k: int = 0;
    proof { assert(self.pieces@ == ps.take(kk) + ins_mid(ps[kk], offset as int, new0) + shiftall(ps.skip(kk + 1), l)); }
    proof { lemma_nl(nl0, b); }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == nl0.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == nl0[i],
        new == new0, new0.length == l, l == x.len(), b.len() + x.len() <= CAP(),
        forall|i: int| 0 <= i < nl0.len() ==> (#[trigger] nl0[i]) < b.len(),
        forall|y: usize| #[trigger] vx_acc0@.contains(y) <==> {
            ||| y < offset && has(nl0, k, y as int)
            ||| y >= offset + l && has(nl0, k, y - l)
        },
    ensures forall|y: usize| #[trigger] vx_acc0@.contains(y) <==> {
            ||| y < offset && has(nl0, nl0.len() as int, y as int)
            ||| y >= offset + l && has(nl0, nl0.len() as int, y - l)
        },
    decreases src.len() - k
//@ loop 0 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); lemma_has_step(nl0, k); assert(nl0[k] < b.len()); } }
//@ loop 0 end
    proof { k = k + 1; }
//@ loop 1 before
    let ghost src = vx_it1@;
    let ghost nlx = src;
    let ghost mut k: int = 0;
    proof { lemma_nl(src, x); }
//@ loop 1
    invariant 0 <= k <= src.len(), vx_it1@ == src.skip(k), offset < b.len(), b.len() + x.len() <= CAP(),
        forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i]) < x.len(),
        vx_acc1@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] vx_acc1@[i] == src[i] + offset,
    ensures k == src.len(),
    decreases src.len() - k
//@ loop 1 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); assert(src[k] < x.len()); } }
//@ loop 1 end
    proof { k = k + 1; }
//@ loop 1 after
    let ghost vxs = vx_acc1@;
    proof {
        assert forall|y: usize| #[trigger] vxs.contains(y) <==> has(nlpos(x), nlpos(x).len() as int, y - offset) by {
            if vxs.contains(y) { let i = choose|i: int| 0 <= i < vxs.len() && vxs[i] == y; assert(src[i] == y - offset); }
            if has(src, src.len() as int, y - offset) { let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == y - offset; assert(vxs[i] == y); }
        }
    }
//@ exit
    proof {
        if offset < b.len() {
            broadcast use axiom_bset;
            assert(self.keeps(pre, x));
            self.lemma_keeps(pre, x);
            lemma_nlpos(x);
            lemma_nl_ins(nl0, b, offset as int, x, nlpos(x), self.newlines@);
            assert(self.bytes() == ins_text(b, offset as int, x));
            assert(self.bytes().len() == b.len() + x.len());
            assert(self.wf());
            self.lemma_step_same(pre, *old(self), Action::Insert);
        } else {
            self.lemma_step_again(pre, *old(self), Action::Insert);
        }
    }
//@ fn PieceTable::insert
    requires old(self).wf(), old(self).bytes().len() + sbytes(text@).len() <= CAP()
    ensures final(self).edited(*old(self), Action::Insert, text@.len() > 0, ins_text(old(self).bytes(), offset as int, sbytes(text@)))
//@ entry
    proof { lemma_sbytes_empty(text@); }
//@ fn PieceTable::delete #[verifier::rlimit(100)]
    requires old(self).wf(), range.rok(), 0 <= range.rs() <= range.re() <= CAP()
    ensures final(self).edited(*old(self), Action::Delete, range.rs() < range.re(), if range.rs() < range.re() { del_text(old(self).bytes(), range.rs(), range.re()) } else { old(self).bytes() })
//@ collect 2 BTreeSet
//@ after self . action ( Action :: Delete ) ;
    let ghost pre = *self;
    let ghost o = self.original@;
    let ghost a = self.added@;
    let ghost ps = self.pieces@;
    let ghost b = self.bytes();
    let ghost nl0 = self.newlines@;
    let ghost rs = range.rs();
    let ghost re = range.re();
    let ghost d = range.re() - range.rs();
    proof {
        lemma_tiles(o, a, ps, 0);
        lemma_range_at(o, a, ps, rs);
        lemma_flat_step(o, a, Seq::empty());
        assert(a + Seq::<u8>::empty() =~= a);
    }
//@ after self . newlines . clear ( ) ;
    proof {
        let ps1 = self.pieces@;
        lemma_flat_step(o, a, ps1);
        reveal(tiles); reveal(allok);
        assert(self.keeps(pre, Seq::empty()));
        self.lemma_keeps(pre, Seq::empty());
        assert(del_text(b, rs, re) =~= Seq::<u8>::empty());
        assert(self.bytes() == Seq::<u8>::empty());
        assert forall|x: usize| #[trigger] self.newlines@.contains(x) <==> (x < self.bytes().len() && self.bytes()[x as int] == 10u8) by {}
        assert(self.wf());
        self.lemma_step_same(pre, *old(self), Action::Delete);
    }
//@ loop 0 before
    let ghost i0 = node_idx(start_node);
    let ghost mut k: int = 0;
    proof { assert(vx_it0@ == ps.skip(i0)); lemma_piece(o, a, ps, i0); }
//@ loop 0
    invariant_except_break vx_it0@ == ps.skip(i0).skip(k),
    invariant 0 <= i0 < ps.len(), 0 <= k <= ps.len() - i0,
        re == range.re(), range.rok(), rs < re, hasoff(ps[i0], rs), rs == range.rs(), rs >= 0,
        vx_acc0@ == ps.subrange(i0, i0 + k),
        k > 0 ==> ps[i0 + k - 1].offset < re,
        k == 0 ==> ps[i0].offset < re,
    ensures i0 + k < ps.len() ==> ps[i0 + k].offset >= re, k > 0,
    decreases ps.len() - i0 - k
//@ loop 0 entry
    proof {
        if i0 + k < ps.len() {
            assert(ps.skip(i0).skip(k)[0] == ps[i0 + k]);
            assert(ps.skip(i0).skip(k).skip(1) =~= ps.skip(i0).skip(k + 1));
            assert(ps.subrange(i0, i0 + k).push(ps[i0 + k]) =~= ps.subrange(i0, i0 + k + 1));
        }
    }
//@ loop 0 end
    proof { k = k + 1; }
//@ before let (head, _)
    let ghost i0 = node_idx(start_node);
    let ghost jj = i0 + pieces@.len();
    proof {
        assert(pieces@[0] == ps[i0]);
        assert(pieces@[pieces@.len() - 1] == ps[jj - 1]);
        lemma_piece(o, a, ps, i0);
        lemma_piece(o, a, ps, jj - 1);
        lemma_stages(o, a, ps, i0, jj, rs, re);
    }
    let ghost nh: int = if rs != ps[i0].offset { 1 } else { 0 };
    let ghost nt: int = if hasoff(ps[jj - 1], re) { 1 } else { 0 };
//@ loop 1 before
    let ghost src = vx_it1@;
    let ghost mut k: int = 0;
    proof {
        lemma_cutout(ps, i0, i0);
        assert forall|i: int| 0 <= i < src.len() implies *(#[trigger] src[i]) == ps[i0 + i] by {}
    }
//@ loop 1
    invariant 0 <= k <= src.len(), vx_it1@ == src.skip(k), i0 + src.len() == jj, 0 <= i0 < jj <= ps.len(), sd(ps),
        forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == ps[i0 + i],
        self.pieces@ == cutout(ps, i0, i0 + k),
        *self == (PieceTable { pieces: self.pieces, ..pre }),
    ensures k == src.len(),
    decreases src.len() - k
//@ loop 1 entry
    proof { if k < src.len() {
        assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]);
        lemma_cutout(ps, i0, i0 + k);
    } }
//@ loop 1 end
    proof { k = k + 1; }
//@ after let mut last_node = None ;
    proof {
        assert(self.pieces@ == cutout(ps, i0, jj));
        assert(head is Some <==> nh == 1);
        assert(head is Some ==> head->0 == head_piece(ps[i0], rs));
        assert(tail is Some <==> nt == 1);
        assert(tail is Some ==> tail->0 == tail_piece(ps[jj - 1], rs, re));
    }
//@ before if let Some ( ln ) = last_node
    proof {
        assert(self.pieces@ == del_r2(ps, i0, jj, rs, re));
        assert(last_node is Some <==> nh + nt > 0);
        assert(last_node is Some ==> at(self.pieces, last_node->0, i0 + nh + nt - 1));
        assert(*self == PieceTable { pieces: self.pieces, ..pre });
    }
//@ after self . shift_offset_after ( & ln , - ( range . len ( ) as i64 ) ) ;
    proof { assert(self.pieces@ == del_done(ps, i0, jj, rs, re)); }
//@ before self . shift_offset_after ( & next_node , - ( range . len ( ) as i64 ) ) ;
    proof {
        assert(node_idx(next_node) == i0);
        let r2 = del_r2(ps, i0, jj, rs, re);
        assert(self.pieces@ == r2.update(i0, moved(r2[i0], -d)));
    }
//@ after self . shift_offset_after ( & next_node , - ( range . len ( ) as i64 ) ) ;
    proof { assert(self.pieces@ == del_done(ps, i0, jj, rs, re)); }
//@ loop 2 before
    let ghost src = vx_it2@;
    let ghost mut k: int = 0;
    proof { assert(self.pieces@ == del_done(ps, i0, jj, rs, re)); assert(*self == PieceTable { pieces: self.pieces, ..pre }); }
//@ loop 2
    invariant 0 <= k <= src.len(), vx_it2@ == src.skip(k), src.len() == nl0.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == nl0[i],
        range.rok(), rs == range.rs(), re == range.re(), 0 <= rs < re, re <= CAP(), d == re - rs,
        forall|y: usize| #[trigger] vx_acc2@.contains(y) <==> {
            ||| y < rs && has(nl0, k, y as int)
            ||| y >= rs && has(nl0, k, y + d)
        },
    ensures forall|y: usize| #[trigger] vx_acc2@.contains(y) <==> {
            ||| y < rs && has(nl0, nl0.len() as int, y as int)
            ||| y >= rs && has(nl0, nl0.len() as int, y + d)
        },
    decreases src.len() - k
//@ loop 2 entry
    proof { if k < src.len() { assert(src.skip(k).skip(1) =~= src.skip(k + 1)); assert(src.skip(k)[0] == src[k]); lemma_has_step(nl0, k); } }
//@ loop 2 end
    proof { k = k + 1; }
//@ loop 2 after
    proof {
        broadcast use axiom_bset;
        lemma_nl_del(nl0, b, rs, re, vx_acc2@);
    }
//@ exit
    proof { self.lemma_del_finish(pre, *old(self), rs, re); }
