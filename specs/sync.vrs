//@ unit sync
//@ include ptfns.vrs
//@ include difffns.vrs
//@ source core/src/editor/piece_table/mod.rs
//@ verus
// ---- one change as a whole ---------------------------------------------------
/// the text after deleting [i, j) and inserting x at i
spec fn repl_text(b: Seq<u8>, i: int, j: int, x: Seq<u8>) -> Seq<u8> {
    ins_text(if i < j { del_text(b, i, j) } else { b }, i, x)
}
impl PieceTable {
    /// one step has been added to the history, holding the text as it was
    spec fn one_step(&self, old: PieceTable) -> bool {
        &&& self.undo_texts() == (if old.last_action == Some(Action::Bulk) { old.undo_texts() } else { old.undo_texts().push(old.bytes()) })
        &&& old.last_action != Some(Action::Bulk) ==> self.redo_texts().len() == 0
        &&& self.last_action is None
    }
}
/// the buffer after `k` steps of a script: what is done of the new text, then what is left of the old one
spec fn mixed(a: Seq<u8>, b: Seq<u8>, i: int, j: int) -> Seq<u8> { b.take(j) + a.skip(i) }
//@ fn PieceTable::replace
    requires old(self).wf(), range.offset + range.length <= CAP(), old(self).bytes().len() + sbytes(text@).len() <= CAP()
    ensures final(self).wf(), final(self).one_step(*old(self)),
        final(self).bytes() == repl_text(old(self).bytes(), range.offset as int, range.offset + range.length, sbytes(text@)),
//@ entry
    proof { lemma_sbytes_empty(text@); }
//@ fn PieceTable::apply_diff
    requires old(self).wf(), old(self).bytes().len() <= SIDE(), sbytes(text@).len() <= SIDE(),
        sbytes(lossy(old(self).bytes())) == old(self).bytes(),
    ensures final(self).wf(), final(self).one_step(*old(self)), final(self).bytes() == sbytes(text@),
//@ entry
    let ghost a = self.bytes();
    let ghost b = sbytes(text@);
    let ghost old_undos = self.undo_texts();
//@ loop 0 before
    let ghost ds = vx_it0@;
    let ghost mut k: int = 0;
    let ghost p0 = *self;
    proof {
        assert(ds.take(0) =~= Seq::<Diff>::empty());
        assert(ds.skip(0) =~= ds);
        assert(mixed(a, b, 0, 0) =~= a);
    }
//@ loop 0
    invariant self.wf(), self.same_history(p0), p0.last_action == Some(Action::Bulk), script(ds, a, b),
        a.len() <= SIDE(), b.len() <= SIDE(), b == sbytes(text@),
        0 <= k <= ds.len(), vx_it0@ == ds.skip(k),
        loffset == roffset, roffset == rpos(ds.take(k)), 
        self.bytes() == mixed(a, b, lpos(ds.take(k)), rpos(ds.take(k))),
    ensures k == ds.len()
    decreases ds.len() - k
//@ loop 0 entry
    let ghost i0 = lpos(ds.take(k));
    let ghost j0 = rpos(ds.take(k));
    proof {
        lemma_script_prefix(ds, k, a, b);
        if k < ds.len() {
            assert(ds.skip(k).skip(1) =~= ds.skip(k + 1)); assert(ds.skip(k)[0] == ds[k]);
            lemma_script_step(ds, k, a, b);
        }
    }
//@ loop 0 end
    proof {
        let i1 = lpos(ds.take(k + 1));
        let j1 = rpos(ds.take(k + 1));
        match ds[k] {
            Diff::Left(n) => { if n > 0 { assert(del_text(mixed(a, b, i0, j0), j0, j0 + n) =~= mixed(a, b, i1, j1)); } }
            Diff::Right(n) => { assert(ins_text(mixed(a, b, i0, j0), j0, b.subrange(j0, j0 + n)) =~= mixed(a, b, i1, j1)); }
            Diff::Both(n) => { assert(mixed(a, b, i0, j0) =~= mixed(a, b, i1, j1)) by {
                assert(a.skip(i0) =~= a.subrange(i0, i1) + a.skip(i1));
                assert(b.take(j1) =~= b.take(j0) + b.subrange(j0, j1));
            } }
        }
        k = k + 1;
    }
//@ loop 0 after
    proof { assert(ds.take(k) =~= ds); assert(mixed(a, b, lpos(ds), rpos(ds)) =~= b); }
