//@ verus
//once ptspec
// ---- abstraction of the piece table -------------------------------------------
/// longest text considered (offsets are cast to i64 in the code)
spec fn CAP() -> int { 0x7fff_ffff_ffff_ffff }

spec fn store(o: Seq<u8>, a: Seq<u8>, p: Piece) -> Seq<u8> { if p.original { o } else { a } }
spec fn pbytes(o: Seq<u8>, a: Seq<u8>, p: Piece) -> Seq<u8> {
    store(o, a, p).subrange(p.start as int, p.start + p.length)
}
#[verifier::opaque]
spec fn flat(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { flat(o, a, ps.drop_last()) + pbytes(o, a, ps.last()) }
}
spec fn pok(o: Seq<u8>, a: Seq<u8>, p: Piece) -> bool {
    p.length > 0 && p.start + p.length <= store(o, a, p).len()
}
#[verifier::opaque]
spec fn tiles(ps: Seq<Piece>, from: int) -> bool {
    &&& ps.len() > 0 ==> ps[0].offset == from
    &&& forall|i: int| 0 <= i < ps.len() - 1 ==> #[trigger] abut(ps, i)
}
spec fn abut(ps: Seq<Piece>, i: int) -> bool { ps[i + 1].offset == ps[i].offset + ps[i].length }
#[verifier::opaque]
spec fn allok(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> pok(o, a, #[trigger] ps[i])
}
/// pieces and newline index of one state of the text
spec fn state_ok(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, nl: Seq<usize>) -> bool {
    &&& o.len() <= CAP() && a.len() <= CAP()
    &&& allok(o, a, ps)
    &&& tiles(ps, 0)
    &&& flat(o, a, ps).len() <= CAP()
    &&& lfs(nl, flat(o, a, ps))
}
impl PieceTable {
    spec fn bytes(&self) -> Seq<u8> { flat(self.original@, self.added@, self.pieces@) }
    spec fn wf(&self) -> bool {
        &&& state_ok(self.original@, self.added@, self.pieces@, self.newlines@)
        &&& forall|i: int| 0 <= i < self.undos@.len() ==> state_ok(self.original@, self.added@, (#[trigger] self.undos@[i]).0@, self.undos@[i].1@)
        &&& forall|i: int| 0 <= i < self.redos@.len() ==> state_ok(self.original@, self.added@, (#[trigger] self.redos@[i]).0@, self.redos@[i].1@)
    }
    /// the texts that can be undone / redone, last one first out
    spec fn undo_texts(&self) -> Seq<Seq<u8>> {
        Seq::new(self.undos@.len(), |i: int| flat(self.original@, self.added@, self.undos@[i].0@))
    }
    spec fn redo_texts(&self) -> Seq<Seq<u8>> {
        Seq::new(self.redos@.len(), |i: int| flat(self.original@, self.added@, self.redos@[i].0@))
    }
    spec fn fresh(&self) -> bool {
        self.undos@.len() == 0 && self.redos@.len() == 0 && self.last_action is None
    }
    /// history after an edit of kind `act`
    spec fn stepped(&self, old: PieceTable, act: Action) -> bool {
        if old.last_action == Some(Action::Bulk) || old.last_action == Some(act) {
            self.same_history(old)
        } else {
            &&& self.undo_texts() == old.undo_texts().push(old.bytes())
            &&& self.redos@.len() == 0
            &&& self.last_action == Some(act)
        }
    }
    spec fn same_history(&self, old: PieceTable) -> bool {
        &&& self.undo_texts() == old.undo_texts()
        &&& self.redo_texts() == old.redo_texts()
        &&& self.last_action == old.last_action
    }
}

proof fn lemma_flat_step(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>)
    ensures ps.len() == 0 ==> flat(o, a, ps) == Seq::<u8>::empty(),
        ps.len() > 0 ==> flat(o, a, ps) == flat(o, a, ps.drop_last()) + pbytes(o, a, ps.last()),
{
    reveal_with_fuel(flat, 1);
    assert(flat(o, a, ps) =~= (if ps.len() == 0 { Seq::<u8>::empty() } else { flat(o, a, ps.drop_last()) + pbytes(o, a, ps.last()) }));
}
proof fn lemma_flat_concat(o: Seq<u8>, a: Seq<u8>, s: Seq<Piece>, t: Seq<Piece>)
    ensures flat(o, a, s + t) == flat(o, a, s) + flat(o, a, t)
    decreases t.len()
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_flat_step(o, a, t);
    lemma_flat_step(o, a, s + t);
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(flat(o, a, s) + flat(o, a, t) =~= flat(o, a, s));
    } else {
        lemma_flat_concat(o, a, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert(flat(o, a, s) + flat(o, a, t.drop_last()) + pbytes(o, a, t.last()) =~= flat(o, a, s) + flat(o, a, t));
    }
}
proof fn lemma_flat_one(o: Seq<u8>, a: Seq<u8>, p: Piece)
    ensures flat(o, a, seq![p]) == pbytes(o, a, p)
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert(seq![p].drop_last() =~= Seq::<Piece>::empty());
    lemma_flat_step(o, a, Seq::<Piece>::empty());
    lemma_flat_step(o, a, seq![p]);
    assert(flat(o, a, seq![p]) =~= pbytes(o, a, p));
}
/// the end of the tiling is the length of the text
proof fn lemma_tiles(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, from: int)
    requires tiles(ps, from), allok(o, a, ps)
    ensures
        ps.len() > 0 ==> ps.last().offset + ps.last().length == from + flat(o, a, ps).len(),
        ps.len() > 0 <==> flat(o, a, ps).len() > 0,
        sd(ps),
        forall|i: int| 0 <= i < ps.len() ==> from <= (#[trigger] ps[i]).offset && ps[i].offset + ps[i].length <= from + flat(o, a, ps).len(),
    decreases ps.len()
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_flat_step(o, a, ps);
    if ps.len() > 0 {
        let q = ps.drop_last();
        assert(tiles(q, from)) by {
            assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] abut(q, i) by { assert(abut(ps, i)); }
        }
        assert(allok(o, a, q)) by {
            assert forall|i: int| 0 <= i < q.len() implies pok(o, a, #[trigger] q[i]) by { assert(pok(o, a, ps[i])); }
        }
        lemma_tiles(o, a, q, from);
        assert(pok(o, a, ps.last()));
        if q.len() > 0 {
            assert(abut(ps, q.len() - 1));
        }
        assert forall|i: int, j: int| 0 <= i < j < ps.len() implies #[trigger] bef(ps[i], ps[j]) by {
            if j < q.len() { assert(bef(q[i], q[j])); }
            else { assert(q[i].offset + q[i].length <= from + flat(o, a, q).len()); }
        }
        assert forall|i: int| 0 <= i < ps.len() implies from <= (#[trigger] ps[i]).offset && ps[i].offset + ps[i].length <= from + flat(o, a, ps).len() by {
            if i < q.len() { assert(from <= q[i].offset); }
        }
        assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).length > 0 by { assert(pok(o, a, ps[i])); }
    }
}
proof fn lemma_take_skip(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, k: int)
    requires 0 <= k <= ps.len()
    ensures flat(o, a, ps) == flat(o, a, ps.take(k)) + flat(o, a, ps.skip(k))
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert(ps =~= ps.take(k) + ps.skip(k));
    lemma_flat_concat(o, a, ps.take(k), ps.skip(k));
}
/// text before piece k
proof fn lemma_prefix(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, from: int, k: int)
    requires tiles(ps, from), allok(o, a, ps), 0 <= k <= ps.len()
    ensures
        tiles(ps.take(k), from),
        k < ps.len() ==> flat(o, a, ps.take(k)).len() == ps[k].offset - from && tiles(ps.skip(k), ps[k].offset as int),
        allok(o, a, ps.take(k)), allok(o, a, ps.skip(k)),
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = ps.take(k);
    let s = ps.skip(k);
    lemma_flat_step(o, a, t);
    assert(tiles(t, from)) by {
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] abut(t, i) by {
            assert(abut(ps, i));
        }
    }
    assert(allok(o, a, t)) by {
        assert forall|i: int| 0 <= i < t.len() implies pok(o, a, #[trigger] t[i]) by { assert(pok(o, a, ps[i])); }
    }
    assert(allok(o, a, s)) by {
        assert forall|i: int| 0 <= i < s.len() implies pok(o, a, #[trigger] s[i]) by { assert(pok(o, a, ps[k + i])); }
    }
    lemma_tiles(o, a, t, from);
    if k < ps.len() {
        assert(tiles(s, ps[k].offset as int)) by {
            assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] abut(s, i) by {
                assert(abut(ps, k + i));
            }
        }
        if k > 0 {
            let p = ps[k - 1];
            assert(abut(ps, k - 1));
            assert(t.last() == p);
        } else {
            assert(t =~= Seq::<Piece>::empty());
        }
    }
}
/// flat only depends on where the bytes are, not on the offsets
proof fn lemma_flat_ext(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, s: Seq<Piece>, t: Seq<Piece>)
    requires s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> s[i].start == (#[trigger] t[i]).start && s[i].length == t[i].length && s[i].original == t[i].original,
        allok(o, a, s),
        a.len() <= b.len(), a == b.take(a.len() as int),
    ensures flat(o, a, s) == flat(o, b, t), allok(o, b, t)
    decreases s.len()
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_flat_step(o, a, s);
    lemma_flat_step(o, b, t);
    if s.len() > 0 {
        let s1 = s.drop_last();
        let t1 = t.drop_last();
        assert forall|i: int| 0 <= i < s1.len() implies s1[i].start == (#[trigger] t1[i]).start && s1[i].length == t1[i].length && s1[i].original == t1[i].original by { assert(s[i].original == t[i].original); }
        assert forall|i: int| 0 <= i < s1.len() implies pok(o, a, #[trigger] s1[i]) by { assert(pok(o, a, s[i])); }
        lemma_flat_ext(o, a, b, s1, t1);
        let p = s.last();
        assert(pok(o, a, p));
        assert(p.original == t[s.len() - 1].original);
        assert(pbytes(o, a, p) =~= pbytes(o, b, t.last())) by {
            if !p.original {
                assert forall|i: int| 0 <= i < p.length implies #[trigger] a[p.start + i] == b[p.start + i] by { assert(b.take(a.len() as int)[p.start + i] == b[p.start + i]); }
            }
        }
        assert forall|i: int| 0 <= i < t.len() implies pok(o, b, #[trigger] t[i]) by {
            assert(s[i].original == t[i].original); assert(pok(o, a, s[i]));
        }
    }
}
/// growing the second store changes no state
proof fn lemma_grow(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, ps: Seq<Piece>, nl: Seq<usize>)
    requires allok(o, a, ps), a.len() + x.len() <= CAP(),
    ensures flat(o, a + x, ps) == flat(o, a, ps), allok(o, a + x, ps),
        state_ok(o, a, ps, nl) ==> state_ok(o, a + x, ps, nl),
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert(a =~= (a + x).take(a.len() as int));
    lemma_flat_ext(o, a, a + x, ps, ps);
}
impl PieceTable {
    proof fn lemma_empty(&self)
        requires self.pieces@.len() == 0, self.newlines@.len() == 0, self.undos@.len() == 0, self.redos@.len() == 0
        ensures self.wf(), self.bytes() == Seq::<u8>::empty()
    {
        reveal(tiles); reveal(allok); reveal(sd);
        broadcast use axiom_vec_cap;
        lemma_flat_step(self.original@, self.added@, self.pieces@);
        assert(self.bytes() =~= Seq::<u8>::empty());
        assert forall|x: usize| #[trigger] self.newlines@.contains(x) <==> (x < self.bytes().len() && self.bytes()[x as int] == 10u8) by {}
    }
}

proof fn lemma_merge(o: Seq<u8>, a: Seq<u8>, s: Seq<Piece>, i: int)
    requires allok(o, a, s), tiles(s, 0), 0 <= i < s.len() - 1, consec(s[i], s[i + 1]), o.len() <= CAP(), a.len() <= CAP()
    ensures allok(o, a, merge_at(s, i)), tiles(merge_at(s, i), 0), flat(o, a, merge_at(s, i)) == flat(o, a, s),
{
    reveal(tiles); reveal(allok); reveal(sd);
    let x = s[i];
    let y = s[i + 1];
    assert(pok(o, a, x) && pok(o, a, y));
    let j = joined(x, y);
    let h = s.take(i);
    let t = s.skip(i + 2);
    let m = merge_at(s, i);
    assert(m =~= h + seq![j] + t);
    assert(s =~= h + seq![x] + seq![y] + t);
    lemma_flat_concat(o, a, h + seq![j], t);
    lemma_flat_concat(o, a, h, seq![j]);
    lemma_flat_concat(o, a, h + seq![x] + seq![y], t);
    lemma_flat_concat(o, a, h + seq![x], seq![y]);
    lemma_flat_concat(o, a, h, seq![x]);
    lemma_flat_one(o, a, x);
    lemma_flat_one(o, a, y);
    lemma_flat_one(o, a, j);
    assert(pbytes(o, a, j) =~= pbytes(o, a, x) + pbytes(o, a, y));
    assert(flat(o, a, h) + pbytes(o, a, x) + pbytes(o, a, y) =~= flat(o, a, h) + pbytes(o, a, j));
    assert(allok(o, a, m)) by {
        assert forall|k: int| 0 <= k < m.len() implies pok(o, a, #[trigger] m[k]) by {
            if k < i { assert(pok(o, a, s[k])); } else if k > i { assert(pok(o, a, s[k + 1])); }
        }
    }
    assert(tiles(m, 0)) by {
        assert forall|k: int| 0 <= k < m.len() - 1 implies #[trigger] abut(m, k) by {
            if k < i { assert(abut(s, k)); }
            else { assert(abut(s, k + 1)); }
            assert(abut(s, i));
        }
    }
}
proof fn lemma_merges(o: Seq<u8>, a: Seq<u8>, s: Seq<Piece>, is: Seq<int>)
    requires merges_ok(s, is), allok(o, a, s), tiles(s, 0), o.len() <= CAP(), a.len() <= CAP()
    ensures allok(o, a, merges(s, is)), tiles(merges(s, is), 0), flat(o, a, merges(s, is)) == flat(o, a, s)
    decreases is.len()
{
    reveal(tiles); reveal(allok); reveal(sd);
    if is.len() > 0 {
        lemma_merges(o, a, s, is.drop_last());
        lemma_merge(o, a, merges(s, is.drop_last()), is.last());
    }
}
proof fn lemma_repacked(o: Seq<u8>, a: Seq<u8>, s: Seq<Piece>, t: Seq<Piece>)
    requires repacked(s, t), allok(o, a, s), tiles(s, 0), o.len() <= CAP(), a.len() <= CAP()
    ensures allok(o, a, t), tiles(t, 0), flat(o, a, t) == flat(o, a, s)
{
    reveal(tiles); reveal(allok); reveal(sd);
    let is = choose|is: Seq<int>| #[trigger] merges_ok(s, is) && t == merges(s, is);
    lemma_merges(o, a, s, is);
}

/// the bytes a piece contributes
proof fn lemma_piece(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, j: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= j < ps.len()
    ensures ps[j].offset + ps[j].length <= flat(o, a, ps).len(),
        flat(o, a, ps).subrange(ps[j].offset as int, ps[j].offset + ps[j].length) == pbytes(o, a, ps[j]),
        pbytes(o, a, ps[j]).len() == ps[j].length,
        j + 1 < ps.len() ==> ps[j + 1].offset == ps[j].offset + ps[j].length,
        j + 1 == ps.len() ==> flat(o, a, ps).len() == ps[j].offset + ps[j].length,
        ps[j].start + ps[j].length <= store(o, a, ps[j]).len(), ps[j].length > 0,
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_tiles(o, a, ps, 0);
    lemma_prefix(o, a, ps, 0, j);
    lemma_take_skip(o, a, ps, j + 1);
    lemma_flat_step(o, a, ps.take(j + 1));
    assert(ps.take(j + 1).drop_last() =~= ps.take(j));
    assert(pok(o, a, ps[j]));
    if j + 1 < ps.len() { assert(abut(ps, j)); }
    assert(flat(o, a, ps).subrange(ps[j].offset as int, ps[j].offset + ps[j].length) =~= pbytes(o, a, ps[j]));
}
proof fn lemma_cat_push(s: Seq<&[u8]>, x: &[u8])
    ensures cat(s.push(x)) == cat(s) + x@
{
    assert(s.push(x).drop_last() =~= s);
}
// ---- lines of a text -----------------------------------------------------------
/// positions of the line feeds
spec fn nlpos(b: Seq<u8>) -> Seq<usize>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else if b.last() == 10u8 { nlpos(b.drop_last()).push((b.len() - 1) as usize) }
    else { nlpos(b.drop_last()) }
}
proof fn lemma_nlpos(b: Seq<u8>)
    requires b.len() <= CAP()
    ensures lfs(nlpos(b), b)
    decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last();
        lemma_nlpos(c);
        let q = nlpos(c);
        let s = nlpos(b);
        assert forall|i: int| 0 <= i < q.len() implies q[i] < c.len() by { assert(q.contains(q[i])); }
        assert forall|x: usize| #[trigger] s.contains(x) <==> (x < b.len() && b[x as int] == 10u8) by {
            if s.contains(x) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                if i < q.len() { assert(q[i] == x); assert(q.contains(x)); }
            }
            if x < b.len() && b[x as int] == 10u8 {
                if x < c.len() { assert(c[x as int] == 10u8); assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(s[i] == x); }
                else { assert(s[s.len() - 1] == x); }
            }
        }
    }
}
proof fn lemma_nl(nl: Seq<usize>, b: Seq<u8>)
    requires lfs(nl, b), b.len() <= CAP()
    ensures nl == nlpos(b),
        forall|i: int| 0 <= i < nl.len() ==> (#[trigger] nl[i]) < b.len() && b[nl[i] as int] == 10u8,
{
    lemma_nlpos(b);
    lemma_incr_unique(nl, nlpos(b));
    assert forall|i: int| 0 <= i < nl.len() implies (#[trigger] nl[i]) < b.len() && b[nl[i] as int] == 10u8 by { assert(nl.contains(nl[i])); }
}
/// how many lines: a line feed at the end closes the last one
spec fn nlines(b: Seq<u8>) -> int {
    if b.len() > 0 && b.last() == 10u8 { nlpos(b).len() as int } else { nlpos(b).len() as int + 1 }
}
/// where the n-th line (from 1) begins and ends (its line feed left out)
spec fn lstart(b: Seq<u8>, n: int) -> int { if n <= 1 { 0 } else { nlpos(b)[n - 2] + 1 } }
spec fn lend(b: Seq<u8>, n: int) -> int { if n - 1 < nlpos(b).len() { nlpos(b)[n - 1] as int } else { b.len() as int } }
spec fn line(b: Seq<u8>, n: int) -> Seq<u8> { b.subrange(lstart(b, n), lend(b, n)) }
proof fn lemma_line(b: Seq<u8>, n: int)
    requires b.len() <= CAP(), 1 <= n <= nlines(b)
    ensures 0 <= lstart(b, n) <= lend(b, n) <= b.len(),
        b.len() > 0 ==> lstart(b, n) < b.len(),
        forall|i: int| lstart(b, n) <= i < lend(b, n) ==> b[i] != 10u8,
        n > 1 ==> b[lstart(b, n) - 1] == 10u8,
        lend(b, n) < b.len() ==> b[lend(b, n)] == 10u8,
        n > 1 ==> lstart(b, n) == lend(b, n - 1) + 1,
{
    lemma_nlpos(b);
    let nl = nlpos(b);
    lemma_nl(nl, b);
    if n > 1 { assert(nl[n - 2] < b.len()); }
    if n - 1 < nl.len() { assert(nl[n - 1] < b.len()); if n > 1 { assert(nl[n - 2] < nl[n - 1]); } }
    if b.len() > 0 && b.last() == 10u8 { assert(nl.contains((b.len() - 1) as usize)); }
    assert forall|i: int| lstart(b, n) <= i < lend(b, n) implies b[i] != 10u8 by {
        if b[i] == 10u8 {
            assert(nl.contains(i as usize));
            let k = choose|k: int| 0 <= k < nl.len() && nl[k] == i as usize;
            if k <= n - 2 { if k < n - 2 { assert(nl[k] < nl[n - 2]); } }
            else { if n - 1 < k { assert(nl[n - 1] < nl[k]); } }
        }
    }
    if n > 1 && n == nl.len() + 1 {
        // the last line feed does not end the text
        assert(b.last() != 10u8);
        assert(nl[n - 2] != b.len() - 1);
    }
}

proof fn lemma_last_nl(nl: Seq<usize>, b: Seq<u8>)
    requires lfs(nl, b), b.len() <= CAP(), b.len() > 0, b.last() == 10u8
    ensures nl.len() > 0, nl.last() == b.len() - 1
{
    lemma_nl(nl, b);
    let x = (b.len() - 1) as usize;
    assert(nl.contains(x));
    let k = choose|k: int| 0 <= k < nl.len() && nl[k] == x;
    if k < nl.len() - 1 { assert(nl[k] < nl[nl.len() - 1]); }
}
proof fn lemma_nl_count(nl: Seq<usize>, b: Seq<u8>)
    requires lfs(nl, b), b.len() <= CAP()
    ensures nl.len() <= b.len(), nl.contains(if b.len() == 0 { 0 } else { (b.len() - 1) as usize }) <==> (b.len() > 0 && b.last() == 10u8),
{
    lemma_nl(nl, b);
    lemma_incr_bound(nl, b.len() as int);
}
proof fn lemma_incr_bound(s: Seq<usize>, m: int)
    requires incr(s), m >= 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < m
    ensures s.len() <= m
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s.last() as int;
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) < l by { assert(s[i] < s[s.len() - 1]); }
        lemma_incr_bound(t, l);
    }
}
/// up to where `k` pieces from `i0` on reach into rs..re
spec fn cut(ps: Seq<Piece>, i0: int, k: int, rs: int, re: int) -> int {
    if k == 0 { rs } else {
        let e = ps[i0 + k - 1].offset + ps[i0 + k - 1].length;
        if e < re { e } else { re }
    }
}
/// a piece holds every offset of the text
proof fn lemma_range_at(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, off: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= off
    ensures (exists|i: int| 0 <= i < ps.len() && hasoff(#[trigger] ps[i], off)) <==> off < flat(o, a, ps).len(),
    decreases ps.len()
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_tiles(o, a, ps, 0);
    lemma_flat_step(o, a, ps);
    if ps.len() > 0 {
        lemma_prefix(o, a, ps, 0, ps.len() - 1);
        let q = ps.take(ps.len() - 1);
        assert(q =~= ps.drop_last());
        lemma_range_at(o, a, q, off);
        if off < flat(o, a, ps).len() {
            if off < flat(o, a, q).len() {
                let i = choose|i: int| 0 <= i < q.len() && hasoff(#[trigger] q[i], off);
                assert(hasoff(ps[i], off));
            } else {
                assert(hasoff(ps[ps.len() - 1], off));
            }
        }
        assert forall|i: int| 0 <= i < ps.len() && hasoff(#[trigger] ps[i], off) implies off < flat(o, a, ps).len() by {}
    }
}

proof fn lemma_cut(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i0: int, k: int, rs: int, re: int, v: Seq<u8>)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i0, 0 <= k, i0 + k < ps.len(), hasoff(ps[i0], rs), rs <= re,
        ps[i0 + k].offset < re,
        ({
            let p = ps[i0 + k];
            let lo = if rs > p.offset { rs - p.offset } else { 0 };
            let hi = if re < p.offset + p.length { re - p.offset } else { p.length as int };
            v =~= store(o, a, p).subrange(p.start + lo, p.start + hi)
        })
    ensures
        rs <= cut(ps, i0, k, rs, re) <= cut(ps, i0, k + 1, rs, re) <= re, cut(ps, i0, k + 1, rs, re) <= flat(o, a, ps).len(),
        flat(o, a, ps).subrange(rs, cut(ps, i0, k, rs, re)) + v == flat(o, a, ps).subrange(rs, cut(ps, i0, k + 1, rs, re)),
{
    reveal(tiles); reveal(allok); reveal(sd);
    let b = flat(o, a, ps);
    let p = ps[i0 + k];
    lemma_piece(o, a, ps, i0);
    lemma_piece(o, a, ps, i0 + k);
    lemma_tiles(o, a, ps, 0);
    if k > 0 {
        lemma_piece(o, a, ps, i0 + k - 1);
        assert(bef(ps[i0], p));
        if k > 1 { assert(bef(ps[i0], ps[i0 + k - 1])); }
    }
    let lo = if rs > p.offset { rs - p.offset } else { 0 };
    let hi = if re < p.offset + p.length { re - p.offset } else { p.length as int };
    let c0 = cut(ps, i0, k, rs, re);
    let c1 = cut(ps, i0, k + 1, rs, re);
    assert(c0 == p.offset + lo);
    assert(c1 == p.offset + hi);
    assert(pbytes(o, a, p).subrange(lo, hi) =~= v);
    assert(b.subrange(c0, c1) =~= b.subrange(p.offset as int, p.offset + p.length).subrange(lo, hi));
    assert(b.subrange(rs, c0) + b.subrange(c0, c1) =~= b.subrange(rs, c1));
}
