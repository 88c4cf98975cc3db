//@ verus
//once ptedit
// ---- lemmas about edits ----------------------------------------------------------
spec fn has(s: Seq<usize>, k: int, v: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == v }
proof fn lemma_has_step(s: Seq<usize>, k: int)
    requires 0 <= k < s.len()
    ensures forall|v: int| #[trigger] has(s, k + 1, v) <==> (has(s, k, v) || s[k] == v)
{
    assert forall|v: int| #[trigger] has(s, k + 1, v) <==> (has(s, k, v) || s[k] == v) by {
        if has(s, k, v) { let i = choose|i: int| 0 <= i < k && #[trigger] s[i] == v; assert(s[i] == v); }
        if s[k] == v { assert(0 <= k < k + 1); }
    }
}
proof fn lemma_has_lfs(nl: Seq<usize>, b: Seq<u8>)
    requires lfs(nl, b)
    ensures forall|v: int| #[trigger] has(nl, nl.len() as int, v) <==> (0 <= v < b.len() && v <= usize::MAX && b[v] == 10u8)
{
    assert forall|v: int| #[trigger] has(nl, nl.len() as int, v) <==> (0 <= v < b.len() && v <= usize::MAX && b[v] == 10u8) by {
        if has(nl, nl.len() as int, v) { let i = choose|i: int| 0 <= i < nl.len() && #[trigger] nl[i] == v; assert(nl.contains(nl[i])); }
        if 0 <= v < b.len() && v <= usize::MAX && b[v] == 10u8 { assert(nl.contains(v as usize)); let i = choose|i: int| 0 <= i < nl.len() && nl[i] == v as usize; assert(nl[i] == v); }
    }
}
spec fn moved(p: Piece, d: int) -> Piece { Piece { offset: (p.offset + d) as usize, start: p.start, length: p.length, original: p.original } }
/// every piece moved by d
spec fn shiftall(s: Seq<Piece>, d: int) -> Seq<Piece> { Seq::new(s.len(), |i: int| moved(s[i], d)) }
/// the pieces behind the k-th moved by d
spec fn shifted(s: Seq<Piece>, k: int, d: int) -> Seq<Piece> { Seq::new(s.len(), |i: int| if i > k { moved(s[i], d) } else { s[i] }) }

proof fn lemma_ins(s: Seq<Piece>, p: Piece, k: int)
    requires sd(s), 0 <= k <= s.len(), p.length > 0,
        k > 0 ==> s[k - 1].offset + s[k - 1].length <= p.offset,
        k < s.len() ==> p.offset + p.length <= s[k].offset,
    ensures ipos(s, p.offset as int) == k, sd(s.insert(k, p)),
        forall|i: int| 0 <= i < s.len() ==> !hasoff(#[trigger] s[i], p.offset as int),
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert forall|i: int| 0 <= i < k implies (#[trigger] s[i]).offset < p.offset && s[i].offset + s[i].length <= p.offset by {
        assert(s[i].length > 0);
        if i < k - 1 { assert(bef(s[i], s[k - 1])); }
    }
    assert forall|i: int| k <= i < s.len() implies (#[trigger] s[i]).offset >= p.offset + p.length by {
        if i > k { assert(bef(s[k], s[i])); }
    }
    lemma_ipos(s, p.offset as int, k);
    let t = s.insert(k, p);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).length > 0 by {
        if i < k { assert(s[i].length > 0); } else if i > k { assert(s[i - 1].length > 0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] bef(t[i], t[j]) by {
        let i0 = if i < k { i } else { i - 1 };
        let j0 = if j < k { j } else { j - 1 };
        if i != k && j != k { assert(bef(s[i0], s[j0])); }
        else if i == k { assert(s[j0].offset >= p.offset + p.length); }
        else { assert(s[i0].offset + s[i0].length <= p.offset); }
    }
}
proof fn lemma_rem(s: Seq<Piece>, k: int)
    requires sd(s), 0 <= k < s.len()
    ensures sd(s.remove(k))
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = s.remove(k);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).length > 0 by { if i < k { assert(s[i].length > 0); } else { assert(s[i + 1].length > 0); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] bef(t[i], t[j]) by {
        let i0 = if i < k { i } else { i + 1 };
        let j0 = if j < k { j } else { j + 1 };
        assert(bef(s[i0], s[j0]));
    }
}
proof fn lemma_sd_shift(s: Seq<Piece>, k: int, d: int)
    requires sd(s), 0 <= k < s.len(), d >= 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).offset + d <= usize::MAX
    ensures sd(shifted(s, k, d))
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = shifted(s, k, d);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).length > 0 by { assert(s[i].length > 0); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] bef(t[i], t[j]) by {
        assert(bef(s[i], s[j]));
        assert(s[j].offset + d <= usize::MAX);
        assert(s[i].offset + d <= usize::MAX);
    }
}
proof fn lemma_tiles_concat(o: Seq<u8>, a: Seq<u8>, s: Seq<Piece>, t: Seq<Piece>, from: int)
    requires tiles(s, from), tiles(t, from + flat(o, a, s).len()), allok(o, a, s), allok(o, a, t)
    ensures tiles(s + t, from), allok(o, a, s + t), flat(o, a, s + t) == flat(o, a, s) + flat(o, a, t)
{
    reveal(tiles); reveal(allok); reveal(sd);
    let r = s + t;
    lemma_flat_concat(o, a, s, t);
    lemma_tiles(o, a, s, from);
    assert forall|i: int| 0 <= i < r.len() implies pok(o, a, #[trigger] r[i]) by {
        if i < s.len() { assert(pok(o, a, s[i])); } else { assert(pok(o, a, t[i - s.len()])); }
    }
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] abut(r, i) by {
        if i < s.len() - 1 { assert(abut(s, i)); } else if i > s.len() - 1 { assert(abut(t, i - s.len())); }
    }
}
proof fn lemma_tiles_one(o: Seq<u8>, a: Seq<u8>, p: Piece)
    requires pok(o, a, p)
    ensures tiles(seq![p], p.offset as int), allok(o, a, seq![p]), flat(o, a, seq![p]) == pbytes(o, a, p), pbytes(o, a, p).len() == p.length
{
    reveal(tiles); reveal(allok); reveal(sd);
    lemma_flat_one(o, a, p);
}
proof fn lemma_tiles_shift(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, s: Seq<Piece>, from: int, d: int)
    requires tiles(s, from), allok(o, a, s), forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).offset + d <= usize::MAX
    ensures tiles(shiftall(s, d), from + d), allok(o, a + x, shiftall(s, d)), flat(o, a + x, shiftall(s, d)) == flat(o, a, s)
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = shiftall(s, d);
    assert(a =~= (a + x).take(a.len() as int));
    assert forall|i: int| 0 <= i < s.len() implies s[i].start == (#[trigger] t[i]).start && s[i].length == t[i].length && s[i].original == t[i].original by {}
    lemma_flat_ext(o, a, a + x, s, t);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] abut(t, i) by {
        assert(abut(s, i));
        assert(0 <= s[i].offset + d <= usize::MAX);
        assert(0 <= s[i + 1].offset + d <= usize::MAX);
    }
    if s.len() > 0 { assert(0 <= s[0].offset + d <= usize::MAX); }
}
proof fn lemma_grow_tiles(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, s: Seq<Piece>, from: int)
    requires allok(o, a, s)
    ensures allok(o, a + x, s), flat(o, a + x, s) == flat(o, a, s)
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert(a =~= (a + x).take(a.len() as int));
    lemma_flat_ext(o, a, a + x, s, s);
}

/// the pieces at the cut of an insertion
spec fn ins_mid(p: Piece, offset: int, new: Piece) -> Seq<Piece> {
    let d = offset - p.offset;
    let p2 = Piece { offset: (offset + new.length) as usize, start: (p.start + d) as usize, length: (p.length - d) as usize, original: p.original };
    if d == 0 { seq![new, p2] } else {
        seq![Piece { offset: p.offset, start: p.start, length: d as usize, original: p.original }, new, p2]
    }
}
proof fn lemma_ins_mid(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, p: Piece, offset: int, new: Piece)
    requires pok(o, a, p), hasoff(p, offset), x.len() > 0, offset + x.len() + p.length <= usize::MAX, a.len() + x.len() <= CAP(), o.len() <= CAP(),
        new == (Piece { offset: offset as usize, start: a.len() as usize, length: x.len() as usize, original: false }),
    ensures ({
        let m = ins_mid(p, offset, new);
        let v = pbytes(o, a, p);
        let d = offset - p.offset;
        &&& tiles(m, p.offset as int)
        &&& allok(o, a + x, m)
        &&& flat(o, a + x, m) == v.take(d) + x + v.skip(d)
    })
{
    reveal(tiles); reveal(allok); reveal(sd);
    let a1 = a + x;
    let d = offset - p.offset;
    let p2 = Piece { offset: (offset + new.length) as usize, start: (p.start + d) as usize, length: (p.length - d) as usize, original: p.original };
    let p1 = Piece { offset: p.offset, start: p.start, length: d as usize, original: p.original };
    let v = pbytes(o, a, p);
    assert(pok(o, a1, new));
    assert(pok(o, a1, p2));
    assert(pbytes(o, a1, new) =~= x);
    assert(pbytes(o, a1, p2) =~= v.skip(d));
    lemma_tiles_one(o, a1, new);
    lemma_tiles_one(o, a1, p2);
    lemma_tiles_concat(o, a1, seq![new], seq![p2], offset);
    assert(seq![new] + seq![p2] =~= seq![new, p2]);
    let mid = ins_mid(p, offset, new);
    if d > 0 {
        assert(pok(o, a1, p1));
        assert(pbytes(o, a1, p1) =~= v.take(d));
        lemma_tiles_one(o, a1, p1);
        lemma_tiles_concat(o, a1, seq![p1], seq![new, p2], p.offset as int);
        assert(seq![p1] + seq![new, p2] =~= mid);
    }
    assert(flat(o, a1, mid) =~= v.take(d) + x + v.skip(d));
}
proof fn lemma_cut_seq(b: Seq<u8>, h: Seq<u8>, v: Seq<u8>, t: Seq<u8>, d: int, x: Seq<u8>)
    requires b == h + v + t, 0 <= d <= v.len()
    ensures h + (v.take(d) + x + v.skip(d)) + t == b.take(h.len() + d) + x + b.skip(h.len() + d),
{
    let off = h.len() + d;
    assert(b.take(off) =~= h + v.take(d));
    assert(b.skip(off) =~= v.skip(d) + t);
    assert(h + (v.take(d) + x + v.skip(d)) + t =~= h + v.take(d) + x + (v.skip(d) + t));
}
/// pieces behind the k-th, moved
proof fn lemma_tail(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, ps: Seq<Piece>, k: int, at: int, d: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= k <= ps.len(), flat(o, a, ps).len() + d <= CAP(),
        k < ps.len() ==> ps[k].offset == at, at + d >= 0,
    ensures tiles(shiftall(ps.skip(k), d), at + d), allok(o, a + x, shiftall(ps.skip(k), d)), flat(o, a + x, shiftall(ps.skip(k), d)) == flat(o, a, ps.skip(k)),
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = ps.skip(k);
    lemma_tiles(o, a, ps, 0);
    lemma_prefix(o, a, ps, 0, k);
    assert forall|i: int| 0 <= i < t.len() implies 0 <= (#[trigger] t[i]).offset + d <= usize::MAX by {
        assert(t[i] == ps[k + i]);
        assert(0 <= ps[k + i].offset);
        if i > 0 { assert(bef(ps[k], ps[k + i])); }
    }
    if t.len() > 0 {
        lemma_tiles_shift(o, a, x, t, at, d);
    } else {
        assert(shiftall(t, d) =~= t);
        lemma_grow_tiles(o, a, x, t, 0);
    }
}
proof fn lemma_insert(o: Seq<u8>, a: Seq<u8>, x: Seq<u8>, ps: Seq<Piece>, k: int, offset: int, new: Piece)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= k < ps.len(), hasoff(ps[k], offset), x.len() > 0,
        flat(o, a, ps).len() + x.len() <= CAP(), a.len() + x.len() <= CAP(), o.len() <= CAP(),
        new == (Piece { offset: offset as usize, start: a.len() as usize, length: x.len() as usize, original: false }),
    ensures ({
        let r = ps.take(k) + ins_mid(ps[k], offset, new) + shiftall(ps.skip(k + 1), x.len() as int);
        &&& tiles(r, 0)
        &&& allok(o, a + x, r)
        &&& flat(o, a + x, r) == flat(o, a, ps).take(offset) + x + flat(o, a, ps).skip(offset)
    })
{
    let b = flat(o, a, ps);
    let p = ps[k];
    let a1 = a + x;
    let d = offset - p.offset;
    let l = x.len() as int;
    let h = ps.take(k);
    let t = ps.skip(k + 1);
    let v = pbytes(o, a, p);
    lemma_tiles(o, a, ps, 0);
    lemma_piece(o, a, ps, k);
    lemma_prefix(o, a, ps, 0, k);
    lemma_prefix(o, a, ps, 0, k + 1);
    lemma_take_skip(o, a, ps, k);
    lemma_take_skip(o, a, ps, k + 1);
    assert(ps.take(k + 1).drop_last() =~= h);
    lemma_flat_step(o, a, ps.take(k + 1));
    let fh = flat(o, a, h);
    let ft = flat(o, a, t);
    assert(b == fh + v + ft);
    assert(fh.len() == p.offset);
    assert(pok(o, a, p));
    assert(p.offset + p.length <= b.len());
    lemma_ins_mid(o, a, x, p, offset, new);
    let mid = ins_mid(p, offset, new);
    lemma_grow_tiles(o, a, x, h, 0);
    lemma_tiles_concat(o, a1, h, mid, 0);
    lemma_tail(o, a, x, ps, k + 1, p.offset + p.length, l);
    assert(flat(o, a1, h + mid).len() == p.offset + p.length + l);
    lemma_tiles_concat(o, a1, h + mid, shiftall(t, l), 0);
    let r = h + mid + shiftall(t, l);
    lemma_cut_seq(b, fh, v, ft, d, x);
}
spec fn del_head(p: Piece, rs: int) -> Seq<Piece> {
    if rs != p.offset { seq![Piece { offset: p.offset, start: p.start, length: (rs - p.offset) as usize, original: p.original }] } else { Seq::empty() }
}
spec fn del_tail(q: Piece, rs: int, re: int) -> Seq<Piece> {
    if hasoff(q, re) { seq![Piece { offset: rs as usize, start: (q.start + (re - q.offset)) as usize, length: (q.length - (re - q.offset)) as usize, original: q.original }] } else { Seq::empty() }
}
proof fn lemma_del_head(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i: int, rs: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i < ps.len(), hasoff(ps[i], rs), flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
    ensures ({
        let r = ps.take(i) + del_head(ps[i], rs);
        &&& tiles(r, 0)
        &&& allok(o, a, r)
        &&& flat(o, a, r) == flat(o, a, ps).take(rs)
        &&& rs < flat(o, a, ps).len()
    })
{
    let b = flat(o, a, ps);
    let p = ps[i];
    let h = ps.take(i);
    lemma_piece(o, a, ps, i);
    lemma_prefix(o, a, ps, 0, i);
    lemma_take_skip(o, a, ps, i);
    lemma_flat_step(o, a, Seq::empty());
    let d = rs - p.offset;
    let v = pbytes(o, a, p);
    assert(flat(o, a, h) =~= b.take(p.offset as int));
    if d != 0 {
        let head = del_head(p, rs)[0];
        assert(pok(o, a, head));
        lemma_tiles_one(o, a, head);
        assert(pbytes(o, a, head) =~= v.take(d));
        lemma_tiles_concat(o, a, h, del_head(p, rs), 0);
        assert(b.take(rs) =~= b.take(p.offset as int) + b.subrange(p.offset as int, p.offset + p.length).take(d));
    } else {
        assert(h + del_head(p, rs) =~= h);
    }
}
proof fn lemma_del_tail(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, j: int, rs: int, re: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 < j <= ps.len(), rs <= re, 0 <= rs, flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
        ps[j - 1].offset < re,
    ensures ({
        let b = flat(o, a, ps);
        let e = ps[j - 1].offset + ps[j - 1].length;
        let r = del_tail(ps[j - 1], rs, re);
        &&& tiles(r, rs)
        &&& allok(o, a, r)
        &&& flat(o, a, r) == (if e > re { b.subrange(re, e as int) } else { Seq::<u8>::empty() })
        &&& e <= b.len()
        &&& flat(o, a, ps.skip(j)) == b.skip(e as int)
        &&& j < ps.len() ==> ps[j].offset == e
        &&& j == ps.len() ==> e == b.len()
    })
{
    reveal(tiles); reveal(allok); reveal(sd);
    let b = flat(o, a, ps);
    let q = ps[j - 1];
    let e = q.offset + q.length;
    lemma_piece(o, a, ps, j - 1);
    lemma_prefix(o, a, ps, 0, j);
    lemma_take_skip(o, a, ps, j);
    lemma_flat_step(o, a, Seq::empty());
    lemma_flat_step(o, a, ps.skip(j));
    assert(flat(o, a, ps.skip(j)) =~= b.skip(e as int));
    if hasoff(q, re) {
        let tail = del_tail(q, rs, re)[0];
        assert(pok(o, a, tail));
        lemma_tiles_one(o, a, tail);
        assert(pbytes(o, a, tail) =~= pbytes(o, a, q).skip(re - q.offset));
        assert(b.subrange(re, e as int) =~= b.subrange(q.offset as int, e as int).skip(re - q.offset));
    }
}
spec fn del_mid(p: Piece, q: Piece, rs: int, re: int) -> Seq<Piece> { del_head(p, rs) + del_tail(q, rs, re) }
/// pieces i..j cover rs..re
proof fn lemma_delete(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i: int, j: int, rs: int, re: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i < j <= ps.len(), hasoff(ps[i], rs), rs < re,
        ps[j - 1].offset < re, j < ps.len() ==> ps[j].offset >= re,
        flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
    ensures ({
        let r = ps.take(i) + del_mid(ps[i], ps[j - 1], rs, re) + shiftall(ps.skip(j), rs - re);
        let b = flat(o, a, ps);
        &&& tiles(r, 0)
        &&& allok(o, a, r)
        &&& flat(o, a, r) == b.take(rs) + (if re < b.len() { b.skip(re) } else { Seq::empty() })
    })
{
    let b = flat(o, a, ps);
    let p = ps[i];
    let q = ps[j - 1];
    let e = q.offset + q.length;
    let t = ps.skip(j);
    let d = rs - re;
    lemma_del_head(o, a, ps, i, rs);
    lemma_del_tail(o, a, ps, j, rs, re);
    let h = ps.take(i) + del_head(p, rs);
    let s2 = del_tail(q, rs, re);
    lemma_tiles_concat(o, a, h, s2, 0);
    assert(a + Seq::<u8>::empty() =~= a);
    if e >= re {
        lemma_tail(o, a, Seq::empty(), ps, j, e as int, d);
    } else {
        assert(shiftall(t, d) =~= t);
        assert(shiftall(t, 0) =~= t);
        lemma_tail(o, a, Seq::empty(), ps, j, rs, 0);
    }
    lemma_tiles_concat(o, a, h + s2, shiftall(t, d), 0);
    assert(h + s2 + shiftall(t, d) =~= ps.take(i) + del_mid(p, q, rs, re) + shiftall(t, d));
    if re < b.len() {
        assert(e >= re);
        if e > re { assert(b.skip(re) =~= b.subrange(re, e as int) + b.skip(e as int)); }
        assert(b.take(rs) + flat(o, a, s2) + flat(o, a, t) =~= b.take(rs) + b.skip(re));
    } else {
        assert(b.take(rs) + flat(o, a, s2) + flat(o, a, t) =~= b.take(rs) + Seq::<u8>::empty());
    }
}
// ---- newline index ---------------------------------------------------------------
spec fn ins_text(b: Seq<u8>, off: int, x: Seq<u8>) -> Seq<u8> { if off < b.len() { b.take(off) + x + b.skip(off) } else { b + x } }
spec fn del_text(b: Seq<u8>, rs: int, re: int) -> Seq<u8> {
    if rs >= b.len() { b } else { b.take(rs) + (if re < b.len() { b.skip(re) } else { Seq::empty() }) }
}
proof fn lemma_nl_ins(nl: Seq<usize>, b: Seq<u8>, off: int, x: Seq<u8>, nx: Seq<usize>, nl1: Seq<usize>)
    requires lfs(nl, b), lfs(nx, x), incr(nl1), 0 <= off <= b.len(), b.len() + x.len() <= CAP(),
        forall|y: usize| #[trigger] nl1.contains(y) <==> {
            ||| y < off && has(nl, nl.len() as int, y as int)
            ||| y >= off + x.len() && has(nl, nl.len() as int, y - x.len())
            ||| has(nx, nx.len() as int, y - off)
        }
    ensures lfs(nl1, b.take(off) + x + b.skip(off))
{
    let c = b.take(off) + x + b.skip(off);
    lemma_has_lfs(nl, b);
    lemma_has_lfs(nx, x);
    assert forall|y: usize| #[trigger] nl1.contains(y) <==> (y < c.len() && c[y as int] == 10u8) by {
        assert(has(nl, nl.len() as int, y as int) <==> (y < b.len() && b[y as int] == 10u8));
        assert(has(nl, nl.len() as int, y - x.len()) <==> (0 <= y - x.len() < b.len() && b[y - x.len()] == 10u8));
        assert(has(nx, nx.len() as int, y - off) <==> (0 <= y - off < x.len() && x[y - off] == 10u8));
        if y < c.len() {
            if y < off { assert(c[y as int] == b[y as int]); }
            else if y < off + x.len() { assert(c[y as int] == x[y - off]); }
            else { assert(c[y as int] == b[y - x.len()]); }
        }
    }
}
proof fn lemma_nl_del(nl: Seq<usize>, b: Seq<u8>, rs: int, re: int, nl1: Seq<usize>)
    requires lfs(nl, b), incr(nl1), 0 <= rs < b.len(), rs < re, b.len() <= CAP(),
        forall|y: usize| #[trigger] nl1.contains(y) <==> {
            ||| y < rs && has(nl, nl.len() as int, y as int)
            ||| y >= rs && has(nl, nl.len() as int, y + (re - rs))
        }
    ensures lfs(nl1, del_text(b, rs, re))
{
    let c = del_text(b, rs, re);
    let d = re - rs;
    lemma_has_lfs(nl, b);
    assert forall|y: usize| #[trigger] nl1.contains(y) <==> (y < c.len() && c[y as int] == 10u8) by {
        assert(has(nl, nl.len() as int, y as int) <==> (y < b.len() && b[y as int] == 10u8));
        assert(has(nl, nl.len() as int, y + d) <==> (0 <= y + d < b.len() && b[y + d] == 10u8));
        if y < c.len() {
            if y < rs { assert(c[y as int] == b[y as int]); } else { assert(c[y as int] == b[y + d]); }
        }
    }
}
impl PieceTable {
    /// outcome of an edit
    spec fn edited(&self, old: PieceTable, act: Action, changed: bool, b: Seq<u8>) -> bool {
        &&& self.wf()
        &&& self.bytes() == b
        &&& if changed { self.stepped(old, act) } else { self.same_history(old) }
    }
    /// nothing of the history changes, the added store grows by x
    spec fn keeps(&self, pre: PieceTable, x: Seq<u8>) -> bool {
        &&& self.original@ == pre.original@
        &&& self.added@ == pre.added@ + x
        &&& self.undos == pre.undos && self.redos == pre.redos && self.last_action == pre.last_action
    }
    proof fn lemma_keeps(&self, pre: PieceTable, x: Seq<u8>)
        requires self.keeps(pre, x), pre.wf(), pre.added@.len() + x.len() <= CAP()
        ensures self.same_history(pre),
            forall|i: int| 0 <= i < self.undos@.len() ==> state_ok(self.original@, self.added@, (#[trigger] self.undos@[i]).0@, self.undos@[i].1@),
            forall|i: int| 0 <= i < self.redos@.len() ==> state_ok(self.original@, self.added@, (#[trigger] self.redos@[i]).0@, self.redos@[i].1@),
    {
        reveal(tiles); reveal(allok); reveal(sd);
        let o = pre.original@; let a = pre.added@;
        assert forall|i: int| 0 <= i < self.undos@.len() implies
            state_ok(o, a + x, (#[trigger] self.undos@[i]).0@, self.undos@[i].1@) && flat(o, a + x, self.undos@[i].0@) == flat(o, a, self.undos@[i].0@) by {
            let u = pre.undos@[i];
            assert(state_ok(o, a, u.0@, u.1@));
            lemma_grow(o, a, x, u.0@, u.1@);
        }
        assert forall|i: int| 0 <= i < self.redos@.len() implies
            state_ok(o, a + x, (#[trigger] self.redos@[i]).0@, self.redos@[i].1@) && flat(o, a + x, self.redos@[i].0@) == flat(o, a, self.redos@[i].0@) by {
            let u = pre.redos@[i];
            assert(state_ok(o, a, u.0@, u.1@));
            lemma_grow(o, a, x, u.0@, u.1@);
        }
        assert(self.undo_texts() =~= pre.undo_texts());
        assert(self.redo_texts() =~= pre.redo_texts());
    }
}
/// inserting `p` in `s` puts it at `k`
spec fn insable(s: Seq<Piece>, p: Piece, k: int) -> bool {
    &&& sd(s)
    &&& ipos(s, p.offset as int) == k
    &&& forall|i: int| 0 <= i < s.len() ==> !hasoff(#[trigger] s[i], p.offset as int)
}
proof fn lemma_ins_steps(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, k: int, offset: int, new: Piece)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= k < ps.len(), hasoff(ps[k], offset), new.length > 0, new.offset == offset,
        flat(o, a, ps).len() + new.length <= CAP(), o.len() <= CAP(), a.len() <= CAP(),
    ensures ({
        let l = new.length as int;
        let d = offset - ps[k].offset;
        let s1 = shifted(ps, k, l).remove(k);
        let p1 = Piece { offset: ps[k].offset, start: ps[k].start, length: d as usize, original: ps[k].original };
        let p2 = Piece { offset: (offset + l) as usize, start: (ps[k].start + d) as usize, length: (ps[k].length - d) as usize, original: ps[k].original };
        let target = ps.take(k) + ins_mid(ps[k], offset, new) + shiftall(ps.skip(k + 1), l);
        if d != 0 {
            let s2 = s1.insert(k, p1);
            let s3 = s2.insert(k + 1, new);
            insable(s1, p1, k) && insable(s2, new, k + 1) && insable(s3, p2, k + 2) && s3.insert(k + 2, p2) == target
        } else {
            let s3 = s1.insert(k, new);
            insable(s1, new, k) && insable(s3, p2, k + 1) && s3.insert(k + 1, p2) == target
        }
    })
{
    let l = new.length as int;
    let d = offset - ps[k].offset;
    let s0 = shifted(ps, k, l);
    let s1 = s0.remove(k);
    let p1 = Piece { offset: ps[k].offset, start: ps[k].start, length: d as usize, original: ps[k].original };
    let p2 = Piece { offset: (offset + l) as usize, start: (ps[k].start + d) as usize, length: (ps[k].length - d) as usize, original: ps[k].original };
    let target = ps.take(k) + ins_mid(ps[k], offset, new) + shiftall(ps.skip(k + 1), l);
    lemma_ins_base(o, a, ps, k, offset, l);
    if d != 0 {
        lemma_ins(s1, p1, k);
        let s2 = s1.insert(k, p1);
        assert(s2[k] == p1);
        if k + 1 < s2.len() { assert(s2[k + 1] == s1[k]); }
        lemma_ins(s2, new, k + 1);
        let s3 = s2.insert(k + 1, new);
        assert(s3[k + 1] == new);
        if k + 2 < s3.len() { assert(s3[k + 2] == s1[k]); }
        lemma_ins(s3, p2, k + 2);
        assert(s3.insert(k + 2, p2) =~= target);
    } else {
        lemma_ins(s1, new, k);
        let s3 = s1.insert(k, new);
        assert(s3[k] == new);
        if k + 1 < s3.len() { assert(s3[k + 1] == s1[k]); }
        lemma_ins(s3, p2, k + 1);
        assert(p2 == (Piece { offset: (offset + new.length) as usize, start: ps[k].start, length: ps[k].length, original: ps[k].original }));
        assert(s3.insert(k + 1, p2) =~= target);
    }
}
proof fn lemma_ins_base(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, k: int, offset: int, l: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= k < ps.len(), l > 0, flat(o, a, ps).len() + l <= CAP(),
    ensures ({
        let s1 = shifted(ps, k, l).remove(k);
        &&& sd(s1)
        &&& s1.len() == ps.len() - 1
        &&& k < s1.len() ==> s1[k] == moved(ps[k + 1], l) && s1[k].offset == ps[k].offset + ps[k].length + l
        &&& k > 0 ==> s1[k - 1].offset + s1[k - 1].length == ps[k].offset
        &&& ps[k].offset + ps[k].length + l <= CAP()
        &&& ps[k].start + ps[k].length <= store(o, a, ps[k]).len()
    })
{
    let s0 = shifted(ps, k, l);
    let s1 = s0.remove(k);
    lemma_piece(o, a, ps, k);
    if k > 0 { lemma_piece(o, a, ps, k - 1); }
    lemma_tiles(o, a, ps, 0);
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).offset + l <= usize::MAX by {}
    lemma_sd_shift(ps, k, l);
    lemma_rem(s0, k);
    if k + 1 < ps.len() { lemma_piece(o, a, ps, k + 1); assert(s1[k] == moved(ps[k + 1], l)); }
    if k > 0 { assert(s1[k - 1] == ps[k - 1]); }
}
proof fn lemma_sd_cut(s: Seq<Piece>, i: int, j: int)
    requires sd(s), 0 <= i <= j <= s.len()
    ensures sd(s.take(i) + s.skip(j))
{
    reveal(tiles); reveal(allok); reveal(sd);
    let t = s.take(i) + s.skip(j);
    assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).length > 0 by { if x < i { assert(s[x].length > 0); } else { assert(s[x - i + j].length > 0); } }
    assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] bef(t[x], t[y]) by {
        let x0 = if x < i { x } else { x - i + j };
        let y0 = if y < i { y } else { y - i + j };
        assert(bef(s[x0], s[y0]));
    }
}
proof fn lemma_sd_unique(s: Seq<Piece>, i: int, off: int)
    requires sd(s), 0 <= i < s.len(), hasoff(s[i], off)
    ensures forall|m: int| 0 <= m < s.len() && hasoff(#[trigger] s[m], off) ==> m == i
{
    reveal(tiles); reveal(allok); reveal(sd);
    assert forall|m: int| 0 <= m < s.len() && hasoff(#[trigger] s[m], off) implies m == i by {
        if m < i { assert(bef(s[m], s[i])); } else if m > i { assert(bef(s[i], s[m])); }
    }
}
/// how the pieces of a deletion end up
#[verifier::opaque]
spec fn del_done(ps: Seq<Piece>, i: int, j: int, rs: int, re: int) -> Seq<Piece> {
    ps.take(i) + del_mid(ps[i], ps[j - 1], rs, re) + shiftall(ps.skip(j), rs - re)
}
#[verifier::opaque]
spec fn shiftable(s: Seq<Piece>, k: int, d: int) -> bool {
    forall|x: int| k < x < s.len() ==> 0 <= (#[trigger] s[x]).offset + d <= CAP() && s[x].offset <= CAP()
}
spec fn ins_at(s: Seq<Piece>, k: int, one: Seq<Piece>) -> Seq<Piece> { if one.len() == 0 { s } else { s.insert(k, one[0]) } }
/// head and tail go in between
proof fn lemma_del_ins(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i: int, j: int, rs: int, re: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i < j <= ps.len(), hasoff(ps[i], rs), rs < re,
        ps[j - 1].offset < re, j < ps.len() ==> ps[j].offset >= re,
        flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
    ensures ({
        let hd = del_head(ps[i], rs);
        let tl = del_tail(ps[j - 1], rs, re);
        let r0 = ps.take(i) + ps.skip(j);
        let r1 = ins_at(r0, i, hd);
        let n1 = i + hd.len();
        &&& sd(r0)
        &&& sd(r1)
        &&& hd.len() > 0 ==> insable(r0, hd[0], i)
        &&& tl.len() > 0 ==> insable(r1, tl[0], n1)
        &&& ins_at(r1, n1, tl) == ps.take(i) + (hd + tl) + ps.skip(j)
    })
{
    let p = ps[i];
    let q = ps[j - 1];
    let hd = del_head(p, rs);
    let tl = del_tail(q, rs, re);
    let r0 = ps.take(i) + ps.skip(j);
    let r1 = ins_at(r0, i, hd);
    let n1 = i + hd.len();
    lemma_tiles(o, a, ps, 0);
    lemma_piece(o, a, ps, i);
    lemma_piece(o, a, ps, j - 1);
    if i > 0 { lemma_piece(o, a, ps, i - 1); }
    lemma_sd_cut(ps, i, j);
    if i < j - 1 { assert(bef(p, q)) by { reveal(sd); } }
    if i > 0 { assert(r0[i - 1] == ps[i - 1]); }
    if j < ps.len() { assert(r0[i] == ps[j]); }
    if hd.len() > 0 { lemma_ins(r0, hd[0], i); }
    if tl.len() > 0 { lemma_ins(r1, tl[0], n1); }
    assert(ins_at(r1, n1, tl) =~= ps.take(i) + (hd + tl) + ps.skip(j));
}
proof fn lemma_far(s: Seq<Piece>, j: int, x: int)
    requires sd(s), 0 <= j <= x < s.len()
    ensures s[x].offset >= s[j].offset, s[x].length > 0
{
    reveal(sd);
    if x > j { assert(bef(s[j], s[x])); }
}
proof fn lemma_del_steps(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i: int, j: int, rs: int, re: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i < j <= ps.len(), hasoff(ps[i], rs), rs < re,
        ps[j - 1].offset < re, j < ps.len() ==> ps[j].offset >= re,
        flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
    ensures ({
        let d = rs - re;
        let hd = del_head(ps[i], rs);
        let tl = del_tail(ps[j - 1], rs, re);
        let r0 = ps.take(i) + ps.skip(j);
        let r2 = ps.take(i) + (hd + tl) + ps.skip(j);
        let n2 = i + hd.len() + tl.len() - 1;
        &&& shiftable(r2, n2, d)
        &&& hd.len() + tl.len() > 0 ==> shifted(r2, n2, d) == del_done(ps, i, j, rs, re)
        &&& hd.len() + tl.len() == 0 && j < ps.len() ==> hasoff(r0[i], re) && r0[i].offset + d >= 0 && r0[i].offset == re
            && (forall|m: int| 0 <= m < r0.len() && hasoff(#[trigger] r0[m], re) ==> m == i)
            && shifted(r0.update(i, moved(r0[i], d)), i, d) == del_done(ps, i, j, rs, re)
            && shiftable(r0.update(i, moved(r0[i], d)), i, d)
        &&& hd.len() + tl.len() == 0 && j == ps.len() ==> (forall|m: int| 0 <= m < r0.len() ==> !hasoff(#[trigger] r0[m], re))
            && r0 == del_done(ps, i, j, rs, re)
    })
{
    reveal(shiftable); reveal(del_done);
    let d = rs - re;
    let p = ps[i];
    let q = ps[j - 1];
    let hd = del_head(p, rs);
    let tl = del_tail(q, rs, re);
    let r0 = ps.take(i) + ps.skip(j);
    let r2 = ps.take(i) + (hd + tl) + ps.skip(j);
    let n2 = i + hd.len() + tl.len() - 1;
    let done = del_done(ps, i, j, rs, re);
    lemma_tiles(o, a, ps, 0);
    lemma_piece(o, a, ps, i);
    lemma_piece(o, a, ps, j - 1);
    lemma_sd_cut(ps, i, j);
    assert forall|x: int| n2 < x < r2.len() implies 0 <= (#[trigger] r2[x]).offset + d <= CAP() && r2[x].offset <= CAP() by {
        let y = x - n2 - 1 + j;
        assert(r2[x] == ps[y]);
        lemma_far(ps, j, y);
    }
    if hd.len() + tl.len() > 0 {
        assert(shifted(r2, n2, d) =~= done);
    } else if j < ps.len() {
        assert(r0[i] == ps[j]);
        assert(q.offset + q.length == re);
        lemma_piece(o, a, ps, j);
        lemma_sd_unique(r0, i, re);
        let u = r0.update(i, moved(r0[i], d));
        assert forall|x: int| i < x < u.len() implies 0 <= (#[trigger] u[x]).offset + d <= CAP() && u[x].offset <= CAP() by {
            let y = x - i + j;
            assert(u[x] == ps[y]);
            lemma_far(ps, j, y);
        }
        assert(shifted(u, i, d) =~= done);
    } else {
        assert forall|m: int| 0 <= m < r0.len() implies !hasoff(#[trigger] r0[m], re) by { assert(r0[m] == ps[m]); lemma_piece(o, a, ps, m); lemma_far(ps, m, i); }
        assert(r0 =~= done);
    }
}
impl PieceTable {
    proof fn lemma_del_finish(&self, pre: PieceTable, old: PieceTable, rs: int, re: int)
        requires pre.wf(), self.keeps(pre, Seq::empty()), pre.stepped(old, Action::Delete), 0 <= rs < re,
            rs < pre.bytes().len() ==> tiles(self.pieces@, 0) && allok(self.original@, pre.added@, self.pieces@)
                && flat(pre.original@, pre.added@, self.pieces@) == del_text(pre.bytes(), rs, re) && lfs(self.newlines@, del_text(pre.bytes(), rs, re)),
            rs >= pre.bytes().len() ==> self.pieces@ == pre.pieces@ && self.newlines@ == pre.newlines@,
        ensures self.wf(), self.bytes() == del_text(pre.bytes(), rs, re), self.stepped(old, Action::Delete)
    {
        assert(pre.added@ + Seq::<u8>::empty() =~= pre.added@);
        self.lemma_keeps(pre, Seq::empty());
        self.lemma_step_same(pre, old, Action::Delete);
    }
}
impl PieceTable {
    /// an edit that leaves the history as it is after a step of the same kind
    proof fn lemma_step_same(&self, pre: PieceTable, old: PieceTable, act: Action)
        requires pre.stepped(old, act), self.same_history(pre)
        ensures self.stepped(old, act), pre.last_action == Some(act) || pre.last_action == Some(Action::Bulk)
    {
        assert(self.redo_texts().len() == self.redos@.len());
        assert(pre.redo_texts().len() == pre.redos@.len());
    }
    proof fn lemma_step_again(&self, pre: PieceTable, old: PieceTable, act: Action)
        requires pre.stepped(old, act), self.stepped(pre, act)
        ensures self.stepped(old, act)
    {
        assert(pre.last_action == Some(act) || pre.last_action == Some(Action::Bulk));
        self.lemma_step_same(pre, old, act);
    }
}

// ---- the stages of a deletion, as opaque sequences ---------------------------------
/// without the pieces i..j
#[verifier::opaque]
spec fn cutout(ps: Seq<Piece>, i: int, j: int) -> Seq<Piece> { ps.take(i) + ps.skip(j) }
/// ... with the remains of the first of them
#[verifier::opaque]
spec fn del_r1(ps: Seq<Piece>, i: int, j: int, rs: int, re: int) -> Seq<Piece> { ps.take(i) + del_head(ps[i], rs) + ps.skip(j) }
/// ... and of the last
#[verifier::opaque]
spec fn del_r2(ps: Seq<Piece>, i: int, j: int, rs: int, re: int) -> Seq<Piece> { ps.take(i) + (del_head(ps[i], rs) + del_tail(ps[j - 1], rs, re)) + ps.skip(j) }
spec fn head_piece(p: Piece, rs: int) -> Piece { Piece { offset: p.offset, start: p.start, length: (rs - p.offset) as usize, original: p.original } }
spec fn tail_piece(q: Piece, rs: int, re: int) -> Piece { Piece { offset: rs as usize, start: (q.start + (re - q.offset)) as usize, length: (q.length - (re - q.offset)) as usize, original: q.original } }
proof fn lemma_cutout(ps: Seq<Piece>, i: int, j: int)
    requires sd(ps), 0 <= i <= j <= ps.len()
    ensures sd(cutout(ps, i, j)), cutout(ps, i, j).len() == i + ps.len() - j,
        i == j ==> cutout(ps, i, j) == ps,
        j < ps.len() ==> hasoff(cutout(ps, i, j)[i], ps[j].offset as int) && cutout(ps, i, j)[i] == ps[j] && cutout(ps, i, j).remove(i) == cutout(ps, i, j + 1),
{
    reveal(cutout);
    lemma_sd_cut(ps, i, j);
    let c = cutout(ps, i, j);
    if i == j { assert(c =~= ps); }
    if j < ps.len() {
        lemma_far(ps, j, j);
        assert(c[i] == ps[j]);
        assert(c.remove(i) =~= cutout(ps, i, j + 1));
    }
}
proof fn lemma_stages(o: Seq<u8>, a: Seq<u8>, ps: Seq<Piece>, i: int, j: int, rs: int, re: int)
    requires tiles(ps, 0), allok(o, a, ps), 0 <= i < j <= ps.len(), hasoff(ps[i], rs), rs < re,
        ps[j - 1].offset < re, j < ps.len() ==> ps[j].offset >= re,
        flat(o, a, ps).len() <= CAP(), a.len() <= CAP(), o.len() <= CAP(),
    ensures ({
        let d = rs - re;
        let p = ps[i];
        let q = ps[j - 1];
        let nh: int = if rs != p.offset { 1 } else { 0 };
        let nt: int = if hasoff(q, re) { 1 } else { 0 };
        let r0 = cutout(ps, i, j);
        let r1 = del_r1(ps, i, j, rs, re);
        let r2 = del_r2(ps, i, j, rs, re);
        let done = del_done(ps, i, j, rs, re);
        let n2 = i + nh + nt - 1;
        &&& sd(r0)
        &&& sd(r1)
        &&& nh == 1 ==> insable(r0, head_piece(p, rs), i) && r0.insert(i, head_piece(p, rs)) == r1
        &&& nh == 0 ==> r1 == r0
        &&& nt == 1 ==> insable(r1, tail_piece(q, rs, re), i + nh) && r1.insert(i + nh, tail_piece(q, rs, re)) == r2
        &&& nt == 0 ==> r2 == r1
        &&& nh + nt > 0 ==> shiftable(r2, n2, d) && shifted(r2, n2, d) == done
        &&& nh + nt == 0 && j < ps.len() ==> i < r2.len() && hasoff(r2[i], re) && r2[i].offset + d >= 0 && r2[i].offset == re
            && (forall|m: int| 0 <= m < r2.len() && hasoff(#[trigger] r2[m], re) ==> m == i)
            && shifted(r2.update(i, moved(r2[i], d)), i, d) == done
            && shiftable(r2.update(i, moved(r2[i], d)), i, d)
        &&& nh + nt == 0 && j == ps.len() ==> (forall|m: int| 0 <= m < r2.len() ==> !hasoff(#[trigger] r2[m], re)) && r2 == done
        &&& tiles(done, 0)
        &&& allok(o, a, done)
        &&& flat(o, a, done) == del_text(flat(o, a, ps), rs, re)
        &&& rs < flat(o, a, ps).len()
        &&& p.offset + p.length <= CAP() && p.start + p.length <= CAP()
        &&& q.offset + q.length <= CAP() && q.start + q.length <= CAP()
    })
{
    reveal(cutout); reveal(del_r1); reveal(del_r2);
    let d = rs - re;
    let p = ps[i];
    let q = ps[j - 1];
    let hd = del_head(p, rs);
    let tl = del_tail(q, rs, re);
    lemma_piece(o, a, ps, i);
    lemma_piece(o, a, ps, j - 1);
    lemma_del_ins(o, a, ps, i, j, rs, re);
    lemma_del_steps(o, a, ps, i, j, rs, re);
    lemma_delete(o, a, ps, i, j, rs, re);
    let r0 = cutout(ps, i, j);
    let r1 = del_r1(ps, i, j, rs, re);
    let r2 = del_r2(ps, i, j, rs, re);
    assert(r1 =~= ins_at(r0, i, hd));
    assert(r2 =~= ins_at(r1, i + hd.len(), tl));
    if hd.len() + tl.len() == 0 { assert(r2 =~= r0); }
    reveal(del_done);
    if i < ps.len() { assert(flat(o, a, del_done(ps, i, j, rs, re)) =~= del_text(flat(o, a, ps), rs, re)); }
}
