//@ include bytes.vrs
//@ include minmax.vrs
//@ source core/src/editor/diff.rs
//@ enum Diff PartialEq,Structural
//@ include diffspec.vrs
//@ verus
// ---- common subsequences ----------------------------------------------------
/// `s` is a subsequence of `t` (found at its leftmost places)
spec fn subseq(s: Seq<u8>, t: Seq<u8>) -> bool
    decreases t.len()
{
    s.len() == 0 || (t.len() > 0 && (if s[0] == t[0] { subseq(s.skip(1), t.skip(1)) } else { subseq(s, t.skip(1)) }))
}
proof fn lemma_sub_drop(s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, subseq(s, t)
    ensures subseq(s.skip(1), t)
    decreases t.len(), 1int
{
    if s[0] == t[0] { lemma_sub_widen(s.skip(1), t); } else { lemma_sub_drop(s, t.skip(1)); lemma_sub_widen(s.skip(1), t); }
}
proof fn lemma_sub_widen(s: Seq<u8>, t: Seq<u8>)
    requires t.len() > 0, subseq(s, t.skip(1))
    ensures subseq(s, t)
    decreases t.len(), 0int
{
    if s.len() > 0 && s[0] == t[0] { lemma_sub_drop(s, t.skip(1)); }
}
proof fn lemma_sub_len(s: Seq<u8>, t: Seq<u8>)
    requires subseq(s, t)
    ensures s.len() <= t.len()
    decreases t.len()
{
    if s.len() > 0 { if s[0] == t[0] { lemma_sub_len(s.skip(1), t.skip(1)); } else { lemma_sub_len(s, t.skip(1)); } }
}
/// the greedy search for the first byte of a subsequence
proof fn lemma_sub_step(s: Seq<u8>, t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(), s.len() > 0, subseq(s, t.skip(i))
    ensures i < t.len(), t[i] == s[0] ==> subseq(s.skip(1), t.skip(i + 1)), t[i] != s[0] ==> subseq(s, t.skip(i + 1)),
{
    assert(t.skip(i).skip(1) =~= t.skip(i + 1));
}
proof fn lemma_sub_skip(s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 <= k <= t.len(), subseq(s, t.skip(k))
    ensures subseq(s, t)
    decreases k
{
    if k > 0 {
        assert(t.skip(k - 1).skip(1) =~= t.skip(k));
        lemma_sub_widen(s, t.skip(k - 1));
        lemma_sub_skip(s, t, k - 1);
    } else {
        assert(t.skip(0) =~= t);
    }
}
proof fn lemma_cell(i: int, j: int, n: int, m: int)
    requires 0 <= i < n, 0 <= j < m
    ensures 0 <= i * m, i * m + j < n * m, 0 <= i * m + j, i > 0 ==> (i - 1) * m + m == i * m && (i - 1) * m >= 0,
{
    assert(i * m + m <= n * m) by (nonlinear_arith) requires 0 <= i < n, 0 < m;
    assert(0 <= i * m) by (nonlinear_arith) requires 0 <= i, 0 < m;
    if i > 0 {
        assert((i - 1) * m + m == i * m) by (nonlinear_arith);
        assert(0 <= (i - 1) * m) by (nonlinear_arith) requires 0 < i, 0 < m;
    }
}
spec fn derefs(s: Seq<&u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| *s[i]) }
/// a script that has come to `x` in the left and `y` in the right text
spec fn reached(ds: Seq<Diff>, a: Seq<u8>, b: Seq<u8>, x: int, y: int) -> bool {
    played(ds, a, b) && lpos(ds) == x && rpos(ds) == y
}
/// the parts between the common prefix and the common suffix
spec fn within(a: Seq<u8>, b: Seq<u8>, start: int, end: int, l: Seq<u8>, r: Seq<u8>) -> bool {
    &&& 0 <= start && 0 <= end && start + end <= a.len() && start + end <= b.len()
    &&& l == a.subrange(start, a.len() - end) && r == b.subrange(start, b.len() - end)
    &&& a.len() <= SIDE() && b.len() <= SIDE()
    &&& a.skip(a.len() - end) == b.skip(b.len() - end)
}
proof fn lemma_next(c: u8, s: Seq<u8>, l: Seq<u8>, r: Seq<u8>, i: int, j: int)
    requires 0 <= i <= l.len(), 0 <= j <= r.len(), subseq(seq![c] + s, l.skip(i)), subseq(seq![c] + s, r.skip(j))
    ensures i < l.len(), j < r.len(), subseq(s, l.skip(i)), subseq(s, r.skip(j))
{
    let t = seq![c] + s;
    lemma_sub_step(t, l, i); lemma_sub_step(t, r, j);
    lemma_sub_drop(t, l.skip(i)); lemma_sub_drop(t, r.skip(j));
    assert(t.skip(1) =~= s);
}
/// the longest texts whose table of lengths fits the address space
spec fn SIDE() -> int { 0x4000_0000 }
//@ fn precompute
    ensures result.0 + result.1 <= b1@.len(), result.0 + result.1 <= b2@.len(),
        b1@.take(result.0 as int) == b2@.take(result.0 as int),
        b1@.skip(b1@.len() - result.1) == b2@.skip(b2@.len() - result.1),
//@ loop 0
    invariant start <= l1, start <= l2, l1 == b1@.len(), l2 == b2@.len(), forall|i: int| 0 <= i < start ==> b1@[i] == b2@[i],
    decreases l1 - start
//@ loop 1
    invariant start + end <= l1, start + end <= l2, l1 == b1@.len(), l2 == b2@.len(),
        forall|p: int| l1 - end <= p < l1 ==> #[trigger] b1@[p] == b2@[p - l1 + l2],
    decreases l1 - end
//@ exit
    proof {
        assert(b1@.take(start as int) =~= b2@.take(start as int));
        assert forall|i: int| 0 <= i < end implies #[trigger] b1@.skip(l1 - end)[i] == b2@.skip(l2 - end)[i] by {
            assert(b1@[l1 - end + i] == b2@[l1 - end + i - l1 + l2]);
        }
        assert(b1@.skip(l1 - end) =~= b2@.skip(l2 - end));
    }
//@ fn find_lcs
    requires left@.len() <= SIDE(), right@.len() <= SIDE()
    ensures subseq(result@, left@), subseq(result@, right@)
//@ entry
    proof { 
        let x = left@.len() as int; let y = right@.len() as int;
        assert(x * y <= 0x4000_0000 * 0x4000_0000 && 0 <= x * y) by (nonlinear_arith) requires 0 <= x <= 0x4000_0000, 0 <= y <= 0x4000_0000;
    }
//@ loop 0 before
    let ghost src0 = vx_it0@;
    let ghost mut gi: int = 0;
    proof { assert(src0.skip(0) =~= src0); }
//@ loop 0
    invariant el == left@.len(), er == right@.len(), 0 < el <= SIDE(), 0 < er <= SIDE(), mt@.len() == el * er,
        0 <= gi <= el, src0.len() == el, vx_it0@ == src0.skip(gi), forall|i: int| 0 <= i < el ==> #[trigger] src0[i] == i,
        forall|k: int| 0 <= k < el * er ==> 0 <= #[trigger] mt@[k] <= gi,
    ensures gi == el
    decreases el - gi
//@ loop 0 entry
    proof { if gi < el { assert(src0.skip(gi).skip(1) =~= src0.skip(gi + 1)); assert(src0.skip(gi)[0] == src0[gi]); } }
//@ loop 0 end
    proof { gi = gi + 1; }
//@ loop 1 before
    let ghost src1 = vx_it1@;
    let ghost mut gj: int = 0;
    proof { assert(src1.skip(0) =~= src1); lemma_cell(gi, 0, el as int, er as int); }
//@ loop 1
    invariant el == left@.len(), er == right@.len(), 0 < el <= SIDE(), 0 < er <= SIDE(), mt@.len() == el * er, i == gi, 0 <= gi < el,
        0 <= gj <= er, src1.len() == er, vx_it1@ == src1.skip(gj), forall|i: int| 0 <= i < er ==> #[trigger] src1[i] == i,
        forall|k: int| 0 <= k < el * er ==> 0 <= #[trigger] mt@[k] <= gi + 1,
        forall|k: int| 0 <= k < i * er ==> 0 <= #[trigger] mt@[k] <= gi,
    ensures gj == er
    decreases er - gj
//@ loop 1 entry
    proof { if gj < er { assert(src1.skip(gj).skip(1) =~= src1.skip(gj + 1)); assert(src1.skip(gj)[0] == src1[gj]);
        lemma_cell(gi, gj, el as int, er as int);
        assert(el * er <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires 0 <= el <= 0x4000_0000, 0 <= er <= 0x4000_0000;
    } }
//@ loop 1 end
    proof { gj = gj + 1; }
//@ loop 2
    invariant el == left@.len(), er == right@.len(), 0 < el <= SIDE(), 0 < er <= SIDE(), mt@.len() == el * er,
        -1 <= i < el, -1 <= j < er,
        lcs@.len() <= SIDE(),
        subseq(lcs@, left@.skip(i + 1)), subseq(lcs@, right@.skip(j + 1)),
    decreases i + j + 2
//@ after lcs . insert ( 0 , left [ idx ] ) ;
    proof {
        assert(lcs@.skip(1) =~= lcs0);
        assert(subseq(lcs@, left@.skip(i as int)));
        assert(subseq(lcs@, right@.skip(j as int)));
        lemma_sub_len(lcs@, left@.skip(i as int));
    }
//@ loop 2 after
    proof { lemma_sub_skip(lcs@, left@, i + 1); lemma_sub_skip(lcs@, right@, j + 1); }
//@ loop 2 entry
    let ghost lcs0 = lcs@;
    proof {
        if i >= 0 && j >= 0 {
            lemma_cell(i as int, j as int, el as int, er as int);
            assert(el * er <= 0x4000_0000 * 0x4000_0000) by (nonlinear_arith) requires 0 <= el <= 0x4000_0000, 0 <= er <= 0x4000_0000;
            assert(left@.skip(i as int).skip(1) =~= left@.skip(i + 1));
            assert(right@.skip(j as int).skip(1) =~= right@.skip(j + 1));
            lemma_sub_widen(lcs@, left@.skip(i as int));
            lemma_sub_widen(lcs@, right@.skip(j as int));
            lemma_sub_len(lcs@, left@.skip(i as int));
        }
    }
//@ fn diff
    requires sbytes(left@).len() <= SIDE(), sbytes(right@).len() <= SIDE()
    ensures script(result@, sbytes(left@), sbytes(right@))
//@ entry
    let ghost a = sbytes(left@);
    let ghost b = sbytes(right@);
//@ before let ( start , end ) = precompute ( bleft , bright ) ;
    let ghost ds0 = diffs@;
//@ before let l = & bleft
    proof {
        assert(a.subrange(0, start as int) =~= a.take(start as int));
        assert(b.subrange(0, start as int) =~= b.take(start as int));
        lemma_script_push(ds0, Diff::Both(start));
        assert(reached(diffs@, a, b, start as int, start as int));
    }
//@ loop 0 before
    proof {
        assert(l@ =~= a.subrange(start as int, a.len() - end));
        assert(r@ =~= b.subrange(start as int, b.len() - end));
        assert(l@.skip(0) =~= l@);
        assert(r@.skip(0) =~= r@);
        assert(derefs(lcs_it@) =~= lcs@);
    }
//@ loop 0
    invariant
        within(a, b, start as int, end as int, l@, r@),
        i <= l@.len(), j <= r@.len(),
        subseq(derefs(lcs_it@), l@.skip(i as int)), subseq(derefs(lcs_it@), r@.skip(j as int)),
        reached(diffs@, a, b, start + i, start + j),
    decreases lcs_it@.len()
//@ loop 0 entry
    let ghost s0 = derefs(lcs_it@);
    let ghost i0 = i as int;
    let ghost j0 = j as int;
    let ghost n0 = lcs_it@.len();
    proof { if lcs_it@.len() > 0 { assert(derefs(lcs_it@.skip(1)) =~= s0.skip(1)); } }
//@ loop 1
    invariant within(a, b, start as int, end as int, l@, r@), 0 <= i0 <= i <= l@.len(), len == i - i0,
        s0.len() > 0, s0[0] == c, subseq(s0, l@.skip(i as int)),
    ensures i < l@.len(), l@[i as int] == c,
    decreases l@.len() - i
//@ loop 1 entry
    proof { lemma_sub_step(s0, l@, i as int); }
//@ loop 1 after
    proof { lemma_script_push(diffs@, Diff::Left(len)); }
//@ loop 2 before
    proof { assert(reached(diffs@, a, b, start + i, start + j0)); }
//@ loop 2
    invariant within(a, b, start as int, end as int, l@, r@), 0 <= j0 <= j <= r@.len(), len == j - j0,
        s0.len() > 0, s0[0] == c, subseq(s0, r@.skip(j as int)),
    ensures j < r@.len(), r@[j as int] == c,
    decreases r@.len() - j
//@ loop 2 entry
    proof { lemma_sub_step(s0, r@, j as int); }
//@ loop 2 after
    proof { lemma_script_push(diffs@, Diff::Right(len)); }
//@ loop 3 before
    proof { assert(reached(diffs@, a, b, start + i, start + j)); assert(s0 =~= seq![sub_c] + derefs(lcs_it@)); }
    proof { lemma_next(sub_c, derefs(lcs_it@), l@, r@, i as int, j as int); }
    let ghost i1 = i as int;
    let ghost j1 = j as int;
//@ loop 3
    invariant_except_break
        i < l@.len(), j < r@.len(),
        subseq(seq![sub_c] + derefs(lcs_it@), l@.skip(i as int)), subseq(seq![sub_c] + derefs(lcs_it@), r@.skip(j as int)),
    invariant within(a, b, start as int, end as int, l@, r@), 0 <= i1 <= i <= l@.len(), 0 <= j1 <= j <= r@.len(), i - i1 == len, j - j1 == len,
        l@.subrange(i1, i as int) == r@.subrange(j1, j as int), lcs_it@.len() < n0,
        subseq(derefs(lcs_it@), l@.skip(i as int)), subseq(derefs(lcs_it@), r@.skip(j as int)),
    decreases l@.len() - i
//@ loop 3 entry
    let ghost s1 = seq![sub_c] + derefs(lcs_it@);
    proof {
        lemma_sub_step(s1, l@, i as int); lemma_sub_step(s1, r@, j as int);
        assert(s1.skip(1) =~= derefs(lcs_it@));
        if lcs_it@.len() > 0 { assert(seq![*lcs_it@[0]] + derefs(lcs_it@.skip(1)) =~= derefs(lcs_it@)); }
        assert(l@.subrange(i1, i + 1) =~= l@.subrange(i1, i as int).push(l@[i as int]));
        assert(r@.subrange(j1, j + 1) =~= r@.subrange(j1, j as int).push(r@[j as int]));
    }
//@ loop 3 end
    proof { lemma_next(sub_c, derefs(lcs_it@), l@, r@, i as int, j as int); }
//@ loop 3 after
    proof {
        assert(a.subrange(start + i1, start + i) =~= l@.subrange(i1, i as int));
        assert(b.subrange(start + j1, start + j) =~= r@.subrange(j1, j as int));
        lemma_script_push(diffs@, Diff::Both(len));
    }
//@ loop 0 after
    proof { lemma_script_push(diffs@, Diff::Left((l@.len() - i) as usize)); }
//@ before if j < r . len ( )
    proof {
        assert(reached(diffs@, a, b, start + l@.len(), start + j));
        lemma_script_push(diffs@, Diff::Right((r@.len() - j) as usize));
    }
//@ before if end > 0
    proof {
        assert(reached(diffs@, a, b, start + l@.len(), start + r@.len()));
        assert(a.subrange(a.len() - end, a.len() as int) =~= a.skip(a.len() - end));
        assert(b.subrange(b.len() - end, b.len() as int) =~= b.skip(b.len() - end));
        lemma_script_push(diffs@, Diff::Both(end));
    }
