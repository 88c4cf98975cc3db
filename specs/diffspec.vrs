//@ verus
//once diffspec
// ---- what an edit script means ---------------------------------------------
spec fn dl(d: Diff) -> int { match d { Diff::Left(n) => n as int, Diff::Both(n) => n as int, Diff::Right(_) => 0 } }
spec fn dr(d: Diff) -> int { match d { Diff::Right(n) => n as int, Diff::Both(n) => n as int, Diff::Left(_) => 0 } }
/// bytes of the left text consumed by a script
spec fn lpos(ds: Seq<Diff>) -> int decreases ds.len() { if ds.len() == 0 { 0 } else { lpos(ds.drop_last()) + dl(ds.last()) } }
/// bytes of the right text produced by a script
spec fn rpos(ds: Seq<Diff>) -> int decreases ds.len() { if ds.len() == 0 { 0 } else { rpos(ds.drop_last()) + dr(ds.last()) } }
/// a script that stays within both texts and keeps only bytes equal in both
spec fn played(ds: Seq<Diff>, a: Seq<u8>, b: Seq<u8>) -> bool decreases ds.len() {
    ds.len() > 0 ==> {
        &&& played(ds.drop_last(), a, b)
        &&& lpos(ds) <= a.len() && rpos(ds) <= b.len()
        &&& ds.last() is Both ==> a.subrange(lpos(ds.drop_last()), lpos(ds)) == b.subrange(rpos(ds.drop_last()), rpos(ds))
    }
}
/// a script that turns `a` into `b`
spec fn script(ds: Seq<Diff>, a: Seq<u8>, b: Seq<u8>) -> bool {
    played(ds, a, b) && lpos(ds) == a.len() && rpos(ds) == b.len()
}
proof fn lemma_script_push(ds: Seq<Diff>, d: Diff)
    ensures lpos(ds.push(d)) == lpos(ds) + dl(d), rpos(ds.push(d)) == rpos(ds) + dr(d),
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] played(ds.push(d), a, b) == (played(ds, a, b) && lpos(ds) + dl(d) <= a.len() && rpos(ds) + dr(d) <= b.len()
            && (d is Both ==> a.subrange(lpos(ds), lpos(ds) + dl(d)) == b.subrange(rpos(ds), rpos(ds) + dr(d)))),
{
    assert(ds.push(d).drop_last() =~= ds);
}
proof fn lemma_pos(ds: Seq<Diff>)
    ensures lpos(ds) >= 0, rpos(ds) >= 0,
    decreases ds.len()
{
    if ds.len() > 0 { lemma_pos(ds.drop_last()); }
}
/// every prefix of a script is one
proof fn lemma_script_prefix(ds: Seq<Diff>, k: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= k <= ds.len(), played(ds, a, b)
    ensures played(ds.take(k), a, b), 0 <= lpos(ds.take(k)) <= lpos(ds), 0 <= rpos(ds.take(k)) <= rpos(ds),
    decreases ds.len()
{
    lemma_pos(ds.take(k));
    if k < ds.len() {
        lemma_script_prefix(ds.drop_last(), k, a, b);
        assert(ds.drop_last().take(k) =~= ds.take(k));
    } else {
        assert(ds.take(k) =~= ds);
    }
}
/// one step of a script
proof fn lemma_script_step(ds: Seq<Diff>, k: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= k < ds.len(), played(ds, a, b)
    ensures ({
        let i = lpos(ds.take(k)); let j = rpos(ds.take(k));
        let i2 = lpos(ds.take(k + 1)); let j2 = rpos(ds.take(k + 1));
        &&& 0 <= i <= i2 <= a.len() && 0 <= j <= j2 <= b.len()
        &&& i2 == i + dl(ds[k]) && j2 == j + dr(ds[k])
        &&& ds[k] is Both ==> a.subrange(i, i2) == b.subrange(j, j2)
    })
{
    lemma_script_prefix(ds, k + 1, a, b);
    lemma_script_prefix(ds, k, a, b);
    assert(ds.take(k + 1).drop_last() =~= ds.take(k));
    assert(ds.take(k + 1).last() == ds[k]);
}
