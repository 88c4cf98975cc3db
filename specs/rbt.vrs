//@ verus
//once rbt
// ---- piece sequences ---------------------------------------------------------
spec fn hasoff(p: Piece, off: int) -> bool { p.offset <= off && off < p.offset + p.length }
/// sorted, non-overlapping, no empty piece
#[verifier::opaque]
spec fn sd(s: Seq<Piece>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).length > 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] bef(s[i], s[j])
}
spec fn bef(p: Piece, q: Piece) -> bool { p.offset + p.length <= q.offset }
/// number of pieces starting before `off` (sorted sequences)
spec fn ipos(s: Seq<Piece>, off: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s.last().offset < off { s.len() as int } else { ipos(s.drop_last(), off) }
}
proof fn lemma_ipos(s: Seq<Piece>, off: int, k: int)
    requires 0 <= k <= s.len(),
        forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).offset < off,
        forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).offset >= off,
    ensures ipos(s, off) == k
    decreases s.len()
{
    if s.len() > k { lemma_ipos(s.drop_last(), off, k); }
}
spec fn consec(a: Piece, b: Piece) -> bool {
    a.offset + a.length == b.offset && a.original == b.original && a.start + a.length == b.start
}
spec fn joined(a: Piece, b: Piece) -> Piece {
    Piece { offset: a.offset, start: a.start, length: (a.length + b.length) as usize, original: a.original }
}
/// `s` after merging the neighbours at is[0], then at is[1], ...
spec fn merges(s: Seq<Piece>, is: Seq<int>) -> Seq<Piece>
    decreases is.len()
{
    if is.len() == 0 { s } else { merge_at(merges(s, is.drop_last()), is.last()) }
}
spec fn merges_ok(s: Seq<Piece>, is: Seq<int>) -> bool
    decreases is.len()
{
    is.len() == 0 || ({
        let p = merges(s, is.drop_last());
        merges_ok(s, is.drop_last()) && 0 <= is.last() < p.len() - 1 && consec(p[is.last()], p[is.last() + 1])
    })
}
/// `t` comes from `s` by merging consecutive neighbours
spec fn repacked(s: Seq<Piece>, t: Seq<Piece>) -> bool {
    exists|is: Seq<int>| #[trigger] merges_ok(s, is) && t == merges(s, is)
}
spec fn merge_at(s: Seq<Piece>, i: int) -> Seq<Piece> {
    s.take(i).push(joined(s[i], s[i + 1])) + s.skip(i + 2)
}

// ---- trusted: rbtset 1.0 over pieces -----------------------------------------
// (its ordering comes from Piece::cmp / Piece::eq / Piece::consecutive /
//  Piece::merged, whose contracts are proved below)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct RBTreeSet<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Node<T> { _p: core::marker::PhantomData<T> }
uninterp spec fn node_idx(n: Node<Piece>) -> int;
uninterp spec fn node_ver(n: Node<Piece>) -> int;
uninterp spec fn set_ver(n: RBTreeSet<Piece>) -> int;
impl vstd::view::View for RBTreeSet<Piece> {
    type V = Seq<Piece>;
    uninterp spec fn view(&self) -> Seq<Piece>;
}
/// `n` is the handle of the k-th element of `s`
spec fn at(s: RBTreeSet<Piece>, n: Node<Piece>, k: int) -> bool {
    node_ver(n) == set_ver(s) && node_idx(n) == k && 0 <= k < s@.len()
}
impl RBTreeSet<Piece> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: Piece) -> (r: Option<Node<Piece>>)
        requires sd(old(self)@),
        ensures
            r is None <==> exists|i: int| 0 <= i < old(self)@.len() && hasoff(#[trigger] old(self)@[i], p.offset as int),
            r is None ==> final(self)@ == old(self)@ && set_ver(*final(self)) == set_ver(*old(self)),
            r matches Some(n) ==> ({
                let k = ipos(old(self)@, p.offset as int);
                final(self)@ == old(self)@.insert(k, p) && at(*final(self), n, k)
            }),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_node(&self, p: &Piece) -> (r: Option<Node<Piece>>)
        requires sd(self@),
        ensures match r {
            Some(n) => at(*self, n, node_idx(n)) && hasoff(self@[node_idx(n)], p.offset as int),
            None => forall|i: int| 0 <= i < self@.len() ==> !hasoff(#[trigger] self@[i], p.offset as int),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, p: &Piece) -> (r: bool)
        requires sd(old(self)@),
        ensures
            !r ==> final(self)@ == old(self)@ && set_ver(*final(self)) == set_ver(*old(self)),
            r <==> exists|i: int| 0 <= i < old(self)@.len() && hasoff(#[trigger] old(self)@[i], p.offset as int),
            forall|i: int| 0 <= i < old(self)@.len() && hasoff(#[trigger] old(self)@[i], p.offset as int) ==> final(self)@ == old(self)@.remove(i),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_node(&mut self, n: &mut Node<Piece>)
        requires at(*old(self), *old(n), node_idx(*old(n))),
        ensures final(self)@ == old(self)@.remove(node_idx(*old(n))),
    { unimplemented!() }
    #[verifier::external_body]
    fn first(&self) -> (r: Option<Node<Piece>>)
        ensures match r { Some(n) => at(*self, n, 0), None => self@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    fn last(&self) -> (r: Option<Node<Piece>>)
        ensures match r { Some(n) => at(*self, n, self@.len() - 1), None => self@.len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_values(&self) -> (r: VxIter<Piece>)
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_values_from(&self, n: &Node<Piece>) -> (r: VxIter<Piece>)
        requires at(*self, *n, node_idx(*n)),
        ensures r@ == self@.skip(node_idx(*n)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter_from(&self, n: &Node<Piece>) -> (r: VxIter<Node<Piece>>)
        requires at(*self, *n, node_idx(*n)),
        ensures r@.len() == self@.len() - node_idx(*n),
            forall|i: int| 0 <= i < r@.len() ==> at(*self, #[trigger] r@[i], node_idx(*n) + i),
    { unimplemented!() }
    #[verifier::external_body]
    fn repack(&mut self)
        requires sd(old(self)@),
        ensures repacked(old(self)@, final(self)@),
    { unimplemented!() }
    // node.data() / node.apply(f), routed through the owning tree
    #[verifier::external_body]
    fn vx_data(&self, n: &Node<Piece>) -> (r: Piece)
        requires at(*self, *n, node_idx(*n)),
        ensures r == self@[node_idx(*n)],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_take(&self, n: &Node<Piece>) -> (r: Piece)
        requires at(*self, *n, node_idx(*n)),
        ensures r == self@[node_idx(*n)],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_put(&mut self, n: &Node<Piece>, d: Piece)
        requires at(*old(self), *n, node_idx(*n)),
        ensures final(self)@ == old(self)@.update(node_idx(*n), d), set_ver(*final(self)) == set_ver(*old(self)),
    { unimplemented!() }
}
