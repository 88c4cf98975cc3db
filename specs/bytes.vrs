//@ include common.vrs
//@ verus
//once bytes
// ---- trusted: strings as UTF-8 bytes ---------------------------------------
/// the bytes of a string
spec fn sbytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// text read back from bytes (U+FFFD for what is no UTF-8)
uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
broadcast axiom fn axiom_lossy(s: Seq<char>)
    ensures #[trigger] lossy(vstd::utf8::encode_utf8(s)) == s;

pub assume_specification [ String::as_bytes ] (s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [ String::into_bytes ] (s: String) -> (r: Vec<u8>)
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [ String::len ] (s: &String) -> (r: usize)
    // a String never holds more than isize::MAX bytes (language guarantee)
    ensures r == vstd::utf8::encode_utf8(s@).len(), r <= 0x7fff_ffff_ffff_ffff;

#[verifier::external_body]
fn vx_lossy(b: &[u8]) -> (r: String)
    ensures r@ == lossy(b@)
{ unimplemented!() }

/// a Vec never holds more than isize::MAX bytes (language guarantee)
broadcast axiom fn axiom_vec_cap(v: Vec<u8>)
    ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;

spec fn incr(s: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j]
}
/// `nl` lists exactly the line feeds of `b`, in order
spec fn lfs(nl: Seq<usize>, b: Seq<u8>) -> bool {
    &&& incr(nl)
    &&& forall|x: usize| #[trigger] nl.contains(x) <==> (x < b.len() && b[x as int] == 10u8)
}

trait VxBytesExt {
    spec fn vx_b(&self) -> Seq<u8>;
    /// positions of the line feeds (bstr: find_iter, str: match_indices)
    fn vx_find_iter(&self, pat: &str) -> (r: VxIter<usize>)
        requires pat@.len() == 1 && pat@[0] == '\n'
        ensures lfs(r@, self.vx_b());
}
impl VxBytesExt for [u8] {
    spec fn vx_b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_find_iter(&self, pat: &str) -> (r: VxIter<usize>) { unimplemented!() }
}
trait VxStrExt {
    spec fn vx_sb(&self) -> Seq<u8>;
    fn vx_match_indices(&self, c: char) -> (r: VxIter<(usize, char)>)
        requires c == '\n'
        ensures lfs(r@.map_values(|e: (usize, char)| e.0), self.vx_sb());
}
impl VxStrExt for String {
    spec fn vx_sb(&self) -> Seq<u8> { sbytes(self@) }
    #[verifier::external_body]
    fn vx_match_indices(&self, c: char) -> (r: VxIter<(usize, char)>) { unimplemented!() }
}

/// Vec<&[u8]>::concat
spec fn cat(s: Seq<&[u8]>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last()@ }
}
trait VxConcat {
    spec fn vx_cat(&self) -> Seq<u8>;
    fn vx_concat(&self) -> (r: Vec<u8>) ensures r@ == self.vx_cat();
}
impl<'a> VxConcat for Vec<&'a [u8]> {
    spec fn vx_cat(&self) -> Seq<u8> { cat(self@) }
    #[verifier::external_body]
    fn vx_concat(&self) -> (r: Vec<u8>) { unimplemented!() }
}
trait VxExtend<X> {
    spec fn vx_ext(&self, x: X, after: &Self) -> bool;
    fn vx_extend(&mut self, x: X) ensures old(self).vx_ext(x, final(self));
}
impl<'a> VxExtend<&'a [u8]> for Vec<u8> {
    spec fn vx_ext(&self, x: &'a [u8], after: &Self) -> bool { after@ == self@ + x@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, x: &'a [u8]) { unimplemented!() }
}

// ---- trusted: BTreeSet<usize> -----------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct BTreeSet<T> { _p: core::marker::PhantomData<T> }
impl vstd::view::View for BTreeSet<usize> {
    type V = Seq<usize>;
    uninterp spec fn view(&self) -> Seq<usize>;
}
broadcast axiom fn axiom_bset(s: BTreeSet<usize>)
    ensures incr(#[trigger] s@);

/// how many elements of the increasing `s` are smaller than `x`
spec fn below(s: Seq<usize>, x: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s.last() < x { s.len() as int } else { below(s.drop_last(), x) }
}

impl BTreeSet<usize> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, x: usize) -> (r: bool)
        ensures forall|y: usize| #[trigger] final(self)@.contains(y) <==> old(self)@.contains(y) || y == x
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend_one(&mut self, x: usize)
        ensures forall|y: usize| #[trigger] final(self)@.contains(y) <==> old(self)@.contains(y) || y == x
    { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, x: &usize) -> (r: Option<&usize>)
        ensures r is Some <==> self@.contains(*x), r is Some ==> *r.unwrap() == *x
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a usize>)
        ensures r@.len() == self@.len(), forall|i: int| #![auto] 0 <= i < r@.len() ==> *r@[i] == self@[i]
    { unimplemented!() }
    /// range(..x)
    #[verifier::external_body]
    fn vx_range_to<'a>(&'a self, x: usize) -> (r: VxIter<&'a usize>)
        ensures r@.len() == below(self@, x as int), forall|i: int| #![auto] 0 <= i < r@.len() ==> *r@[i] == self@[i]
    { unimplemented!() }
    /// range(..=x)
    #[verifier::external_body]
    fn vx_range_to_incl<'a>(&'a self, x: usize) -> (r: VxIter<&'a usize>)
        ensures r@.len() == below(self@, x + 1), forall|i: int| #![auto] 0 <= i < r@.len() ==> *r@[i] == self@[i]
    { unimplemented!() }
    /// range(x..)
    #[verifier::external_body]
    fn vx_range_from<'a>(&'a self, x: usize) -> (r: VxIter<&'a usize>)
        ensures r@.len() == self@.len() - below(self@, x as int),
            forall|i: int| #![auto] 0 <= i < r@.len() ==> *r@[i] == self@[i + below(self@, x as int)]
    { unimplemented!() }
}
impl VxExtend<Vec<usize>> for BTreeSet<usize> {
    spec fn vx_ext(&self, x: Vec<usize>, after: &Self) -> bool {
        forall|y: usize| #[trigger] after@.contains(y) <==> self@.contains(y) || x@.contains(y)
    }
    #[verifier::external_body]
    fn vx_extend(&mut self, x: Vec<usize>) { unimplemented!() }
}

proof fn lemma_below(s: Seq<usize>, x: int)
    requires incr(s)
    ensures 0 <= below(s, x) <= s.len(),
        forall|i: int| 0 <= i < below(s, x) ==> s[i] < x,
        forall|i: int| below(s, x) <= i < s.len() ==> s[i] >= x,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(incr(t));
        if s.last() >= x {
            lemma_below(t, x);
            assert forall|i: int| 0 <= i < below(s, x) implies s[i] < x by { assert(t[i] < x); }
            assert forall|i: int| below(s, x) <= i < s.len() implies s[i] >= x by { if i < t.len() { assert(t[i] >= x); } }
        }
    }
}
/// increasing sequences with the same members are equal
proof fn lemma_incr_unique(s: Seq<usize>, t: Seq<usize>)
    requires incr(s), incr(t), forall|x: usize| s.contains(x) <==> t.contains(x)
    ensures s == t
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(t.contains(t[0])); }
        assert(s =~= t);
    } else if t.len() == 0 {
        assert(s.contains(s[0]));
    } else {
        let a = s.last();
        let b = t.last();
        assert(s.contains(a) && t.contains(b));
        assert(a == b) by {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
            let j = choose|j: int| 0 <= j < s.len() && s[j] == b;
        }
        let s1 = s.drop_last();
        let t1 = t.drop_last();
        assert forall|x: usize| s1.contains(x) <==> t1.contains(x) by {
            if s1.contains(x) {
                let i = choose|i: int| 0 <= i < s1.len() && s1[i] == x;
                assert(s[i] == x); assert(t.contains(x));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                assert(t1[j] == x);
            }
            if t1.contains(x) {
                let i = choose|i: int| 0 <= i < t1.len() && t1[i] == x;
                assert(t[i] == x); assert(s.contains(x));
                let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
                assert(s1[j] == x);
            }
        }
        lemma_incr_unique(s1, t1);
        assert(s =~= s1.push(a)); assert(t =~= t1.push(b));
    }
}

trait VxSort: Sized {
    spec fn vx_sorted(&self) -> bool;
    fn vx_sort(&mut self) requires old(self).vx_sorted() ensures *final(self) == *old(self);
}
/// sort_unstable leaves what is strictly increasing as it is
impl<'a> VxSort for Vec<&'a usize> {
    spec fn vx_sorted(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self@.len() ==> *self@[i] < *self@[j] }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
}
proof fn lemma_sbytes_empty(s: Seq<char>)
    ensures sbytes(s).len() == 0 <==> s.len() == 0
{
    vstd::utf8::encode_utf8_decode_utf8(s);
    vstd::utf8::encode_utf8_decode_utf8(Seq::<char>::empty());
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
    if sbytes(s).len() == 0 { assert(sbytes(s) =~= vstd::utf8::encode_utf8(Seq::<char>::empty())); }
}
