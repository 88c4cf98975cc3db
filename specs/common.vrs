//@ verus
//once common
global size_of usize == 8;
use core::cmp::Ordering;
use core::cmp::{max, min};
// ---- trusted prelude: iterators, Vec/slice/String helpers -----------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIter<T> { _p: core::marker::PhantomData<T> }

impl<T> vstd::view::View for VxIter<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

impl<T> VxIter<T> {
    /// remaining elements, front first
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_skip(self, n: usize) -> (r: VxIter<T>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() })
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_rev(self) -> (r: VxIter<T>)
        ensures r@ == self@.reverse()
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_nth(self, n: usize) -> (r: Option<T>)
        ensures match r { Some(x) => n < self@.len() && x == self@[n as int], None => n >= self@.len() }
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_next(self) -> (r: Option<T>)
        ensures match r { Some(x) => self@.len() > 0 && x == self@[0], None => self@.len() == 0 }
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_last(self) -> (r: Option<T>)
        ensures match r { Some(x) => self@.len() > 0 && x == self@.last(), None => self@.len() == 0 }
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_count(self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }

    #[verifier::external_body]
    fn vx_collect_vec(self) -> (r: Vec<T>)
        ensures r@ == self@
    { unimplemented!() }
}

#[verifier::external_body]
fn vx_range(a: usize, b: usize) -> (r: VxIter<usize>)
    ensures r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| #![auto] 0 <= i < r@.len() ==> r@[i] == a + i
{ unimplemented!() }

#[verifier::external_body]
fn vx_range_incl(a: usize, b: usize) -> (r: VxIter<usize>)
    ensures r@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: int| #![auto] 0 <= i < r@.len() ==> r@[i] == a + i
{ unimplemented!() }

/// assert! : the condition has to hold
fn vx_assert(c: bool)
    requires c
{ }

/// panic! and friends: has to be unreachable
#[verifier::external_body]
fn vx_panic() -> !
    requires false
{ unimplemented!() }

#[verifier::external_body]
fn vx_diverge<T>() -> T
    opens_invariants none
    no_unwind
{ unimplemented!() }

//@ verus
//once slices
// ---- trusted: slices as sources -------------------------------------------
trait VxSliceIter<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>)
        ensures r@.len() == self.vx_seq().len(), forall|i: int| #![auto] 0 <= i < r@.len() ==> *r@[i] == self.vx_seq()[i];
}
impl<T> VxSliceIter<T> for Vec<T> {
    spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T> VxSliceIter<T> for [T] {
    spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}

impl<T> VxSliceIter<T> for VxIter<T> {
    spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
trait VxIntoIter {
    type Item;
    spec fn vx_items(&self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: VxIter<Self::Item>) where Self: Sized
        ensures r@ == self.vx_items();
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type Item = &'a T;
    spec fn vx_items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T> VxIntoIter for Vec<T> {
    type Item = T;
    spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
