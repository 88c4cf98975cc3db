//@ unit stackmap
//@ include common.vrs
//@ rewrite Self :: Target => HashMap<K, V>
//@ verus
use std::collections::HashMap;
use std::hash::Hash;
use vstd::std_specs::cmp::PartialEqSpec;

/// K's equality, hash and clone are lawful (true of every key type of the program).
spec fn lawful<K: Clone + Eq + Hash>() -> bool {
    vstd::std_specs::hash::obeys_key_model::<K>()
    && K::obeys_eq_spec()
    && (forall|x: K, y: K| (x == y) == (#[trigger] x.eq_spec(&y)))
    && (forall|a: &K, b: K| #[trigger] call_ensures(K::clone, (a,), b) ==> *a == b)
}

//@ source core/src/stackmap.rs
//@ struct InvalidOp Debug
//@ struct StackMap
impl<K, V> StackMap<K, V> where K: Clone + Eq + Hash {
    /// every stored key is listed exactly once, and nothing else is
    spec fn wf(&self) -> bool {
        lawful::<K>()
        && self.stack@.no_duplicates()
        && (forall|i: int| 0 <= i < self.stack@.len() ==> self.map@.contains_key(#[trigger] self.stack@[i]))
        && (forall|k: K| #[trigger] self.map@.contains_key(k) ==> self.stack@.contains(k))
    }
}
/// the recency order after k was used
spec fn used<K>(s: Seq<K>, k: K) -> Seq<K> {
    seq![k] + forgotten(s, k)
}
/// the recency order without k
spec fn forgotten<K>(s: Seq<K>, k: K) -> Seq<K> {
    if s.contains(k) { s.remove(s.index_of(k)) } else { s }
}
proof fn lemma_index<K>(s: Seq<K>, k: K, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(), s[i] == k
    ensures s.contains(k), s.index_of(k) == i
{
}
proof fn lemma_forgotten<K>(s: Seq<K>, k: K)
    requires s.no_duplicates()
    ensures
        forgotten(s, k).no_duplicates(), !forgotten(s, k).contains(k),
        forall|x: K| x != k ==> (#[trigger] forgotten(s, k).contains(x) <==> s.contains(x)),
{
    let f = forgotten(s, k);
    if s.contains(k) {
        let n = s.index_of(k);
        assert forall|x: K| x != k implies (#[trigger] f.contains(x) <==> s.contains(x)) by {
            if s.contains(x) {
                let i = s.index_of(x);
                if i < n { assert(f[i] == x); } else { assert(f[i - 1] == x); }
            }
            if f.contains(x) {
                let i = f.index_of(x);
                if i < n { assert(s[i] == x); } else { assert(s[i + 1] == x); }
            }
        }
    }
}
proof fn lemma_used<K>(s: Seq<K>, k: K)
    requires s.no_duplicates()
    ensures
        used(s, k).no_duplicates(), used(s, k).contains(k), used(s, k)[0] == k,
        forall|x: K| #[trigger] used(s, k).contains(x) <==> (x == k || s.contains(x)),
{
    lemma_forgotten(s, k);
    let f = forgotten(s, k);
    let u = used(s, k);
    assert(u[0] == k);
    assert(u =~= seq![k] + f);
    assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by {
        if i == 0 { assert(f.contains(f[j - 1])); } else if j == 0 { assert(f.contains(f[i - 1])); }
    }
    assert forall|x: K| #[trigger] u.contains(x) <==> (x == k || s.contains(x)) by {
        if u.contains(x) && x != k {
            let i = u.index_of(x);
            assert(f[i - 1] == x);
        }
        if x != k && s.contains(x) {
            assert(f.contains(x));
            let i = f.index_of(x);
            assert(u[i + 1] == x);
        }
    }
}
//@ fn StackMap::new
    requires lawful::<K>()
    ensures result.wf(), result.stack@ == Seq::<K>::empty(), result.map@ == Map::<K, V>::empty()
//@ exit
    assert(vx_ret.map@ =~= Map::<K, V>::empty());
//@ fn StackMap::latest
    requires self.wf()
    ensures result == (if self.stack@.len() == 0 { None } else { Some(&self.stack@[0]) })
//@ fn StackMap::latest_value
    requires self.wf()
    ensures match result {
        Some(v) => self.stack@.len() > 0 && *v == self.map@[self.stack@[0]],
        None => self.stack@.len() == 0,
    }
//@ fn StackMap::set_last
    requires
        // insert() calls this with the key it just stored
        lawful::<K>(), old(self).stack@.no_duplicates(),
    ensures
        result is Ok <==> old(self).map@.contains_key(k),
        final(self).map@ == old(self).map@,
        result is Err ==> final(self).stack@ == old(self).stack@,
        result is Ok ==> final(self).stack@ == used(old(self).stack@, k),
        old(self).wf() ==> final(self).wf(),
//@ loop 0 before
    let ghost vx_all0 = vx_it0@;
//@ loop 0
    invariant_except_break
        vx_n0 <= self.stack@.len(), vx_it0@ == vx_all0.skip(vx_n0 as int), vx_acc0 is None,
    invariant
        vx_all0.len() == self.stack@.len(), forall|i: int| #![auto] 0 <= i < vx_all0.len() ==> *vx_all0[i] == self.stack@[i],
        lawful::<K>(), vx_n0 <= self.stack@.len(), self.stack@.len() == self.stack.len(),
        forall|i: int| 0 <= i < vx_n0 ==> self.stack@[i] != k,
    ensures
        match vx_acc0 {
            Some(i) => i < self.stack@.len() && self.stack@[i as int] == k,
            None => vx_n0 == self.stack@.len(),
        },
    decreases self.stack@.len() - vx_n0
//@ loop 0 after
    proof {
        if vx_acc0 is Some { lemma_index(self.stack@, k, vx_acc0->0 as int); }
    }
//@ exit
    proof {
        lemma_used(old(self).stack@, k);
        assert(self.stack@ =~= used(old(self).stack@, k));
    }
//@ fn StackMap::insert
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).stack@ == used(old(self).stack@, k),
        final(self).map@ == old(self).map@.insert(k, v),
        match result {
            Some(o) => old(self).map@.contains_key(k) && o == old(self).map@[k],
            None => !old(self).map@.contains_key(k),
        },
//@ entry
    let ghost st = self.stack@;
    proof { lemma_used(st, k); }
//@ fn StackMap::remove
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).stack@ == forgotten(old(self).stack@, *k),
        final(self).map@ == old(self).map@.remove(*k),
        match result {
            Some(o) => old(self).map@.contains_key(*k) && o == old(self).map@[*k],
            None => !old(self).map@.contains_key(*k),
        },
//@ entry
    let ghost st = self.stack@;
    proof { lemma_forgotten(st, *k); }
//@ loop 0 before
    let ghost vx_all0 = vx_it0@;
//@ loop 0
    invariant_except_break
        vx_n0 <= self.stack@.len(), vx_it0@ == vx_all0.skip(vx_n0 as int), vx_acc0 is None,
    invariant
        vx_all0.len() == self.stack@.len(), forall|i: int| #![auto] 0 <= i < vx_all0.len() ==> *vx_all0[i] == self.stack@[i],
        lawful::<K>(), vx_n0 <= self.stack@.len(), self.stack@.len() == self.stack.len(),
        forall|i: int| 0 <= i < vx_n0 ==> self.stack@[i] != *k,
    ensures
        match vx_acc0 {
            Some(i) => i < self.stack@.len() && self.stack@[i as int] == *k,
            None => vx_n0 == self.stack@.len(),
        },
    decreases self.stack@.len() - vx_n0
//@ loop 0 after
    proof {
        if vx_acc0 is Some { lemma_index(self.stack@, *k, vx_acc0->0 as int); }
    }
//@ fn Deref@StackMap::deref
    ensures result == &self.map
//@ fn DerefMut@StackMap::deref_mut
    ensures *result == old(self).map, *final(result) == final(self).map, final(self).stack@ == old(self).stack@
