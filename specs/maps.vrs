//@ verus
//once maps
// ---- trusted: hash maps and sets; StackMap as unit stackmap proves it ------------
/// the texts are listed once each
spec fn lists(v: Seq<String>, d: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> d.contains(#[trigger] v[i]@)
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
    &&& forall|k: Seq<char>| #[trigger] d.contains(k) ==> listed(v, k)
}
spec fn listed(v: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k }
spec fn valued<V>(m: Map<Seq<char>, V>, v: V) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && m[k] == v }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<V> HashMap<String, V> {
    uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.m() == Map::<Seq<char>, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self.m().contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self.m().contains_key(k@) && *v == self.m()[k@], None => !self.m().contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).m().contains_key(k@) && *v == old(self).m()[k@] && final(self).m() == old(self).m().insert(k@, *final(v)),
            None => !old(self).m().contains_key(k@) && *final(self) == *old(self),
        }
    { unimplemented!() }
    /// self[k]
    #[verifier::external_body]
    fn vx_index(&self, k: &str) -> (r: &V)
        requires self.m().contains_key(k@)
        ensures *r == self.m()[k@]
    { unimplemented!() }
    /// self.get_mut(k).unwrap()
    #[verifier::external_body]
    fn vx_at(&mut self, k: &str) -> (r: &mut V)
        requires old(self).m().contains_key(k@)
        ensures *r == old(self).m()[k@], final(self).m() == old(self).m().insert(k@, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures
            r == (if old(self).m().contains_key(k@) { Some(old(self).m()[k@]) } else { None }),
            final(self).m() == old(self).m().remove(k@),
    { unimplemented!() }
    /// self.entry(k).or_insert(d)
    #[verifier::external_body]
    fn vx_entry(&mut self, k: String, d: V) -> (r: &mut V)
        ensures
            *r == (if old(self).m().contains_key(k@) { old(self).m()[k@] } else { d }),
            final(self).m() == old(self).m().insert(k@, *final(r)),
    { unimplemented!() }
    /// the keys in the order of iteration
    #[verifier::external_body]
    fn vx_snapshot(&self) -> (r: Vec<String>)
        ensures lists(r@, self.m().dom())
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures lists(Seq::new(r@.len(), |i: int| *r@[i]), self.m().dom())
    { unimplemented!() }
}
fn vx_new_map<V>() -> (r: HashMap<String, V>)
    ensures r.m() == Map::<Seq<char>, V>::empty()
{ HashMap::new() }
impl<V> HashMap<String, V> {
    /// one step of collect()
    fn vx_insert_pair(&mut self, p: (String, V))
        ensures final(self).m() == old(self).m().insert(p.0@, p.1)
    { self.insert(p.0, p.1); }
}
//@ if order
/// the recency order after k has been used
spec fn used<K>(s: Seq<K>, k: K) -> Seq<K> {
    seq![k] + forgotten(s, k)
}
/// the recency order without k
spec fn forgotten<K>(s: Seq<K>, k: K) -> Seq<K> {
    if s.contains(k) { s.remove(s.index_of(k)) } else { s }
}
//@ end
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct StackMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<V> StackMap<String, V> {
    uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    /// the keys, latest first
    uninterp spec fn order(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    broadcast proof fn axiom_order(&self)
        ensures #![trigger self.order()]
            forall|i: int| 0 <= i < self.order().len() ==> self.m().contains_key(#[trigger] self.order()[i]),
            self.order().len() == 0 ==> self.m() == Map::<Seq<char>, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self.m().contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.order().len() == 0), r == (self.m() == Map::<Seq<char>, V>::empty())
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_index(&self, k: &str) -> (r: &V)
        requires self.m().contains_key(k@)
        ensures *r == self.m()[k@]
    { unimplemented!() }
    #[verifier::external_body]
    fn latest_value(&self) -> (r: Option<&V>)
        ensures match r {
            Some(v) => self.order().len() > 0 && self.m().contains_key(self.order()[0]) && *v == self.m()[self.order()[0]],
            None => self.order().len() == 0,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures
//@ if order
            final(self).order() == used(old(self).order(), k@),
//@ end
            final(self).m() == old(self).m().insert(k@, v), final(self).order().len() > 0, final(self).order()[0] == k@
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures
            r == (if old(self).m().contains_key(k@) { Some(old(self).m()[k@]) } else { None }),
            final(self).m() == old(self).m().remove(k@),
//@ if order
            final(self).order() == forgotten(old(self).order(), k@),
//@ end
            old(self).order().len() > 0 && old(self).order()[0] != k@ ==> final(self).order().len() > 0 && final(self).order()[0] == old(self).order()[0],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_values<'a>(&'a self) -> (r: VxIter<&'a V>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> valued(self.m(), *#[trigger] r@[i]),
            forall|k: Seq<char>| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == self.m()[k],
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures lists(Seq::new(r@.len(), |i: int| *r@[i]), self.m().dom())
    { unimplemented!() }
}
impl<V> StackMap<usize, V> {
    uninterp spec fn ids(&self) -> Map<usize, V>;
//@ if order
    /// the keys, latest first
    uninterp spec fn seats(&self) -> Seq<usize>;
//@ end
    #[verifier::external_body]
    fn latest(&self) -> (r: Option<&usize>)
        ensures
//@ if order
            match r { Some(k) => self.seats().len() > 0 && *k == self.seats()[0], None => self.seats().len() == 0 },
//@ end
            match r { Some(k) => self.ids().contains_key(*k), None => self.ids() == Map::<usize, V>::empty() },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_index(&self, k: &usize) -> (r: &V)
        requires self.ids().contains_key(*k)
        ensures *r == self.ids()[*k]
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_at(&mut self, k: &usize) -> (r: &mut V)
        requires old(self).ids().contains_key(*k)
        ensures
//@ if order
            final(self).seats() == old(self).seats(),
//@ end
            *r == old(self).ids()[*k], final(self).ids() == old(self).ids().insert(*k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: usize, v: V) -> (r: Option<V>)
        ensures
//@ if order
            final(self).seats() == used(old(self).seats(), k),
//@ end
            final(self).ids() == old(self).ids().insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &usize) -> (r: Option<V>)
        ensures
//@ if order
            final(self).seats() == forgotten(old(self).seats(), *k),
//@ end
            final(self).ids() == old(self).ids().remove(*k)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_snapshot(&self) -> (r: Vec<usize>)
        ensures r@.no_duplicates(), forall|k: usize| self.ids().contains_key(k) <==> #[trigger] r@.contains(k)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<(&'a usize, &'a V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.ids().contains_key(*(#[trigger] r@[i]).0) && *r@[i].1 == self.ids()[*r@[i].0],
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0,
            forall|k: usize| #[trigger] self.ids().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct HashSet<T> { _t: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    uninterp spec fn hs(&self) -> Set<T>;
    /// the elements in the order of iteration
    uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    broadcast proof fn axiom_items(&self)
        ensures #![trigger self.items()] self.items().no_duplicates(), forall|x: T| #[trigger] self.items().contains(x) <==> self.hs().contains(x)
    { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.hs() == Set::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self).hs() == old(self).hs().insert(x)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend(&mut self, v: Vec<T>)
        ensures forall|x: T| #[trigger] final(self).hs().contains(x) <==> (old(self).hs().contains(x) || v@.contains(x))
    { unimplemented!() }
}
impl HashSet<String> {
    /// strings that read the same are the same
    #[verifier::external_body]
    broadcast proof fn axiom_names(&self)
        ensures #![trigger self.items()] forall|i: int, j: int| 0 <= i < j < self.items().len() ==> (#[trigger] self.items()[i])@ != (#[trigger] self.items()[j])@
    { unimplemented!() }
}
impl<T> VxIntoIter for HashSet<T> {
    type Item = T;
    spec fn vx_items(&self) -> Seq<T> { self.items() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a HashSet<T> {
    type Item = &'a T;
    spec fn vx_items(&self) -> Seq<&'a T> { Seq::new(self.items().len(), |i: int| &self.items()[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
