//@ sources keys
//@ rewrite . clone () => . vx_clone ()
//@ rewrite . join ( $x ) => . vx_join ($x)
//@ rewrite . to_string () => . vx_to_string ()
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite . sort_by ( | $a , $b | $$body ) => . vx_sort_by ({ let ($a, $b) = vx_any_pair(); vx_cmp_is($$body, $a, $b) })
//@ rewrite LensGroup :: default => LensGroup :: vx_default
//@ rewrite . entry ( $$k ) . or_insert_with ( || $$f ) => . vx_entry ($$k, $$f)
//@ rewrite . entry ( $$k ) . or_insert_with ( $$f ) => . vx_entry ($$k, $$f ())
//@ rewrite . entry ( $$k ) . or_default ( ) => . vx_entry ($$k, LensGroup :: vx_default ())
//@ rewrite View :: default () => View :: vx_default ()
//@ rewrite Range < usize > => core::ops::Range<usize>
//@ verus
use vstd::view::View as VxViewTrait;
// ---- trusted: BTreeMap from strings --------------------------------------------
/// alphabetical order (of characters, which is that of the UTF-8 bytes)
spec fn lex_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) }
    else { lex_lt(a.skip(1), b.skip(1)) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct BTreeMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<V> BTreeMap<String, V> {
    uninterp spec fn bmap(&self) -> Map<Seq<char>, V>;
    /// the keys in the order of iteration
    uninterp spec fn bkeys(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    broadcast proof fn axiom_keys(&self)
        ensures #![trigger self.bkeys()]
            forall|i: int| 0 <= i < self.bkeys().len() ==> self.bmap().contains_key(#[trigger] self.bkeys()[i]),
            forall|k: Seq<char>| #[trigger] self.bmap().contains_key(k) ==> self.bkeys().contains(k),
            forall|i: int, j: int| 0 <= i < j < self.bkeys().len() ==> #[trigger] lex_lt(self.bkeys()[i], self.bkeys()[j]),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_default() -> (r: Self)
        ensures r.bmap() == Map::<Seq<char>, V>::empty(), r.bkeys() == Seq::<Seq<char>>::empty()
    { unimplemented!() }
    /// self.entry(k).or_insert(d)
    #[verifier::external_body]
    fn vx_entry(&mut self, k: String, d: V) -> (r: &mut V)
        ensures
            *r == (if old(self).bmap().contains_key(k@) { old(self).bmap()[k@] } else { d }),
            final(self).bmap() == old(self).bmap().insert(k@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures
            r == (if old(self).bmap().contains_key(k@) { Some(old(self).bmap()[k@]) } else { None }),
            final(self).bmap() == old(self).bmap().remove(k@),
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self.bmap().contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self.bkeys().len()
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.bkeys().len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures r@.len() == self.bkeys().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.bkeys()[i]
    { unimplemented!() }
}
spec fn pairs_of<'a, V>(m: &BTreeMap<String, V>, s: Seq<(&'a String, &'a V)>) -> bool {
    s.len() == m.bkeys().len()
    && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == m.bkeys()[i] && *s[i].1 == m.bmap()[m.bkeys()[i]]
}
trait VxPairs<'a, V> {
    spec fn vx_map(&self) -> &'a BTreeMap<String, V>;
    fn vx_into_iter(self) -> (r: VxIter<(&'a String, &'a V)>) where Self: Sized
        ensures pairs_of(self.vx_map(), r@);
    fn vx_iter(self) -> (r: VxIter<(&'a String, &'a V)>) where Self: Sized
        ensures pairs_of(self.vx_map(), r@);
}
impl<'a, V> VxPairs<'a, V> for &'a BTreeMap<String, V> {
    spec fn vx_map(&self) -> &'a BTreeMap<String, V> { *self }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<(&'a String, &'a V)>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter(self) -> (r: VxIter<(&'a String, &'a V)>) { unimplemented!() }
}
// ---- the specification ------------------------------------------------------------
//@ source core/src/editor/view.rs
//@ enum Focus
//@ struct Lens
//@ struct LensGroup
//@ enum ViewItem
//@ struct View
//@ verus
type VLens = Lens;
/// ranges by start then end, the whole buffer after every range
spec fn fcmp(a: Focus, b: Focus) -> Ordering {
    match (a, b) {
        (Focus::Whole, Focus::Whole) => Ordering::Equal,
        (Focus::Whole, _) => Ordering::Greater,
        (_, Focus::Whole) => Ordering::Less,
        (Focus::Range(a), Focus::Range(b)) =>
            if a.start < b.start { Ordering::Less } else if a.start > b.start { Ordering::Greater }
            else if a.end < b.end { Ordering::Less } else if a.end > b.end { Ordering::Greater }
            else { Ordering::Equal },
    }
}
spec fn fle(a: Focus, b: Focus) -> bool { fcmp(a, b) != Ordering::Greater }
spec fn sorted(s: Seq<VLens>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] fle(s[i].focus, s[j].focus)
}
spec fn fstart(f: Focus) -> int { match f { Focus::Range(r) => r.start as int, Focus::Whole => 0 } }
spec fn fend(f: Focus) -> int { match f { Focus::Range(r) => r.end as int, Focus::Whole => 0 } }
spec fn maxend(s: Seq<VLens>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let m = maxend(s.drop_last()); if m < fend(s.last().focus) { fend(s.last().focus) } else { m } }
}
spec fn has_whole(s: Seq<VLens>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).focus is Whole }
/// the whole buffer if a lens covers it, otherwise the smallest range containing all of them
spec fn header_of(f: Focus, s: Seq<VLens>) -> bool {
    if has_whole(s) { f is Whole }
    else {
        &&& f is Range
        &&& forall|i: int| 0 <= i < s.len() ==> fstart(f) <= fstart((#[trigger] s[i]).focus) && fend(s[i].focus) <= fend(f)
        &&& exists|i: int| 0 <= i < s.len() && fstart((#[trigger] s[i]).focus) == fstart(f)
        &&& exists|i: int| 0 <= i < s.len() && fend((#[trigger] s[i]).focus) == fend(f)
    }
}
proof fn lemma_maxend(s: Seq<VLens>)
    requires s.len() > 0
    ensures
        forall|i: int| 0 <= i < s.len() ==> fend((#[trigger] s[i]).focus) <= maxend(s),
        exists|i: int| 0 <= i < s.len() && fend((#[trigger] s[i]).focus) == maxend(s),
    decreases s.len()
{
    let d = s.drop_last();
    if d.len() > 0 {
        lemma_maxend(d);
        assert forall|i: int| 0 <= i < s.len() implies fend((#[trigger] s[i]).focus) <= maxend(s) by {
            if i < d.len() { assert(d[i] == s[i]); }
        }
        if maxend(d) < fend(s.last().focus) {
            assert(s[s.len() - 1] == s.last());
        } else {
            let k = choose|i: int| 0 <= i < d.len() && fend((#[trigger] d[i]).focus) == maxend(d);
            assert(s[k] == d[k]);
        }
    } else {
        assert(maxend(d) == 0);
        assert(s[0] == s.last());
    }
}
spec fn group_ok(k: Seq<char>, g: LensGroup) -> bool {
    g.0@.len() > 0 && sorted(g.0@) && forall|i: int| 0 <= i < g.0@.len() ==> (#[trigger] g.0@[i]).buffer@ == k
}
impl View {
    spec fn groups(&self) -> Map<Seq<char>, LensGroup> { self.0.bmap() }
    /// no empty group, each one sorted and holding the lenses of its buffer
    spec fn wf(&self) -> bool {
        forall|k: Seq<char>| #[trigger] self.0.bmap().contains_key(k) ==> group_ok(k, self.0.bmap()[k])
    }
    #[verifier::external_body]
    fn vx_default() -> (r: View)
        ensures r.groups() == Map::<Seq<char>, LensGroup>::empty()
    { unimplemented!() }
}
impl LensGroup {
    #[verifier::external_body]
    fn vx_default() -> (r: LensGroup)
        ensures r.0@.len() == 0
    { unimplemented!() }
}
// what a group derefs to
impl LensGroup {
    fn first(&self) -> (r: Option<&VLens>)
        ensures r == (if self.0@.len() == 0 { None } else { Some(&self.0@[0]) })
    { self.0.first() }
    fn last(&self) -> (r: Option<&VLens>)
        ensures r == (if self.0@.len() == 0 { None } else { Some(&self.0@.last()) })
    { self.0.last() }
    fn len(&self) -> (r: usize)
        ensures r == self.0@.len()
    { self.0.len() }
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.0@.len() == 0)
    { self.0.is_empty() }
}
impl VxSliceIter<VLens> for LensGroup {
    spec fn vx_seq(&self) -> Seq<VLens> { self.0@ }
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a VLens>) { self.0.vx_iter() }
}
/// an item: the header of a group or a lens
enum SItem { Header(Seq<char>, Focus), Lens(Lens) }
spec fn sitem(i: ViewItem) -> SItem {
    match i { ViewItem::Header((b, f)) => SItem::Header(b@, f), ViewItem::Lens(l) => SItem::Lens(l) }
}
spec fn sitems(s: Seq<ViewItem>) -> Seq<SItem> { s.map_values(|i: ViewItem| sitem(i)) }
spec fn lens_items(s: Seq<VLens>) -> Seq<SItem> { s.map_values(|l: VLens| SItem::Lens(l)) }
spec fn hdr(s: Seq<VLens>) -> Focus { choose|f: Focus| header_of(f, s) }
/// the items of the first n groups
spec fn view_items(keys: Seq<Seq<char>>, groups: Map<Seq<char>, LensGroup>, n: int) -> Seq<SItem>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let k = keys[n - 1];
        view_items(keys, groups, n - 1).push(SItem::Header(k, hdr(groups[k].0@))) + lens_items(groups[k].0@)
    }
}
proof fn lemma_hdr(f: Focus, s: Seq<VLens>)
    requires header_of(f, s), s.len() > 0
    ensures f == hdr(s)
{
    let g = hdr(s);
    assert(header_of(g, s));
    if !has_whole(s) {
        assert(fstart(f) == fstart(g));
        assert(fend(f) == fend(g));
    }
}
// ---- trusted: sort_by, its comparison being checked to be that of the focuses --------
#[verifier::external_body]
fn vx_any_pair<'a>() -> (r: (&'a VLens, &'a VLens)) { unimplemented!() }
fn vx_cmp_is(o: Ordering, a: &VLens, b: &VLens)
    requires o == fcmp(a.focus, b.focus)
{ }
trait VxSortBy {
    fn vx_sort_by(&mut self, u: ());
}
impl VxSortBy for Vec<VLens> {
    #[verifier::external_body]
    fn vx_sort_by(&mut self, u: ())
        ensures sorted(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len()
    { unimplemented!() }
}
//@ verus
/// the lenses of a buffer, none when it has no group
spec fn lenses_in(m: Map<Seq<char>, LensGroup>, k: Seq<char>) -> Seq<VLens> {
    if m.contains_key(k) { m[k].0@ } else { Seq::empty() }
}
//@ fn Focus::start
    ensures result == fstart(*self)
//@ fn Ord@Focus::cmp
    ensures result == fcmp(*self, *other)
//@ fn PartialOrd@Focus::partial_cmp
    ensures result == Some(fcmp(*self, *other))
//@ fn LensGroup::add
    ensures
        sorted(final(self).0@), final(self).0@.len() == old(self).0@.len() + 1,
        final(self).0@.to_multiset() == old(self).0@.to_multiset().insert(lens),
//@ exit
    proof { old(self).0@.to_multiset_ensures(); }
//@ fn LensGroup::focus
    requires self.0@.len() > 0, sorted(self.0@)
    ensures header_of(result, self.0@), result == hdr(self.0@)
//@ entry
    let ghost s = self.0@;
    proof { lemma_maxend(s); }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
    proof {
        assert(s.take(0) =~= Seq::empty());
        assert(s.take(s.len() as int) =~= s);
        assert(!has_whole(s)) by {
            if has_whole(s) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).focus is Whole;
                if i < s.len() - 1 { assert(fle(s[i].focus, s[s.len() - 1].focus)); }
            }
        }
    }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == s.len(), s.len() > 0, !has_whole(s), s.take(s.len() as int) == s,
        forall|i: int| #![auto] 0 <= i < src.len() ==> *src[i] == s[i],
        vx_acc0 == (if maxend(s.take(k)) < last.end { last.end as int } else { maxend(s.take(k)) }),
    ensures vx_acc0 == (if maxend(s) < last.end { last.end as int } else { maxend(s) }),
    decreases src.len() - k
//@ loop 0 end
    proof {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        k = k + 1;
    }
//@ exit
    proof {
        if vx_ret is Whole {
            assert(has_whole(s)) by { if s[0].focus is Whole {} else { assert(s[s.len() - 1].focus is Whole); } }
        } else {
            assert(!has_whole(s)) by {
                if has_whole(s) {
                    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).focus is Whole;
                    if i < s.len() - 1 { assert(fle(s[i].focus, s[s.len() - 1].focus)); }
                }
            }
            assert forall|i: int| 0 <= i < s.len() implies fstart(vx_ret) <= fstart((#[trigger] s[i]).focus) by {
                if i > 0 { assert(fle(s[0].focus, s[i].focus)); }
            }
            assert(fstart(s[0].focus) == fstart(vx_ret));
        }
        lemma_hdr(vx_ret, s);
    }
//@ fn View::for_buffer
    ensures result.wf(), result.groups().dom() == set![buffer@],
        result.groups()[buffer@].0@.len() == 1, result.groups()[buffer@].0@[0].focus is Whole,
//@ exit
    proof {
        let g = vx_ret.groups()[buffer@].0@;
        g.to_multiset_ensures();
        assert(g.contains(g[0]));
        assert(g.to_multiset().count(g[0]) > 0);
        Seq::<VLens>::empty().to_multiset_ensures();
        assert(!Seq::<VLens>::empty().contains(g[0]));
        assert(Seq::<VLens>::empty().to_multiset().count(g[0]) == 0);
        assert(Seq::<VLens>::empty().to_multiset().len() == 0) by { Seq::<VLens>::empty().to_multiset_ensures(); }
        assert(g.len() == 1);
        assert(vx_ret.groups().dom() =~= set![buffer@]);
    }
//@ verus
/// what joining texts with a separator gives
spec fn joined_with(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined_with(s.drop_last(), sep) + sep + s.last() }
}
spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|t: String| t@) }
trait VxJoin {
    spec fn vx_parts(&self) -> Seq<Seq<char>>;
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined_with(self.vx_parts(), sep@);
}
impl VxJoin for Vec<String> {
    spec fn vx_parts(&self) -> Seq<Seq<char>> { texts(self@) }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
spec fn focus_text(f: Focus) -> Seq<char> {
    match f { Focus::Range(r) => dec(r.start as int) + ".."@ + dec(r.end as int), Focus::Whole => "*"@ }
}
spec fn focus_texts(s: Seq<VLens>) -> Seq<Seq<char>> { s.map_values(|l: VLens| focus_text(l.focus)) }
/// opening braces are doubled so that no name is taken for the rest of a key
spec fn doubled(k: Seq<char>) -> Seq<char> { subst(k, '{', seq!['{', '{']) }
/// buffer{focus,focus,..}
spec fn group_key(k: Seq<char>, s: Seq<VLens>) -> Seq<char> {
    doubled(k) + "{"@ + joined_with(focus_texts(s), ","@) + "}"@
}
spec fn key_parts(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>, n: int) -> Seq<Seq<char>> {
    Seq::new(n as nat, |i: int| group_key(keys[i], m[keys[i]].0@))
}
impl VxShow for Focus {
    spec fn vx_shown(&self) -> Seq<char> { focus_text(*self) }
    fn vx_show_to(&self, f: &mut VxFormatter) { let _ = self.fmt(f); }
}
//@ fn Display@Focus::fmt
    ensures result is Ok, final(f)@ == old(f)@ + focus_text(*self)
//@ exit
    proof {
        assert(f@ =~= old(f)@ + focus_text(*self)) by { reveal_strlit("*"); reveal_strlit(".."); }
    }
//@ fn View::key
    ensures result@ == joined_with(key_parts(self.0.bkeys(), self.groups(), self.0.bkeys().len() as int), "|"@)
//@ entry
    let ghost keys = self.0.bkeys();
    let ghost m = self.groups();
    let ghost mut n = 0int;
//@ loop 0 before
    let ghost src = vx_it0@;
    proof { assert(texts(parts@) =~= key_parts(keys, m, 0)); }
//@ loop 0
    invariant 0 <= n <= src.len(), vx_it0@ == src.skip(n), src.len() == keys.len(), m == self.0.bmap(), keys == self.0.bkeys(),
        pairs_of(&self.0, src), texts(parts@) == key_parts(keys, m, n),
    ensures texts(parts@) == key_parts(keys, m, keys.len() as int),
    decreases src.len() - n
//@ loop 0 entry
    proof {
        reveal_strlit("{");
        reveal_strlit("{{");
    }
//@ loop 1 before
    let ghost ls = vx_it1@;
    let ghost mut k = 0int;
//@ loop 1
    invariant 0 <= k <= ls.len(), vx_it1@ == ls.skip(k), ls.len() == group.0@.len(),
        forall|i: int| #![auto] 0 <= i < ls.len() ==> *ls[i] == group.0@[i],
        texts(vx_acc1@) =~= focus_texts(group.0@).take(k),
    ensures texts(vx_acc1@) =~= focus_texts(group.0@),
    decreases ls.len() - k
//@ loop 1 end
    proof {
        k = k + 1;
    }
//@ loop 0 end
    proof {
        reveal_strlit("{");
        reveal_strlit("{{");
        assert("{{"@ =~= seq!['{', '{']);
        assert(texts(parts@) =~= texts(parts@.drop_last()).push(parts@.last()@));
        assert(parts@.last()@ =~= group_key(keys[n], m[keys[n]].0@));
        assert(key_parts(keys, m, n + 1) =~= key_parts(keys, m, n).push(group_key(keys[n], m[keys[n]].0@)));
        n = n + 1;
    }
//@ fn View::add_lens
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).groups().dom() == old(self).groups().dom().insert(lens.buffer@),
        forall|k: Seq<char>| k != lens.buffer@ && old(self).groups().contains_key(k) ==> final(self).groups()[k] == #[trigger] old(self).groups()[k],
        final(self).groups()[lens.buffer@].0@.to_multiset() == lenses_in(old(self).groups(), lens.buffer@).to_multiset().insert(lens),
//@ entry
    let ghost l0 = lens;
    let ghost bk = lens.buffer@;
    let ghost g0 = lenses_in(self.groups(), bk);
//@ exit
    proof {
        let g1 = self.0.bmap()[bk].0@;
        g0.to_multiset_ensures();
        g1.to_multiset_ensures();
        assert(g1.to_multiset() == g0.to_multiset().insert(l0));
        assert forall|i: int| 0 <= i < g1.len() implies (#[trigger] g1[i]).buffer@ == bk by {
            assert(g1.contains(g1[i]));
            assert(g1.to_multiset().count(g1[i]) > 0);
            if g1[i] != l0 { assert(g0.to_multiset().count(g1[i]) > 0); assert(g0.contains(g1[i])); }
        }
        assert(self.groups().dom() =~= old(self).groups().dom().insert(bk));
    }
//@ fn View::remove_lens_group
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).groups() == old(self).groups().remove(buffer@),
        result == (if old(self).groups().contains_key(buffer@) { Some(old(self).groups()[buffer@]) } else { None }),
//@ fn View::buffers
    ensures
        result@.len() == self.0.bkeys().len(),
        forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i])@ == self.0.bkeys()[i],
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), vx_acc0@ == src.take(k), src.len() == self.0.bkeys().len(),
        forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i])@ == self.0.bkeys()[i],
    ensures vx_acc0@ =~= src,
    decreases src.len() - k
//@ loop 0 end
    proof { assert(src.take(k + 1) =~= src.take(k).push(src[k])); k = k + 1; }
//@ fn View::as_vec
    requires self.wf()
    ensures sitems(result@) == view_items(self.0.bkeys(), self.groups(), self.0.bkeys().len() as int)
//@ entry
    broadcast use BTreeMap::axiom_keys;
    let ghost keys = self.0.bkeys();
    let ghost m = self.groups();
    let ghost mut n = 0int;
//@ loop 0 before
    let ghost src = vx_it0@;
//@ loop 0
    invariant 0 <= n <= src.len(), vx_it0@ == src.skip(n), src.len() == keys.len(), self.wf(), m == self.groups(), m == self.0.bmap(), keys == self.0.bkeys(),
        forall|i: int| 0 <= i < keys.len() ==> m.contains_key(#[trigger] keys[i]),
        pairs_of(&self.0, src), sitems(list@) =~= view_items(keys, m, n),
    ensures n == keys.len(), sitems(list@) =~= view_items(keys, m, n),
    decreases src.len() - n
//@ loop 1 before
    let ghost ls = vx_it1@;
    let ghost mut k = 0int;
    let ghost base = view_items(keys, m, n).push(SItem::Header(keys[n], hdr(m[keys[n]].0@)));
    proof { assert(m.contains_key(keys[n])); assert(sitems(list@) =~= base); assert(group_ok(keys[n], m[keys[n]])); assert(base + lens_items(group.0@.take(0)) =~= base); }
//@ loop 1
    invariant 0 <= k <= ls.len(), vx_it1@ == ls.skip(k), ls.len() == group.0@.len(),
        forall|i: int| #![auto] 0 <= i < ls.len() ==> *ls[i] == group.0@[i],
        sitems(list@) =~= base + lens_items(group.0@.take(k)),
    ensures sitems(list@) =~= base + lens_items(group.0@),
    decreases ls.len() - k
//@ loop 1 end
    proof {
        assert(group.0@.take(k + 1) =~= group.0@.take(k).push(group.0@[k]));
        assert(sitems(list@) =~= sitems(list@.drop_last()).push(sitem(list@.last())));
        assert(sitem(list@.last()) == SItem::Lens(group.0@[k]));
        assert(lens_items(group.0@.take(k + 1)) =~= lens_items(group.0@.take(k)).push(SItem::Lens(group.0@[k])));
        assert((base + lens_items(group.0@.take(k))).push(SItem::Lens(group.0@[k])) =~= base + lens_items(group.0@.take(k + 1)));
        k = k + 1;
        if k == ls.len() { assert(group.0@.take(k) =~= group.0@); }
    }
//@ loop 0 end
    proof { n = n + 1; }
//@ fn View::contains_buffer
    ensures result == self.groups().contains_key(buffer@)
//@ fn View::is_empty
    ensures result <==> forall|k: Seq<char>| !#[trigger] self.groups().contains_key(k)
//@ entry
    broadcast use BTreeMap::axiom_keys;
    proof { if self.0.bkeys().len() > 0 { assert(self.groups().contains_key(self.0.bkeys()[0])); } }
