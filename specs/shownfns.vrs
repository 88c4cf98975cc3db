//@ verus
//once shown
// ---- trusted: decorated texts (ornament) ------------------------------------------------
/// a text and the face of each of its bytes
#[verifier::external_body]
struct Text { _p: u8 }
impl Text {
    uninterp spec fn tbytes(&self) -> Seq<u8>;
    uninterp spec fn tfaces(&self) -> Seq<Face>;
}
#[verifier::external_body]
struct Decorator { _p: u8 }
impl Decorator {
    uninterp spec fn dbytes(&self) -> Seq<u8>;
    uninterp spec fn dfaces(&self) -> Seq<Face>;
    #[verifier::external_body]
    fn with_text(text: &str) -> (r: Decorator)
        ensures r.dbytes() == sbytes(text@), r.dfaces() == Seq::new(sbytes(text@).len(), |i: int| Face::Default)
    { unimplemented!() }
    /// only the first face set on a text that is not empty is relied on
    #[verifier::external_body]
    fn set(&mut self, face: Face, range: core::ops::Range<usize>)
        requires
            range.start <= range.end, range.start <= old(self).dfaces().len(), old(self).dfaces().len() > 0,
            forall|i: int| 0 <= i < old(self).dfaces().len() ==> old(self).dfaces()[i] == Face::Default,
            // faces have to change between characters
            char_at(old(self).dbytes(), range.start as int), range.end < old(self).dbytes().len() ==> char_at(old(self).dbytes(), range.end as int),
        ensures
            final(self).dbytes() == old(self).dbytes(),
            final(self).dfaces() == Seq::new(old(self).dfaces().len(), |i: int| if range.start <= i < range.end { face } else { old(self).dfaces()[i] }),
    { unimplemented!() }
    #[verifier::external_body]
    fn build(&mut self) -> (r: Text)
        ensures r.tbytes() == old(self).dbytes(), r.tfaces() == old(self).dfaces()
    { unimplemented!() }
}
// ---- trusted: what the graphemes of a text are -------------------------------------------
/// a character begins there
spec fn char_at(b: Seq<u8>, i: int) -> bool { i == b.len() || (0 <= i < b.len() && !(128 <= b[i] < 192)) }
#[verifier::external_body]
proof fn axiom_grapheme_chars(s: Seq<char>)
    ensures forall|k: int| 0 <= k < gstarts(sbytes(s)).len() ==> char_at(sbytes(s), #[trigger] gstarts(sbytes(s))[k] as int)
{ unimplemented!() }
/// a carriage return is a grapheme of its own when no line feed follows
#[verifier::external_body]
proof fn axiom_grapheme_cr(x: Seq<u8>)
    ensures gstarts(x.push(13u8)) == gstarts(x).push(x.len() as usize)
{ unimplemented!() }
impl VxGraphemes for [u8] {
    spec fn vx_gb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_graphemes<'a>(&'a self) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_grapheme_indices<'a>(&'a self) -> (r: VxIter<(usize, usize, &'a str)>) { unimplemented!() }
}
// ---- trusted: iterators, String, maps from numbers ----------------------------------------
impl<T> VxIter<T> {
    #[verifier::external_body]
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    /// self.chain(once(x))
    #[verifier::external_body]
    fn vx_chain_one(self, x: T) -> (r: VxIter<T>)
        ensures r@ == self@.push(x)
    { unimplemented!() }
}
/// str::lines
trait VxStrLines {
    spec fn vx_lb(&self) -> Seq<u8>;
    fn vx_lines<'a>(&'a self) -> (r: VxIter<&'a str>)
    ensures ({
        let b = self.vx_lb();
        &&& b.len() == 0 ==> r@.len() == 0
        &&& b.len() > 0 ==> r@.len() == nlines(b) && forall|i: int| 0 <= i < r@.len() ==> sbytes((#[trigger] r@[i])@) == shown(b, i + 1)
    });
}
impl VxStrLines for String {
    spec fn vx_lb(&self) -> Seq<u8> { sbytes(self@) }
    #[verifier::external_body]
    fn vx_lines<'a>(&'a self) -> (r: VxIter<&'a str>) { unimplemented!() }
}
#[verifier::external_body]
fn vx_slice_of<T: Clone>(v: Vec<T>, r: core::ops::Range<usize>) -> (o: Vec<T>)
    requires r.start <= r.end <= v@.len()
    ensures o@ == v@.subrange(r.start as int, r.end as int)
{ unimplemented!() }
#[verifier::external_body]
fn vx_glued(a: &String, b: &str) -> (r: String)
    ensures r@ == a@ + b@, sbytes(r@) == sbytes(a@) + sbytes(b@)
{ unimplemented!() }
impl<V> HashMap<usize, V> {
    uninterp spec fn um(&self) -> Map<usize, V>;
    #[verifier::external_body]
    fn vx_new() -> (r: Self)
        ensures r.um() == Map::<usize, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_has(&self, k: usize) -> (r: bool)
        ensures r == self.um().contains_key(k)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_get(&self, k: &usize) -> (r: Option<&V>)
        ensures match r { Some(v) => self.um().contains_key(*k) && *v == self.um()[*k], None => !self.um().contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, k: usize) -> (r: &mut V)
        requires old(self).um().contains_key(k)
        ensures *r == old(self).um()[k], final(self).um() == old(self).um().insert(k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_put(&mut self, k: usize, v: V)
        ensures final(self).um() == old(self).um().insert(k, v)
    { unimplemented!() }
}
fn vx_alone<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); v }
// ---- the specification ----------------------------------------------------------------------
/// line `l` as it is shown: without its line feed and a carriage return before it
spec fn shown(b: Seq<u8>, l: int) -> Seq<u8> {
    let x = line(b, l);
    if l <= nlpos(b).len() && x.len() > 0 && x.last() == 13u8 { x.drop_last() } else { x }
}
spec fn cle(p: Coords, q: Coords) -> bool { p.l < q.l || (p.l == q.l && p.c <= q.c) }
spec fn coord(b: Seq<u8>, off: int) -> Coords { choose|p: Coords| coord_of(b, p, off) }
/// the byte at `o` lies in a grapheme from the one at the selection's begin to the one at its end
spec fn covered(b: Seq<u8>, s: Selection, o: int) -> bool {
    cle(coord(b, sel_begin(s)), coord(b, o)) && cle(coord(b, o), coord(b, sel_end(s)))
}
/// byte `j` of shown line `l` is marked; the byte after the last one stands for the end of the line
spec fn marked(b: Seq<u8>, s: Option<Selection>, l: int, j: int) -> bool {
    s matches Some(s) && if j < shown(b, l).len() { covered(b, s, lstart(b, l) + j) } else {
        l <= nlpos(b).len() && (covered(b, s, lend(b, l)) || (shown(b, l).len() < line(b, l).len() && covered(b, s, lend(b, l) - 1)))
    }
}
spec fn said(v: Seq<String>, w: Seq<&str>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == w[i]@ }
spec fn mark(m: bool) -> Face { if m { Face::Selection } else { Face::Default } }
spec fn text_ok(t: Text, b: Seq<u8>, s: Option<Selection>, l: int) -> bool {
    &&& t.tbytes() == shown(b, l).push(32u8)
    &&& t.tfaces() == Seq::new(shown(b, l).len() + 1, |j: int| mark(marked(b, s, l, j)))
}
spec fn texts_ok(ts: Seq<Text>, n: int, b: Seq<u8>, s: Option<Selection>, first: int, good: bool) -> bool {
    ts.len() == n && (good ==> forall|i: int| 0 <= i < n ==> text_ok(#[trigger] ts[i], b, s, first + i + 1))
}
spec fn vis(f: Focus, b: Seq<u8>) -> (int, int) { match f { Focus::Range(r) => (r.start as int, r.end as int), Focus::Whole => (0, nlines(b)) } }
type Bufs = HashMap<String, Buffer>;
spec fn content(bs: Bufs, k: Seq<char>) -> Seq<u8> { bs.m()[k].content.bytes() }
spec fn sel_of(ss: Option<HashMap<String, Vec<Selection>>>, k: Seq<char>) -> Option<Selection> {
    if ss matches Some(m) && m.m().contains_key(k) && m.m()[k]@.len() > 0 { Some(ss->0.m()[k]@[0]) } else { None }
}
spec fn utf8(b: Seq<u8>) -> bool { sbytes(lossy(b)) == b }
// ---- lemmas -----------------------------------------------------------------------------------
proof fn lemma_find(x: Seq<u8>, j: int) -> (k: int)
    requires 0 <= j < x.len()
    ensures 0 <= k < gstarts(x).len(), gstarts(x)[k] <= j < gend(x, k)
{
    broadcast use axiom_graphemes;
    lemma_find_from(x, j, 0)
}
proof fn lemma_find_from(x: Seq<u8>, j: int, i: int) -> (k: int)
    requires 0 <= j < x.len(), 0 <= i < gstarts(x).len(), gstarts(x)[i] <= j
    ensures 0 <= k < gstarts(x).len(), gstarts(x)[k] <= j < gend(x, k)
    decreases gstarts(x).len() - i
{
    if j < gend(x, i) { i } else { lemma_find_from(x, j, i + 1) }
}
/// later bytes have later coordinates
proof fn lemma_coord_order(b: Seq<u8>, p: Coords, q: Coords, m: int, n: int)
    requires b.len() <= CAP(), coord_of(b, p, m), coord_of(b, q, n), m <= n
    ensures cle(p, q)
{
    broadcast use axiom_graphemes;
    lemma_nlpos(b);
    let nl = nlpos(b);
    let (l, k) = (p.l as int, q.l as int);
    if k < l { assert(nl[k - 1] <= nl[l - 2]) by { if k - 1 < l - 2 { assert(nl[k - 1] < nl[l - 2]); } } }
    if k == l && q.c < p.c {
        let g = gstarts(line(b, l));
        lemma_gcount(line(b, l));
        if p.c - 1 < g.len() { assert(g[q.c as int] <= g[p.c - 1]) by { if q.c < p.c - 1 { assert(g[q.c as int] < g[p.c - 1]); } } }
    }
}
proof fn lemma_coord(b: Seq<u8>, p: Coords, o: int)
    requires b.len() <= CAP(), coord_of(b, p, o)
    ensures coord(b, o) == p
{
    let q = coord(b, o);
    lemma_coord_order(b, p, q, o, o);
    lemma_coord_order(b, q, p, o, o);
}
/// the columns of a shown line are those of the line
proof fn lemma_shown(b: Seq<u8>, l: int)
    requires b.len() <= CAP(), 1 <= l <= nlines(b)
    ensures
        shown(b, l).len() <= line(b, l).len() <= shown(b, l).len() + 1,
        shown(b, l).len() < line(b, l).len() ==> l <= nlpos(b).len() && gstarts(line(b, l)) == gstarts(shown(b, l)).push(shown(b, l).len() as usize),
        shown(b, l).len() == line(b, l).len() ==> shown(b, l) == line(b, l),
        lend(b, l) == lstart(b, l) + line(b, l).len(),
        l <= nlpos(b).len() ==> lend(b, l) < b.len(),
        l > nlpos(b).len() ==> lend(b, l) == b.len(),
        gstarts(shown(b, l)).len() <= shown(b, l).len(), shown(b, l).len() <= CAP(),
        forall|k: int| 0 <= k < gstarts(shown(b, l)).len() ==> gend(line(b, l), k) == gend(shown(b, l), k),
{
    let x = line(b, l);
    let y = shown(b, l);
    lemma_line(b, l);
    lemma_nlpos(b);
    lemma_nl(nlpos(b), b);
    lemma_gcount(y);
    if y.len() < x.len() {
        assert(x =~= y.push(13u8));
        axiom_grapheme_cr(y);
    }
}
/// the grapheme a column of a shown line begins with
spec fn gi(x: Seq<u8>, c: int) -> int { if c < gstarts(x).len() { gstarts(x)[c] as int } else if c == gstarts(x).len() { x.len() as int } else { x.len() as int + 1 } }
proof fn lemma_gi(x: Seq<u8>, c: int, d: int)
    requires 0 <= c <= d
    ensures 0 <= gi(x, c) <= gi(x, d), gi(x, c) <= x.len() || c > gstarts(x).len()
{
    broadcast use axiom_graphemes;
    lemma_gcount(x);
}
proof fn lemma_gi_chars(s: Seq<char>)
    ensures forall|c: int| c >= 0 ==> char_at(sbytes(s).push(32u8), #[trigger] gi(sbytes(s), c))
{
    broadcast use axiom_graphemes;
    let x = sbytes(s);
    lemma_gcount(x);
    axiom_grapheme_chars(s);
    assert forall|c: int| c >= 0 implies char_at(x.push(32u8), #[trigger] gi(x, c)) by {
        if c < gstarts(x).len() { assert(char_at(x, gstarts(x)[c] as int)); }
    }
}
type Span = (Option<usize>, Option<usize>);
/// the columns of line `l` between `p` and what lies before `q`
spec fn want_row(p: Coords, q: Coords, l: int) -> Option<Span> {
    if p.l == q.l { if l == p.l { Some((Some((p.c - 1) as usize), Some((q.c - 1) as usize))) } else { None } }
    else if l == p.l { Some((Some((p.c - 1) as usize), None)) }
    else if p.l == q.l - 1 && q.c == 1 { None }
    else if l == q.l { Some((None, Some((q.c - 1) as usize))) }
    else if p.l < l < q.l { Some((None, None)) }
    else { None }
}
spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn span_a(x: Seq<u8>, r: Span) -> int { match r.0 { Some(c) => least(gi(x, c as int), x.len() as int), None => 0 } }
spec fn span_z(x: Seq<u8>, r: Span) -> int { match r.1 { Some(c) => gi(x, c as int), None => x.len() as int + 1 } }
/// the coordinates after `p`, or the column after it at the end of the text
spec fn after(b: Seq<u8>, p: Coords) -> Coords {
    if right_of(b, p) == p { Coords { l: p.l, c: (p.c + 1) as usize } } else { right_of(b, p) }
}
proof fn lemma_byte(b: Seq<u8>, s: Selection, p: Coords, q: Coords, l: int, j: int)
    requires
        b.len() <= CAP(), 1 <= l <= nlines(b), sel_end(s) < b.len(), coord_of(b, p, sel_begin(s)), coord_of(b, q, sel_end(s)),
        0 <= j < shown(b, l).len(),
    ensures
        want_row(p, after(b, q), l) is None ==> !marked(b, Some(s), l, j),
        want_row(p, after(b, q), l) matches Some(r) ==> (marked(b, Some(s), l, j) <==> span_a(shown(b, l), r) <= j < span_z(shown(b, l), r)),
{
    broadcast use axiom_graphemes;
    let x = shown(b, l);
    let g = gstarts(x);
    lemma_shown(b, l);
    lemma_gcount(x);
    lemma_coord(b, p, sel_begin(s));
    lemma_coord(b, q, sel_end(s));
    lemma_coord_order(b, p, q, sel_begin(s), sel_end(s));
    lemma_coord_place(b, q, sel_end(s));
    lemma_coord_place(b, p, sel_begin(s));
    lemma_cols(b, q.l as int);
    lemma_cols(b, p.l as int);
    let k = lemma_find(x, j);
    let c = Coords { l: l as usize, c: (k + 1) as usize };
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
    assert(coord_of(b, c, lstart(b, l) + j));
    lemma_coord(b, c, lstart(b, l) + j);
    // j lies at or after column m exactly when its column does
    assert forall|m: int| 0 <= m <= g.len() implies (gi(x, m) <= j <==> m <= k) by {
        if m < g.len() { if m < k { assert(g[m] < g[k]); } if k < m { assert(g[k + 1] <= g[m]) by { if k + 1 < m { assert(g[k + 1] < g[m]); } } } }
    }
    if let Some(r) = want_row(p, after(b, q), l) {
        if let Some(m) = r.0 { assert(least(gi(x, m as int), x.len() as int) <= j <==> m <= k); }
        if let Some(m) = r.1 { assert(gi(x, m as int) <= j <==> m <= k); }
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lemma_space(b: Seq<u8>, s: Selection, p: Coords, q: Coords, l: int)
    requires
        b.len() <= CAP(), 1 <= l <= nlines(b), sel_end(s) < b.len(), coord_of(b, p, sel_begin(s)), coord_of(b, q, sel_end(s)),
    ensures
        want_row(p, after(b, q), l) is None ==> !marked(b, Some(s), l, shown(b, l).len() as int),
        want_row(p, after(b, q), l) matches Some(r) ==> (marked(b, Some(s), l, shown(b, l).len() as int) <==> span_a(shown(b, l), r) <= shown(b, l).len() < span_z(shown(b, l), r)),
        want_row(p, after(b, q), l) matches Some(r) ==> 0 <= span_a(shown(b, l), r) <= span_z(shown(b, l), r) && span_a(shown(b, l), r) <= shown(b, l).len(),
{
    broadcast use axiom_graphemes;
    let x = shown(b, l);
    let g = gstarts(x);
    lemma_shown(b, l);
    lemma_gcount(x);
    lemma_coord(b, p, sel_begin(s));
    lemma_coord(b, q, sel_end(s));
    lemma_coord_order(b, p, q, sel_begin(s), sel_end(s));
    lemma_coord_place(b, q, sel_end(s));
    lemma_coord_place(b, p, sel_begin(s));
    lemma_cols(b, q.l as int);
    lemma_cols(b, p.l as int);
    lemma_cols(b, l);
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
    if l <= nlpos(b).len() {
        let c = Coords { l: l as usize, c: (gcount(b, l) + 1) as usize };
        assert(coord_of(b, c, lend(b, l)));
        lemma_coord(b, c, lend(b, l));
        if x.len() < line(b, l).len() {
            let d = Coords { l: l as usize, c: gcount(b, l) as usize };
            assert(coord_of(b, d, lend(b, l) - 1));
            lemma_coord(b, d, lend(b, l) - 1);
        }
    }
    if let Some(r) = want_row(p, after(b, q), l) {
        if let Some(m) = r.0 { lemma_gi(x, m as int, m as int); if let Some(n) = r.1 { lemma_gi(x, m as int, n as int); } }
        if let Some(n) = r.1 { lemma_gi(x, n as int, n as int); }
    }
}
//@ source remote/src/protocol.rs
//@ enum Face Clone,PartialEq,Structural,Eq
//@ struct ViewParamsLens
//@ struct ViewParamsItem
//@ verus
spec fn lens_ok(p: ViewParamsLens, f: Focus, b: Seq<u8>, s: Option<Selection>) -> bool {
    &&& p.first_line_num == vis(f, b).0 + 1
    &&& utf8(b) && b.len() > 0 ==> p.lines@.len() == vis(f, b).1 - vis(f, b).0
        && forall|i: int| 0 <= i < p.lines@.len() ==> text_ok(#[trigger] p.lines@[i], b, s, vis(f, b).0 + i + 1)
}
//@ verus
type ViewParams = Vec<ViewParamsItem>;
impl ViewParamsItem {
    #[verifier::external_body]
    fn vx_default() -> (r: ViewParamsItem)
        ensures r.buffer@.len() == 0, r.start == 0, r.end == 0, r.lenses@.len() == 0
    { unimplemented!() }
}
//@ source core/src/editor/piece_table/mod.rs
//@ fn PieceTable::lines as:vx_lines
//@ rewrite self . text () . lines () . map (ToOwned :: to_owned) . collect () => { let vx_t = self . text () ; vx_t . lines () . map (| x | x . to_owned ()) . collect () }
    requires self.wf()
    ensures self.bytes().len() > 0 && utf8(self.bytes()) ==> result@.len() == nlines(self.bytes())
        && forall|i: int| 0 <= i < result@.len() ==> sbytes((#[trigger] result@[i])@) == shown(self.bytes(), i + 1)
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), said(vx_acc0@, src, k),
    ensures k == src.len(), said(vx_acc0@, src, k),
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ source core/src/editor/buffer.rs
//@ fn Buffer::line_count
    requires self.content.wf()
    ensures result == nlines(self.content.bytes())
//@ fn Buffer::lines
//@ rewrite self . content . lines () [range] . to_vec () => vx_slice_of (self . content . lines () , range)
    requires self.content.wf(), focus matches Focus::Range(r) ==> self.content.bytes().len() > 0 && utf8(self.content.bytes()) && r.start <= r.end <= nlines(self.content.bytes())
    ensures self.content.bytes().len() > 0 && utf8(self.content.bytes()) ==> result@.len() == vis(focus, self.content.bytes()).1 - vis(focus, self.content.bytes()).0
        && forall|i: int| 0 <= i < result@.len() ==> sbytes((#[trigger] result@[i])@) == shown(self.content.bytes(), vis(focus, self.content.bytes()).0 + i + 1)
//@ source core/src/editor/view.rs
//@ verus
// ---- the items of a view, group by group -------------------------------------------------------
struct SGroup { k: Seq<char>, f: Focus, ls: Seq<Lens> }
spec fn gather(items: Seq<SItem>) -> Seq<SGroup>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() } else {
        let g = gather(items.drop_last());
        match items.last() {
            SItem::Header(k, f) => g.push(SGroup { k, f, ls: Seq::empty() }),
            SItem::Lens(l) => if g.len() == 0 { g } else { g.drop_last().push(SGroup { k: g.last().k, f: g.last().f, ls: g.last().ls.push(l) }) },
        }
    }
}
spec fn group_of(v: View, i: int) -> SGroup {
    let k = v.0.bkeys()[i];
    SGroup { k, f: hdr(v.groups()[k].0@), ls: v.groups()[k].0@ }
}
spec fn groups_to(v: View, n: int) -> Seq<SGroup> { Seq::new(n as nat, |i: int| group_of(v, i)) }
proof fn lemma_gather_lenses(base: Seq<SItem>, k: Seq<char>, f: Focus, ls: Seq<Lens>)
    ensures gather(base.push(SItem::Header(k, f)) + lens_items(ls)) == gather(base).push(SGroup { k, f, ls })
    decreases ls.len()
{
    let h = base.push(SItem::Header(k, f));
    if ls.len() == 0 {
        assert(h + lens_items(ls) =~= h);
        assert(h.drop_last() =~= base);
        assert(ls =~= Seq::<Lens>::empty());
    } else {
        let d = ls.drop_last();
        lemma_gather_lenses(base, k, f, d);
        assert((h + lens_items(ls)).drop_last() =~= h + lens_items(d));
        assert((h + lens_items(ls)).last() == SItem::Lens(ls.last()));
        let g = gather(base).push(SGroup { k, f, ls: d });
        assert(g.drop_last() =~= gather(base));
        assert(d.push(ls.last()) =~= ls);
    }
}
proof fn lemma_gather(v: View, n: int)
    requires 0 <= n
    ensures gather(view_items(v.0.bkeys(), v.groups(), n)) =~= groups_to(v, n)
    decreases n
{
    if n > 0 {
        let k = v.0.bkeys()[n - 1];
        lemma_gather(v, n - 1);
        lemma_gather_lenses(view_items(v.0.bkeys(), v.groups(), n - 1), k, hdr(v.groups()[k].0@), v.groups()[k].0@);
        assert(groups_to(v, n) =~= groups_to(v, n - 1).push(group_of(v, n - 1)));
    }
}
/// the item stems from one of the first `n` groups
spec fn stems(v: View, n: int, it: SItem) -> bool {
    match it {
        SItem::Header(k, f) => exists|i: int| 0 <= i < n && #[trigger] v.0.bkeys()[i] == k && f == hdr(v.groups()[k].0@),
        SItem::Lens(l) => exists|i: int, m: int| 0 <= i < n && 0 <= m < v.groups()[#[trigger] v.0.bkeys()[i]].0@.len() && #[trigger] v.groups()[v.0.bkeys()[i]].0@[m] == l,
    }
}
proof fn lemma_stems(v: View, n: int)
    requires 0 <= n
    ensures
        forall|i: int| 0 <= i < view_items(v.0.bkeys(), v.groups(), n).len() ==> stems(v, n, #[trigger] view_items(v.0.bkeys(), v.groups(), n)[i]),
        n > 0 ==> view_items(v.0.bkeys(), v.groups(), n).len() > 0 && view_items(v.0.bkeys(), v.groups(), n)[0] is Header,
        n == 0 ==> view_items(v.0.bkeys(), v.groups(), n).len() == 0,
    decreases n
{
    if n > 0 {
        lemma_stems(v, n - 1);
        let k = v.0.bkeys()[n - 1];
        let a = view_items(v.0.bkeys(), v.groups(), n - 1);
        let ls = v.groups()[k].0@;
        let all = view_items(v.0.bkeys(), v.groups(), n);
        assert forall|i: int| 0 <= i < all.len() implies stems(v, n, #[trigger] all[i]) by {
            if i < a.len() { assert(all[i] == a[i]); assert(stems(v, n - 1, a[i])); }
            else if i == a.len() { assert(all[i] == SItem::Header(k, hdr(ls))); }
            else { assert(all[i] == SItem::Lens(ls[i - a.len() - 1])); }
        }
        if n - 1 > 0 { assert(all[0] == a[0]); } else { assert(all[0] == SItem::Header(k, hdr(ls))); }
    }
}
proof fn lemma_gather_some(items: Seq<SItem>)
    requires items.len() > 0, items[0] is Header
    ensures gather(items).len() > 0
    decreases items.len()
{
    if items.len() > 1 { lemma_gather_some(items.drop_last()); }
}
type Picked = Option<HashMap<String, Vec<Selection>>>;
spec fn picked(s: Option<&HashMap<String, Vec<Selection>>>) -> Picked { match s { Some(m) => Some(*m), None => None } }
spec fn lens_fits(l: Lens, bs: Bufs) -> bool {
    l.focus matches Focus::Range(r) ==> {
        let b = content(bs, l.buffer@);
        b.len() > 0 && utf8(b) && r.start <= r.end <= nlines(b)
    }
}
spec fn item_fits(it: SItem, bs: Bufs) -> bool {
    match it {
        SItem::Header(k, f) => bs.m().contains_key(k) && bs.m()[k].content.wf() && (f matches Focus::Range(r) ==> r.start < usize::MAX),
        SItem::Lens(l) => bs.m().contains_key(l.buffer@) && bs.m()[l.buffer@].content.wf() && lens_fits(l, bs),
    }
}
/// one selection, within the text
spec fn sels_fit(bs: Bufs, ss: Picked, k: Seq<char>) -> bool {
    ss matches Some(m) ==> m.m().contains_key(k) ==> {
        let b = content(bs, k);
        let l = m.m()[k]@;
        l.len() == 1 && if b.len() == 0 { sel_end(l[0]) == 0 } else { sel_end(l[0]) < b.len() }
    }
}
proof fn lemma_hdr_of(s: Seq<Lens>)
    requires sorted(s), s.len() > 0
    ensures header_of(hdr(s), s)
{
    if has_whole(s) { assert(header_of(Focus::Whole, s)); } else {
        lemma_maxend(s);
        let k = choose|i: int| 0 <= i < s.len() && fend((#[trigger] s[i]).focus) == maxend(s);
        assert(s[k].focus is Range && s[0].focus is Range);
        let f = Focus::Range(core::ops::Range { start: fstart(s[0].focus) as usize, end: fend(s[k].focus) as usize });
        assert forall|i: int| 0 <= i < s.len() implies fstart(f) <= fstart((#[trigger] s[i]).focus) by { if i > 0 { assert(fle(s[0].focus, s[i].focus)); } }
        assert(header_of(f, s));
    }
}
proof fn lemma_item_fits(v: View, n: int, it: SItem, bs: Bufs, ss: Picked)
    requires
        v.wf(), n == v.0.bkeys().len(), stems(v, n, it),
        forall|k: Seq<char>| #[trigger] v.groups().contains_key(k) ==> bs.m().contains_key(k) && bs.m()[k].content.wf() && sels_fit(bs, ss, k),
        forall|k: Seq<char>, m: int| v.groups().contains_key(k) && 0 <= m < v.groups()[k].0@.len() ==> lens_fits(#[trigger] v.groups()[k].0@[m], bs),
    ensures item_fits(it, bs), it matches SItem::Lens(l) ==> sels_fit(bs, ss, l.buffer@)
{
    broadcast use BTreeMap::axiom_keys;
    match it {
        SItem::Header(k, f) => {
            let i = choose|i: int| 0 <= i < n && #[trigger] v.0.bkeys()[i] == k && f == hdr(v.groups()[k].0@);
            assert(v.groups().contains_key(v.0.bkeys()[i]));
            let ls = v.groups()[k].0@;
            assert(group_ok(k, v.groups()[k]));
            lemma_hdr_of(ls);
            if f is Range {
                let m = choose|m: int| 0 <= m < ls.len() && fstart((#[trigger] ls[m]).focus) == fstart(f);
                assert(lens_fits(v.groups()[k].0@[m], bs));
                lemma_lines_fit(content(bs, ls[m].buffer@), bs.m()[k].content);
            }
        }
        SItem::Lens(l) => {
            let (i, m) = choose|i: int, m: int| 0 <= i < n && 0 <= m < v.groups()[#[trigger] v.0.bkeys()[i]].0@.len() && #[trigger] v.groups()[v.0.bkeys()[i]].0@[m] == l;
            assert(v.groups().contains_key(v.0.bkeys()[i]));
            assert(group_ok(v.0.bkeys()[i], v.groups()[v.0.bkeys()[i]]));
        }
    }
}
proof fn lemma_lines_fit(b: Seq<u8>, t: PieceTable)
    requires t.wf(), b == t.bytes()
    ensures nlines(b) < usize::MAX
{
    lemma_nlpos(b);
    lemma_nl_count(nlpos(b), b);
}
spec fn lens_shown(p: ViewParamsLens, l: Lens, bs: Bufs, ss: Picked) -> bool { lens_ok(p, l.focus, content(bs, l.buffer@), sel_of(ss, l.buffer@)) }
spec fn item_ok(p: ViewParamsItem, g: SGroup, bs: Bufs, ss: Picked) -> bool {
    &&& p.buffer@ == g.k
    &&& p.start == vis(g.f, content(bs, g.k)).0 + 1
    &&& p.end == vis(g.f, content(bs, g.k)).1
    &&& p.lenses@.len() == g.ls.len()
    &&& forall|i: int| 0 <= i < g.ls.len() ==> lens_shown(#[trigger] p.lenses@[i], g.ls[i], bs, ss)
}
spec fn items_done(ps: Seq<ViewParamsItem>, cur: ViewParamsItem, flush: bool, gs: Seq<SGroup>, bs: Bufs, ss: Picked) -> bool {
    if gs.len() == 0 { !flush && ps.len() == 0 && cur.lenses@.len() == 0 } else {
        &&& flush && ps.len() == gs.len() - 1
        &&& forall|i: int| 0 <= i < ps.len() ==> item_ok(#[trigger] ps[i], gs[i], bs, ss)
        &&& item_ok(cur, gs.last(), bs, ss)
    }
}
spec fn one_row(m: Map<usize, Vec<Span>>, k: usize) -> Option<Span> { if m.contains_key(k) { Some(m[k]@[0]) } else { None } }
/// up to line `to`, one range for each line that holds a part of what is selected; none for any other
spec fn rows(m: Map<usize, Vec<Span>>, p: Coords, q: Coords, to: int) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> m[k]@.len() == 1
    &&& forall|k: usize| #[trigger] one_row(m, k) == (if k + 1 < to { want_row(p, q, k + 1) } else { None })
}
spec fn chosen(m: Map<usize, Vec<Span>>, b: Seq<u8>, s: Option<Selection>) -> bool {
    match s {
        None => m == Map::<usize, Vec<Span>>::empty(),
        Some(s) => {
            let p = coord(b, sel_begin(s));
            let q = coord(b, sel_end(s));
            &&& coord_of(b, p, sel_begin(s)) && coord_of(b, q, sel_end(s))
            &&& cle(p, after(b, q)) && p.c >= 1 && after(b, q).c >= 1
            &&& rows(m, p, after(b, q), usize::MAX + 2)
        }
    }
}
/// the last position of a text is the one that has none after it
proof fn lemma_after(b: Seq<u8>, m: Coords, q: Coords)
    requires b.len() <= CAP(), place(b, q), coord_of(b, m, if b.len() == 0 { 0 } else { b.len() - 1 })
    ensures q == m <==> right_of(b, q) == q, place(b, m), q.c <= CAP() + 1, q.l <= CAP() + 1,
{
    broadcast use axiom_graphemes;
    let off = if b.len() == 0 { 0 } else { b.len() - 1 };
    lemma_coord_place(b, m, off);
    lemma_cols(b, m.l as int);
    lemma_cols(b, q.l as int);
    lemma_nlpos(b);
    lemma_nl(nlpos(b), b);
    lemma_nl_count(nlpos(b), b);
    lemma_line(b, m.l as int);
    lemma_gcount(line(b, m.l as int));
    if b.len() > 0 {
        if b.last() == 10u8 { lemma_last_nl(nlpos(b), b); }
        if m.l < nlines(b) { lemma_line(b, m.l + 1); lemma_line(b, nlines(b)); assert(lend(b, m.l as int) < b.len() - 1) by {
            let nl = nlpos(b);
            assert(m.l - 1 < nl.len());
            if b.last() == 10u8 { assert(nl[m.l - 1] < nl[nl.len() - 1]); } else { assert(nl.contains(nl[m.l - 1])); }
        } }
        assert(m.l == nlines(b));
        assert(m.c == lastcol(b, m.l as int));
    }
}
proof fn lemma_sbytes_space()
    ensures sbytes(" "@) == seq![32u8]
{
    reveal_strlit(" ");
    let s = seq![' '];
    assert(" "@ =~= s);
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert(s[0] as u8 == sbytes(s)[0]);
    assert(sbytes(s) =~= seq![32u8]);
}
proof fn lemma_span(b: Seq<u8>, s: Option<Selection>, m: Map<usize, Vec<Span>>, k: usize, x: Seq<u8>)
    requires chosen(m, b, s), m.contains_key(k)
    ensures m[k]@.len() == 1, 0 <= span_a(x, m[k]@[0]) <= span_z(x, m[k]@[0]), span_a(x, m[k]@[0]) <= x.len()
{
    let r = m[k]@[0];
    assert(one_row(m, k) == Some(r));
    let p = coord(b, sel_begin(s->0));
    let q = after(b, coord(b, sel_end(s->0)));
    assert(want_row(p, q, k + 1) == Some(r));
    if let Some(c) = r.0 { lemma_gi(x, c as int, c as int); if let Some(d) = r.1 { lemma_gi(x, c as int, d as int); } }
    if let Some(d) = r.1 { lemma_gi(x, d as int, d as int); }
}
spec fn plain(n: nat) -> Seq<Face> { Seq::new(n, |j: int| Face::Default) }
spec fn spanned(n: nat, a: int, z: int) -> Seq<Face> { Seq::new(n, |j: int| mark(a <= j < z)) }
/// what decorating a line gives, with the span its row holds
proof fn lemma_line_shown(b: Seq<u8>, s: Option<Selection>, l: int, m: Map<usize, Vec<Span>>, faces: Seq<Face>)
    requires
        b.len() <= CAP(), b.len() > 0, 1 <= l <= nlines(b), l - 1 <= usize::MAX, chosen(m, b, s), s matches Some(x) ==> sel_end(x) < b.len(),
        match one_row(m, (l - 1) as usize) {
            None => faces == plain(shown(b, l).len() + 1),
            Some(r) => faces == spanned(shown(b, l).len() + 1, span_a(shown(b, l), r), span_z(shown(b, l), r)),
        }
    ensures faces == Seq::new(shown(b, l).len() + 1, |j: int| mark(marked(b, s, l, j)))
{
    if let Some(x) = s {
        let p = coord(b, sel_begin(x));
        let q = coord(b, sel_end(x));
        assert(one_row(m, (l - 1) as usize) == want_row(p, after(b, q), l));
        assert forall|j: int| 0 <= j < faces.len() implies faces[j] == mark(marked(b, s, l, j)) by {
            if j < shown(b, l).len() { lemma_byte(b, x, p, q, l, j); } else { lemma_space(b, x, p, q, l); }
        }
    }
    assert(faces =~= Seq::new(shown(b, l).len() + 1, |j: int| mark(marked(b, s, l, j))));
}
//@ fn View::to_notification_params
//@ rewrite & buffers [& $$k] => buffers . vx_index (& $$k)
//@ rewrite ViewParamsItem :: default () => ViewParamsItem :: vx_default ()
//@ rewrite = selections . and_then (| $a | $$f ) ; => = match selections { Some ($a) => $$f , None => None } ;
//@ rewrite HashMap < usize , Vec < _ >> = HashMap :: new () => HashMap < usize , Vec < (Option < usize > , Option < usize >) >> = HashMap :: vx_new ()
//@ rewrite $m . entry ($$k) . and_modify (| $e | $$f) . or_insert_with (|| vec ! [$$d]) => if $m . vx_has ($$k) { let $e = $m . vx_get_mut ($$k) ; $$f } else { $m . vx_put ($$k , vx_alone ($$d)) }
//@ rewrite line . to_owned () + " " => vx_glued (line , " ")
//@ rewrite . map (| ($a , $b , $c) | $$e) . chain (std :: iter :: once ($$x)) => . vx_map (verus_exec_expr ! (| vx_t : (usize , usize , & str) | -> (vx_r : usize) ensures vx_r == vx_t . 0 { let ($a , $b , $c) = vx_t ; $$e })) . vx_chain_one ($$x)
//@ rewrite . grapheme_indices () => . vx_grapheme_indices ()
//@ rewrite . navigate (end) => . navigate (Some (end))
//@ rewrite . nth (col) => . vx_nth (col)
//@ rewrite . unwrap_or_else (|| $$x) => . unwrap_or ($$x)
//@ rewrite let index = | col : usize | { $$b } ; => let index = verus_exec_expr ! (| col : usize | -> (vx_r : usize) ensures vx_r == gi (sbytes (line @) , col as int) { $$b }) ;
//@ rewrite let start_index = | col : usize | index (col) . min ($$b) ; => let start_index = verus_exec_expr ! (| col : usize | -> (vx_r : usize) ensures vx_r == least (gi (sbytes (line @) , col as int) , sbytes (line @) . len () as int) { VxMax :: vx_min (index (col) , $$b) }) ;
//@ rewrite selected . get => selected . vx_get
    requires
        self.wf(),
        forall|k: Seq<char>| #[trigger] self.groups().contains_key(k) ==> buffers.m().contains_key(k) && buffers.m()[k].content.wf() && sels_fit(*buffers, picked(selections), k),
        forall|k: Seq<char>, m: int| self.groups().contains_key(k) && 0 <= m < self.groups()[k].0@.len() ==> lens_fits(#[trigger] self.groups()[k].0@[m], *buffers),
    ensures
        result@.len() == self.0.bkeys().len(),
        forall|i: int| 0 <= i < result@.len() ==> item_ok(#[trigger] result@[i], group_of(*self, i), *buffers, picked(selections)),
//@ entry
    broadcast use BTreeMap::axiom_keys;
    let ghost n = self.0.bkeys().len() as int;
    let ghost items = view_items(self.0.bkeys(), self.groups(), n);
    let ghost bs = *buffers;
    let ghost ss = picked(selections);
    let ghost mut at = 0int;
    proof {
        lemma_stems(*self, n);
        lemma_gather(*self, n);
        assert forall|i: int| 0 <= i < items.len() implies item_fits(#[trigger] items[i], bs) && (items[i] matches SItem::Lens(l) ==> sels_fit(bs, ss, l.buffer@)) by {
            assert(stems(*self, n, items[i]));
            lemma_item_fits(*self, n, items[i], bs, ss);
        }
        assert(items.take(0) =~= Seq::<SItem>::empty());
    }
//@ loop 0 before
    let ghost src = vx_it0@;
//@ loop 0
    invariant
        0 <= at <= src.len(), vx_it0@ == src.skip(at), sitems(src) == items, bs == *buffers, ss == picked(selections),
        items.len() > 0 ==> items[0] is Header,
        forall|i: int| 0 <= i < items.len() ==> item_fits(#[trigger] items[i], bs) && (items[i] matches SItem::Lens(l) ==> sels_fit(bs, ss, l.buffer@)),
        items_done(params@, current, flush, gather(items.take(at)), bs, ss),
    ensures items_done(params@, current, flush, gather(items), bs, ss),
    decreases src.len() - at
//@ loop 0 entry
    proof {
        assert(sitems(src).len() == src.len());
        if at == src.len() { assert(items.take(at) =~= items); } else {
            assert(items.take(at + 1).drop_last() =~= items.take(at));
            assert(items.take(at + 1).last() == items[at]);
            assert(items[at] == sitem(src[at]));
        }
        if at > 0 { lemma_gather_some(items.take(at)); }
    }
    let ghost gs = gather(items.take(at));
//@ loop 0 end
    proof {
        at = at + 1;
    }
//@ before let mut selected
    let ghost b = buffer.content.bytes();
    let ghost sel = sel_of(ss, lens.buffer@);
    proof { assert(sels_fit(bs, ss, lens.buffer@)); }
//@ loop 1 before
    let ghost list = vx_it1@;
    let ghost mut done = 0int;
//@ loop 1
    invariant
        0 <= done <= list.len(), list.len() == 1, vx_it1@ == list.skip(done), Some(*list[0]) == sel, buffer.content.wf(), b == buffer.content.bytes(),
        if b.len() == 0 { sel_end(sel->0) == 0 } else { sel_end(sel->0) < b.len() },
        done == 0 ==> selected.um() == Map::<usize, Vec<Span>>::empty(),
        done == 1 ==> chosen(selected.um(), b, sel),
    ensures chosen(selected.um(), b, sel),
    decreases list.len() - done
//@ before let end
    proof {
        let (m, o) = (if b.len() == 0 { 0 } else { b.len() - 1 }, sel_end(*s));
        assert forall|x: Coords, y: Coords| #[trigger] coord_of(b, x, m) && #[trigger] coord_of(b, y, o) implies
            y.c <= CAP() + 1 && y.l <= CAP() + 1 && y.l >= 1 && place(b, y) && (x == y <==> right_of(b, y) == y) && coord(b, o) == y by {
            lemma_coord_place(b, y, o);
            lemma_after(b, x, y);
            lemma_coord(b, y, o);
        }
    }
//@ after let end
    let ghost vx_p = start;
    let ghost vx_q = end;
    proof {
        lemma_coord(b, start, sel_begin(*s));
        let q = coord(b, sel_end(*s));
        lemma_coord_order(b, start, q, sel_begin(*s), sel_end(*s));
        lemma_coord_place(b, start, sel_begin(*s));
        lemma_coord_place(b, q, sel_end(*s));
        lemma_cols(b, q.l as int);
        assert(end == after(b, q));
        assert(rows(selected.um(), start, end, start.l as int));
    }
//@ loop 2 before
    let ghost ls = vx_it2@;
    let ghost mut t = 0int;
//@ loop 2
    invariant
        0 <= t <= ls.len(), vx_it2@ == ls.skip(t), ls.len() == end.l - start.l + 1, 1 <= start.l < end.l, !(start.l == end.l - 1 && end.c == 1),
        start.c >= 1, end.c >= 1,
        forall|i: int| 0 <= i < ls.len() ==> ls[i] == start.l + i,
        rows(selected.um(), start, end, start.l + t),
    ensures rows(selected.um(), start, end, end.l + 1),
    decreases ls.len() - t
//@ loop 2 entry
    let ghost m2 = selected.um();
//@ loop 2 end
    proof {
        assert(one_row(m2, (i - 1) as usize) is None);
        assert forall|k: usize| #[trigger] one_row(selected.um(), k) == (if k + 1 < start.l + t + 1 { want_row(start, end, k + 1) } else { None }) by {
            assert(one_row(m2, k) == (if k + 1 < start.l + t { want_row(start, end, k + 1) } else { None }));
        }
        t = t + 1;
    }
//@ loop 1 end
    proof {
        assert(rows(selected.um(), vx_p, vx_q, usize::MAX + 2));
        done = 1;
    }
//@ loop 3 before
    let ghost ts = vx_it3@;
    let ghost mut u = 0int;
    let ghost v = vis(lens.focus, b);
    let ghost good = utf8(b) && b.len() > 0;
    proof {
        lemma_lines_fit(b, buffer.content);
        assert(ts.len() == vx_src3@.len());
        assert(vx_src3.vx_seq() == vx_src3@);
        assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).0 == i by { }
        assert forall|i: int| 0 <= i < ts.len() implies *(#[trigger] ts[i]).1 == vx_src3@[i] by { assert(*ts[i].1 == vx_src3.vx_seq()[i]); }
    }
//@ loop 3
    invariant
        0 <= u <= ts.len(), vx_it3@ == ts.skip(u), ts.len() == vx_src3@.len(), texts_ok(vx_acc3@, u, b, sel, v.0, good), good == (utf8(b) && b.len() > 0),
        forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).0 == i && *ts[i].1 == vx_src3@[i],
        v == vis(lens.focus, b), buffer.content.wf(), b == buffer.content.bytes(), lens.focus is Range ==> good,
        good ==> vx_src3@.len() == v.1 - v.0 && 0 <= v.0 <= v.1 <= nlines(b) && forall|i: int| 0 <= i < vx_src3@.len() ==> sbytes((#[trigger] vx_src3@[i])@) == shown(b, v.0 + i + 1),
        chosen(selected.um(), b, sel), b.len() > 0 ==> (sel matches Some(x) ==> sel_end(x) < b.len()),
    ensures u == ts.len(), texts_ok(vx_acc3@, u, b, sel, v.0, good),
    decreases ts.len() - u
//@ after let mut deco
    let ghost x = sbytes(line@);
    proof { lemma_sbytes_space(); lemma_gcount(x); lemma_gi_chars(line@); }
//@ loop 4 before
    let ghost rs = vx_it4@;
    proof { lemma_span(b, sel, selected.um(), (i + fstart(lens.focus)) as usize, x); }
    let ghost mut w = 0int;
    proof { assert(x.len() > 0 ==> char_at(x, 0)) by { broadcast use axiom_graphemes; axiom_grapheme_chars(line@); if x.len() > 0 { assert(gstarts(x)[0] == 0); } } }
//@ loop 4
    invariant
        0 <= w <= rs.len(), rs.len() == 1, *rs[0] == one_row(selected.um(), (i + fstart(lens.focus)) as usize)->0,
        forall|c: int| c >= 0 ==> char_at(x.push(32u8), #[trigger] gi(x, c)),
        char_at(x.push(32u8), 0), char_at(x.push(32u8), x.len() as int),
        span_a(x, *rs[0]) <= span_z(x, *rs[0]), sbytes(l@).len() == x.len() + 1,
        forall|c: usize| #[trigger] call_requires(index, (c,)), forall|c: usize| #[trigger] call_requires(start_index, (c,)),
        forall|c: usize, r: usize| #[trigger] call_ensures(index, (c,), r) ==> r == gi(x, c as int),
        forall|c: usize, r: usize| #[trigger] call_ensures(start_index, (c,), r) ==> r == least(gi(x, c as int), x.len() as int),
        vx_it4@ == rs.skip(w), deco.dbytes() == x.push(32u8), x == sbytes(line@),
        w == 0 ==> deco.dfaces() == plain(x.len() + 1),
        w == 1 ==> deco.dfaces() == spanned(x.len() + 1, span_a(x, *rs[0]), span_z(x, *rs[0])),
    ensures deco.dbytes() == x.push(32u8), deco.dfaces() == spanned(x.len() + 1, span_a(x, *rs[0]), span_z(x, *rs[0])),
    decreases rs.len() - w
//@ loop 4 end
    proof { w = 1; }
//@ before deco . build
    proof {
        assert(sbytes(l@) =~= x.push(32u8));
        assert(deco.dbytes() =~= x.push(32u8));
        assert(*line == vx_src3@[u]);
        if good { lemma_line_shown(b, sel, v.0 + i + 1, selected.um(), deco.dfaces()); }
    }
//@ loop 3 end
    proof {
        u = u + 1;
        if good { assert(text_ok(vx_acc3@[u - 1], b, sel, v.0 + u)); }
    }
