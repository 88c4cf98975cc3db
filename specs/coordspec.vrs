//@ verus
//once coordspec
// ---- trusted: segmentation of bytes into extended grapheme clusters (bstr) ----
/// where the graphemes of a text begin
uninterp spec fn gstarts(b: Seq<u8>) -> Seq<usize>;
broadcast axiom fn axiom_graphemes(b: Seq<u8>)
    ensures incr(#[trigger] gstarts(b)),
        b.len() > 0 <==> gstarts(b).len() > 0,
        b.len() > 0 ==> gstarts(b)[0] == 0,
        b.len() > 0 ==> gstarts(b).last() < b.len();
/// where grapheme `k` ends
spec fn gend(b: Seq<u8>, k: int) -> int {
    if k + 1 < gstarts(b).len() { gstarts(b)[k + 1] as int } else { b.len() as int }
}
spec fn gtext(b: Seq<u8>, k: int) -> Seq<char> { lossy(b.subrange(gstarts(b)[k] as int, gend(b, k))) }
trait VxGraphemes {
    spec fn vx_gb(&self) -> Seq<u8>;
    fn vx_graphemes<'a>(&'a self) -> (r: VxIter<&'a str>)
        ensures r@.len() == gstarts(self.vx_gb()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == gtext(self.vx_gb(), i);
    fn vx_grapheme_indices<'a>(&'a self) -> (r: VxIter<(usize, usize, &'a str)>)
        ensures r@.len() == gstarts(self.vx_gb()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == gstarts(self.vx_gb())[i] && r@[i].1 == gend(self.vx_gb(), i) && r@[i].2@ == gtext(self.vx_gb(), i);
}
impl VxGraphemes for Vec<u8> {
    spec fn vx_gb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_graphemes<'a>(&'a self) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_grapheme_indices<'a>(&'a self) -> (r: VxIter<(usize, usize, &'a str)>) { unimplemented!() }
}

// ---- coordinates ---------------------------------------------------------------
/// graphemes of line `l`
spec fn gcount(b: Seq<u8>, l: int) -> int { gstarts(line(b, l)).len() as int }
/// column `c` of line `l` holds the byte at distance `d` from the line's beginning
spec fn incol(b: Seq<u8>, l: int, c: int, d: int) -> bool {
    let x = line(b, l);
    let g = gstarts(x);
    if d == x.len() { c == g.len() + 1 } else { 1 <= c <= g.len() && g[c - 1] <= d && d < gend(x, c - 1) }
}
/// coordinates `p` are those of the byte at `off`
spec fn coord_of(b: Seq<u8>, p: Coords, off: int) -> bool {
    &&& 1 <= p.l <= nlines(b)
    &&& lstart(b, p.l as int) <= off <= lend(b, p.l as int)
    &&& incol(b, p.l as int, p.c as int, off - lstart(b, p.l as int))
}
/// coordinates that exist: a grapheme of a line, or the place after the last one
spec fn exists_at(b: Seq<u8>, p: Coords) -> bool {
    1 <= p.l <= nlines(b) && 1 <= p.c <= gcount(b, p.l as int) + 1
}
/// the offset those coordinates denote
spec fn offset_of(b: Seq<u8>, p: Coords) -> int {
    lstart(b, p.l as int) + (if p.c == gcount(b, p.l as int) + 1 { line(b, p.l as int).len() as int } else { gstarts(line(b, p.l as int))[p.c - 1] as int })
}
/// the line of an offset
spec fn line_at(b: Seq<u8>, off: int) -> int { below(nlpos(b), off) + 1 }
proof fn lemma_line_at(b: Seq<u8>, off: int)
    requires b.len() <= CAP(), 0 <= off < b.len()
    ensures 1 <= line_at(b, off) <= nlines(b), lstart(b, line_at(b, off)) <= off <= lend(b, line_at(b, off)),
{
    lemma_nlpos(b);
    let nl = nlpos(b);
    lemma_below(nl, off);
    lemma_nl_count(nl, b);
    lemma_nl(nl, b);
    if b.last() == 10u8 { lemma_last_nl(nl, b); }
}
proof fn lemma_gcount(b: Seq<u8>)
    ensures gstarts(b).len() <= b.len(), forall|i: int| 0 <= i < gstarts(b).len() ==> (#[trigger] gstarts(b)[i]) < b.len(),
{
    broadcast use axiom_graphemes;
    let g = gstarts(b);
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]) < b.len() by { if i < g.len() - 1 { assert(g[i] < g.last()); } }
    lemma_incr_bound(g, b.len() as int);
}
/// the columns of two bytes of a line differ unless one grapheme holds both
proof fn lemma_col_unique(x: Seq<u8>, c: int, e: int, d: int)
    requires 0 <= d < x.len(), 1 <= c <= gstarts(x).len(), 1 <= e <= gstarts(x).len(),
        gstarts(x)[c - 1] <= d < gend(x, c - 1), gstarts(x)[e - 1] <= d < gend(x, e - 1)
    ensures c == e
{
    broadcast use axiom_graphemes;
    let g = gstarts(x);
    if c < e { assert(g[c] <= g[e - 1]) by { if c < e - 1 { assert(g[c] < g[e - 1]); } } }
    if e < c { assert(g[e] <= g[c - 1]) by { if e < c - 1 { assert(g[e] < g[c - 1]); } } }
}
/// the line of an offset is unique
proof fn lemma_line_unique(b: Seq<u8>, l: int, m: int, off: int)
    requires b.len() <= CAP(), 1 <= l <= nlines(b), 1 <= m <= nlines(b), lstart(b, l) <= off <= lend(b, l), lstart(b, m) <= off <= lend(b, m)
    ensures l == m
{
    lemma_nlpos(b);
    let nl = nlpos(b);
    if l < m { assert(nl[l - 1] <= nl[m - 2]) by { if l - 1 < m - 2 { assert(nl[l - 1] < nl[m - 2]); } } }
    if m < l { assert(nl[m - 1] <= nl[l - 2]) by { if m - 1 < l - 2 { assert(nl[m - 1] < nl[l - 2]); } } }
}
/// converting existing coordinates to an offset and back gives them again
proof fn lemma_there_and_back(b: Seq<u8>, p: Coords, q: Coords)
    requires b.len() <= CAP(), exists_at(b, p), coord_of(b, q, offset_of(b, p))
    ensures p == q
{
    broadcast use axiom_graphemes;
    let l = p.l as int;
    let x = line(b, l);
    let g = gstarts(x);
    lemma_line(b, l);
    if p.c <= g.len() {
        if p.c < g.len() { assert(g[p.c - 1] < g[p.c as int]); assert(g[p.c as int] <= g.last()) by { if p.c < g.len() - 1 { assert(g[p.c as int] < g.last()); } } }
    }
    lemma_line_unique(b, l, q.l as int, offset_of(b, p));
    if p.c <= g.len() {
        lemma_col_unique(x, p.c as int, q.c as int, g[p.c - 1] as int);
    }
}
/// converting the coordinates of an offset back gives the first byte of the grapheme holding it
proof fn lemma_back_and_there(b: Seq<u8>, p: Coords, off: int)
    requires b.len() <= CAP(), coord_of(b, p, off)
    ensures exists_at(b, p), offset_of(b, p) <= off,
        off == lend(b, p.l as int) ==> offset_of(b, p) == off,
        (exists|k: int| 0 <= k < gcount(b, p.l as int) && off == lstart(b, p.l as int) + #[trigger] gstarts(line(b, p.l as int))[k]) ==> offset_of(b, p) == off,
{
    broadcast use axiom_graphemes;
    let l = p.l as int;
    let x = line(b, l);
    let g = gstarts(x);
    lemma_line(b, l);
    if exists|k: int| 0 <= k < gcount(b, l) && off == lstart(b, l) + #[trigger] g[k] {
        let k = choose|k: int| 0 <= k < gcount(b, l) && off == lstart(b, l) + #[trigger] g[k];
        if k < g.len() - 1 { assert(g[k] < g[k + 1]); assert(g[k] < g.last()); }
        assert(g[k] < x.len());
        lemma_col_unique(x, p.c as int, k + 1, off - lstart(b, l));
    }
}
