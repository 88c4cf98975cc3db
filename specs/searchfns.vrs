//@ sources split_whitespace
//@ rewrite 0.0 => vx_fzero ()
//@ rewrite f64 => VxF
//@ rewrite 100.0 / ($$e) as VxF => vx_fdiv (100 , $$e)
//@ rewrite | ref $i | => | $i |
//@ rewrite (* $i) . clone () => vx_copy ($i)
//@ verus
// ---- trusted: texts ------------------------------------------------------------------
#[verifier::external_body]
fn vx_copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// a byte offset between two characters
spec fn at_char(t: Seq<char>, i: int) -> bool { exists|k: int| 0 <= k <= t.len() && i == sbytes(#[trigger] t.take(k)).len() }
trait VxStrParts {
    spec fn vx_t(&self) -> Seq<char>;
    /// t[a..b].to_owned()
    fn vx_sub(&self, a: usize, b: usize) -> (r: String)
        requires a <= b <= sbytes(self.vx_t()).len(), at_char(self.vx_t(), a as int), at_char(self.vx_t(), b as int)
        ensures sbytes(r@) == sbytes(self.vx_t()).subrange(a as int, b as int);
    fn vx_sub_from(&self, a: usize) -> (r: String)
        requires a <= sbytes(self.vx_t()).len(), at_char(self.vx_t(), a as int)
        ensures sbytes(r@) == sbytes(self.vx_t()).skip(a as int);
    fn vx_len(&self) -> (r: usize) ensures r == sbytes(self.vx_t()).len(), r <= isize::MAX;
    fn vx_cmp(&self, o: &str) -> (r: Ordering) ensures r == alpha(self.vx_t(), o@);
    fn vx_split_whitespace(&self) -> (r: VxIter<&str>)
        ensures r@.len() == words(self.vx_t()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(self.vx_t())[i];
}
impl VxStrParts for str {
    spec fn vx_t(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sub_from(&self, a: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &str) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: VxIter<&str>) { unimplemented!() }
}
/// str::split_whitespace
uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
/// the alphabetical order of texts
uninterp spec fn alpha(a: Seq<char>, b: Seq<char>) -> Ordering;
spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
axiom fn axiom_alpha(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        alpha(b, a) == flip(alpha(a, b)),
        alpha(a, b) == Ordering::Equal <==> a == b,
        alpha(a, b) != Ordering::Greater && alpha(b, c) != Ordering::Greater ==> alpha(a, c) != Ordering::Greater;
/// Vec<String>::join
spec fn glued(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { glued(v.drop_last(), sep) + sep + v.last() }
}
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
trait VxJoin { fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == glued(texts(self.vx_v()), sep@); spec fn vx_v(&self) -> Seq<String>; }
impl VxJoin for Vec<String> {
    spec fn vx_v(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
// ---- trusted: floating point numbers (no NaN), compared -------------------------------
#[verifier::external_body]
struct VxF { _p: u8 }
uninterp spec fn rank(f: VxF) -> int;
/// where a / n stands among the numbers
uninterp spec fn quot(a: int, n: int) -> int;
axiom fn axiom_quot(a: int, m: int, n: int)
    // a double tells the quotients of such numbers apart
    ensures 0 < a < 1000 && 0 < m < n <= 0x2_0000_0000_0000 ==> quot(a, n) < quot(a, m);
#[verifier::external_body]
fn vx_fdiv(a: u64, n: usize) -> (r: VxF)
    requires n > 0
    ensures rank(r) == quot(a as int, n as int)
{ unimplemented!() }
#[verifier::external_body]
fn vx_fzero() -> (r: VxF) { unimplemented!() }
spec fn score_gt(a: Option<VxF>, b: Option<VxF>) -> bool {
    match (a, b) { (Some(x), Some(y)) => rank(x) > rank(y), (Some(_), None) => true, _ => false }
}
spec fn score_eq(a: Option<VxF>, b: Option<VxF>) -> bool {
    match (a, b) { (Some(x), Some(y)) => rank(x) == rank(y), (None, None) => true, _ => false }
}
#[verifier::external_body]
fn vx_gt(a: &Option<VxF>, b: &Option<VxF>) -> (r: bool) ensures r == score_gt(*a, *b) { unimplemented!() }
#[verifier::external_body]
fn vx_eq(a: &Option<VxF>, b: &Option<VxF>) -> (r: bool) ensures r == score_eq(*a, *b) { unimplemented!() }

// ---- trusted: regular expressions -------------------------------------------------------
/// regex::escape
uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_escape(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
/// the pattern compiles (is not too large)
uninterp spec fn compiles(p: Seq<char>) -> bool;
/// \z. matches nowhere
spec fn never() -> Seq<char> { seq!['\\', 'z', '.'] }
spec fn group(w: Seq<char>) -> Seq<char> { seq!['('] + esc(w) + seq![')'] }
/// (?is)(w1).*(w2).* ... (wn)
spec fn word_pattern(ws: Seq<Seq<char>>) -> Seq<char> {
    seq!['(', '?', 'i', 's', ')'] + glued(Seq::new(ws.len(), |i: int| group(ws[i])), seq!['.', '*'])
}
/// the same text, ignoring case
uninterp spec fn same_word(w: Seq<char>, b: Seq<u8>) -> bool;
/// spans of the words in a text, in order, without overlap
spec fn spans_ok(t: Seq<char>, ws: Seq<Seq<char>>, sp: Seq<(int, int)>) -> bool {
    &&& sp.len() == ws.len()
    &&& forall|i: int| 0 <= i < sp.len() ==> span_ok(t, ws[i], #[trigger] sp[i])
    &&& forall|i: int, j: int| 0 <= i < j < sp.len() ==> (#[trigger] sp[i]).1 <= (#[trigger] sp[j]).0
}
spec fn span_ok(t: Seq<char>, w: Seq<char>, s: (int, int)) -> bool {
    &&& 0 <= s.0 <= s.1 <= sbytes(t).len()
    &&& at_char(t, s.0) && at_char(t, s.1)
    &&& same_word(w, sbytes(t).subrange(s.0, s.1))
}
spec fn occur(t: Seq<char>, ws: Seq<Seq<char>>) -> bool { exists|sp: Seq<(int, int)>| spans_ok(t, ws, sp) }
#[verifier::external_body]
struct Regex { _p: u8 }
#[verifier::external_body]
#[derive(Debug)]
struct VxRegexError { _p: u8 }
#[verifier::external_body]
struct VxMatch { _p: u8 }
#[verifier::external_body]
struct CaptureLocations { _p: u8 }
impl vstd::view::View for CaptureLocations { type V = Seq<Option<(usize, usize)>>; uninterp spec fn view(&self) -> Seq<Option<(usize, usize)>>; }
impl CaptureLocations {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<(usize, usize)>)
        ensures r == (if i < self@.len() { self@[i as int] } else { None })
    { unimplemented!() }
}
spec fn blank(l: Seq<Option<(usize, usize)>>) -> bool { l.len() > 0 && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is None }
/// the spans of the groups after the first, the whole match
spec fn spans(l: Seq<Option<(usize, usize)>>) -> Seq<(int, int)> { Seq::new((l.len() - 1) as nat, |i: int| ((l[i + 1]->0).0 as int, (l[i + 1]->0).1 as int)) }
/// the groups of a match of the words in a text
spec fn found(t: Seq<char>, ws: Seq<Seq<char>>, l: Seq<Option<(usize, usize)>>) -> bool {
    &&& l.len() == ws.len() + 1
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some
    &&& spans_ok(t, ws, spans(l))
    &&& (l[0]->0).0 == (if ws.len() == 0 { 0 } else { spans(l)[0].0 })
    &&& (l[0]->0).1 == (if ws.len() == 0 { 0 } else { spans(l).last().1 })
}
impl Regex {
    uninterp spec fn pattern(&self) -> Seq<char>;
    uninterp spec fn groups(&self) -> nat;
    #[verifier::external_body]
    fn new(p: &str) -> (r: Result<Regex, VxRegexError>)
        ensures r is Ok == compiles(p@), r is Ok ==> r->Ok_0.pattern() == p@, p@ == never() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    fn capture_locations(&self) -> (r: CaptureLocations)
        ensures r@.len() == self.groups(), blank(r@)
    { unimplemented!() }
    #[verifier::external_body]
    fn captures_read(&self, l: &mut CaptureLocations, t: &str) -> (r: Option<VxMatch>)
        requires old(l)@.len() == self.groups(), blank(old(l)@)
        ensures
            self.pattern() == never() ==> r is None,
            r is None ==> final(l)@ == old(l)@,
            forall|ws: Seq<Seq<char>>| self.pattern() == #[trigger] word_pattern(ws) ==> (r is Some <==> occur(t@, ws)),
            r is Some ==> forall|ws: Seq<Seq<char>>| self.pattern() == #[trigger] word_pattern(ws) ==> found(t@, ws, final(l)@),
            // a String never holds more than isize::MAX bytes (language guarantee)
            sbytes(t@).len() <= isize::MAX,
    { unimplemented!() }
}
axiom fn axiom_never(ws: Seq<Seq<char>>)
    ensures compiles(never());

// ---- the property --------------------------------------------------------------------------
/// the expression that a search is turned into
spec fn built(re: Regex, search: Seq<char>) -> bool {
    let p = word_pattern(words(search));
    re.pattern() == (if compiles(p) { p } else { never() })
}
spec fn matching(t: Seq<char>, search: Seq<char>) -> bool { compiles(word_pattern(words(search))) && occur(t, words(search)) }
/// how much of a text a match spans
spec fn width(sp: Seq<(int, int)>) -> int { if sp.len() == 0 { 0 } else { sp.last().1 - sp[0].0 } }
spec fn cand_ok<T: Searchable>(c: Candidate<T>, search: Seq<char>) -> bool {
    let t = c.object.vx_field();
    &&& c.score is Some <==> matching(t, search)
    &&& c.score is Some ==> found(t, words(search), c.locations@) && rank(c.score->0) == quot(100, 1 + width(spans(c.locations@)))
    &&& c.score is None ==> blank(c.locations@)
    &&& sbytes(t).len() <= isize::MAX
}
spec fn cand_cmp<T: Searchable>(a: Candidate<T>, b: Candidate<T>) -> Ordering {
    if score_eq(a.score, b.score) { alpha(b.object.vx_field(), a.object.vx_field()) }
    else if score_gt(a.score, b.score) { Ordering::Greater }
    else { Ordering::Less }
}
/// a may stand before b
spec fn before_ok<T: Searchable>(a: Candidate<T>, b: Candidate<T>) -> bool {
    let (s, t) = (a.object.vx_field(), b.object.vx_field());
    let (m, n) = (width(spans(a.locations@)), width(spans(b.locations@)));
    // matching entries first
    &&& b.score is Some ==> a.score is Some
    // shorter spans first, equal ones in alphabetical order
    &&& a.score is Some && b.score is Some && m < 0x1_0000_0000_0000 && n < 0x1_0000_0000_0000 ==> m < n || m == n && alpha(s, t) != Ordering::Greater
    &&& a.score is None ==> alpha(s, t) != Ordering::Greater
}
/// the comparison is a total order
proof fn lemma_cand_order<T: Searchable>(a: Candidate<T>, b: Candidate<T>, c: Candidate<T>)
    ensures
        cand_cmp(b, a) == flip(cand_cmp(a, b)),
        cand_cmp(a, b) != Ordering::Greater && cand_cmp(b, c) != Ordering::Greater ==> cand_cmp(a, c) != Ordering::Greater,
{
    axiom_alpha(a.object.vx_field(), b.object.vx_field(), c.object.vx_field());
    axiom_alpha(c.object.vx_field(), b.object.vx_field(), a.object.vx_field());
}
proof fn lemma_before<T: Searchable>(a: Candidate<T>, b: Candidate<T>, search: Seq<char>)
    requires cand_ok(a, search), cand_ok(b, search), cand_cmp(b, a) != Ordering::Greater
    ensures before_ok(a, b)
{
    axiom_alpha(a.object.vx_field(), b.object.vx_field(), a.object.vx_field());
    let (m, n) = (width(spans(a.locations@)), width(spans(b.locations@)));
    if a.score is Some && b.score is Some {
        lemma_width(a, search); lemma_width(b, search);
        axiom_quot(100, 1 + n, 1 + m);
        axiom_quot(100, 1 + m, 1 + n);
    }
}
proof fn lemma_width<T: Searchable>(a: Candidate<T>, search: Seq<char>)
    requires cand_ok(a, search), a.score is Some
    ensures 0 <= width(spans(a.locations@)) <= sbytes(a.object.vx_field()).len()
{
    let sp = spans(a.locations@);
    let ws = words(search);
    if sp.len() > 0 {
        assert(span_ok(a.object.vx_field(), ws[0], sp[0]));
        assert(span_ok(a.object.vx_field(), ws[sp.len() - 1], sp[sp.len() - 1]));
        if sp.len() > 1 { assert(sp[0].1 <= sp[sp.len() - 1].0); }
    }
}
/// the texts of tokens, put together
spec fn together(v: Seq<Token>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { together(v.drop_last()) + sbytes(v.last().text@) }
}
/// the texts of the highlighted tokens
spec fn marked(v: Seq<Token>) -> Seq<Seq<u8>>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() }
    else if v.last().is_match { marked(v.drop_last()).push(sbytes(v.last().text@)) }
    else { marked(v.drop_last()) }
}
spec fn pieces(t: Seq<char>, sp: Seq<(int, int)>) -> Seq<Seq<u8>> { Seq::new(sp.len(), |i: int| sbytes(t).subrange(sp[i].0, sp[i].1)) }
proof fn lemma_token(v: Seq<Token>, x: Token)
    ensures
        together(v.push(x)) == together(v) + sbytes(x.text@),
        marked(v.push(x)) == (if x.is_match { marked(v).push(sbytes(x.text@)) } else { marked(v) }),
{
    assert(v.push(x).drop_last() =~= v);
}
proof fn lemma_tokens()
    ensures forall|v: Seq<Token>, x: Token| #![trigger v.push(x)]
        together(v.push(x)) == together(v) + sbytes(x.text@) && marked(v.push(x)) == (if x.is_match { marked(v).push(sbytes(x.text@)) } else { marked(v) })
{
    assert forall|v: Seq<Token>, x: Token| #![trigger v.push(x)]
        together(v.push(x)) == together(v) + sbytes(x.text@) && marked(v.push(x)) == (if x.is_match { marked(v).push(sbytes(x.text@)) } else { marked(v) }) by { lemma_token(v, x); }
}
proof fn lemma_no_bytes()
    ensures sbytes(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
}
/// what the tokens are after k of the groups
spec fn tok_inv(tokens: Seq<Token>, last_end: int, t: Seq<char>, sp: Seq<(int, int)>, hit: bool, k: int) -> bool {
    &&& hit ==> last_end == (if k == 0 { 0 } else { sp[k - 1].1 }) && marked(tokens) == pieces(t, sp.take(k))
    &&& !hit ==> last_end == 0 && tokens.len() == 0
    &&& together(tokens) == sbytes(t).take(last_end)
    &&& at_char(t, last_end) && 0 <= last_end <= sbytes(t).len()
}
/// the groups of the words
spec fn grouped(v: Seq<String>, ws: Seq<Seq<char>>) -> bool {
    v.len() == ws.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == group(ws[i])
}
/// a candidate for each of the first k entries
spec fn made<T: Searchable>(v: Seq<Candidate<T>>, items: Seq<T>, k: int, search: Seq<char>) -> bool {
    v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).object == items[i] && cand_ok(v[i], search)
}
proof fn lemma_objects<T: Searchable>(a: Seq<Candidate<T>>, b: Seq<Candidate<T>>)
    requires a.to_multiset() == b.to_multiset()
    ensures a.map_values(|c: Candidate<T>| c.object).to_multiset() == b.map_values(|c: Candidate<T>| c.object).to_multiset()
    decreases a.len()
{
    let f = |c: Candidate<T>| c.object;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() == 0 {
        assert(a.map_values(f) =~= b.map_values(f));
    } else {
        let x = a.last();
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        let j = b.index_of(x);
        assert(b.contains(x));
        let a1 = a.drop_last(); let b1 = b.remove(j);
        assert(a1.push(x) =~= a);
        a1.to_multiset_ensures(); b1.to_multiset_ensures();
        assert(a1.to_multiset() =~= b1.to_multiset()) by { assert(a.to_multiset() =~= a1.to_multiset().insert(x)); assert(b1.to_multiset() =~= b.to_multiset().remove(x)); }
        lemma_objects(a1, b1);
        a1.map_values(f).to_multiset_ensures();
        b.map_values(f).to_multiset_ensures();
        assert(a.map_values(f) =~= a1.map_values(f).push(f(x)));
        assert(b1.map_values(f) =~= b.map_values(f).remove(j));
        assert(b.map_values(f).contains(f(x))) by { assert(b.map_values(f)[j] == f(x)); }
        assert(b.map_values(f).to_multiset() =~= b1.map_values(f).to_multiset().insert(f(x)));
    }
}
spec fn shown_sorted<T: Searchable>(w: Seq<Candidate<T>>, items: Seq<T>, search: Seq<char>) -> bool {
    // every entry exactly once
    &&& w.len() == items.len() && w.map_values(|c: Candidate<T>| c.object).to_multiset() == items.to_multiset()
    // matching as the search says
    &&& forall|i: int| 0 <= i < w.len() ==> cand_ok(#[trigger] w[i], search)
    // in order
    &&& forall|i: int, j: int| 0 <= i < j < w.len() ==> before_ok(#[trigger] w[i], #[trigger] w[j])
}
proof fn lemma_sorted<T: Searchable>(v: Seq<Candidate<T>>, w: Seq<Candidate<T>>, items: Seq<T>, search: Seq<char>)
    requires
        made(v, items, items.len() as int, search),
        w.to_multiset() == v.to_multiset(), w.len() == v.len(),
        forall|i: int, j: int| 0 <= i < j < w.len() ==> cand_cmp(#[trigger] w[j], #[trigger] w[i]) != Ordering::Greater,
    ensures
        w.map_values(|c: Candidate<T>| c.object).to_multiset() == items.to_multiset(),
        forall|i: int| 0 <= i < w.len() ==> cand_ok(#[trigger] w[i], search),
        forall|i: int, j: int| 0 <= i < j < w.len() ==> before_ok(#[trigger] w[i], #[trigger] w[j]),
{
    lemma_objects(w, v);
    assert(v.map_values(|c: Candidate<T>| c.object) =~= items);
    v.to_multiset_ensures(); w.to_multiset_ensures();
    assert forall|i: int| 0 <= i < w.len() implies cand_ok(#[trigger] w[i], search) by {
        assert(w.contains(w[i]));
        assert(v.to_multiset().count(w[i]) > 0);
        assert(v.contains(w[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies before_ok(#[trigger] w[i], #[trigger] w[j]) by { lemma_before(w[i], w[j], search); }
}
// ---- trusted: sort_by, its comparison being checked to be that of the candidates, reversed ----
#[verifier::external_body]
fn vx_any_pair<'a, T: Searchable>() -> (r: (&'a Candidate<T>, &'a Candidate<T>)) { unimplemented!() }
fn vx_cmp_is<T: Searchable>(o: Ordering, a: &Candidate<T>, b: &Candidate<T>)
    requires o == cand_cmp(*b, *a)
{ }
trait VxSortBy {
    fn vx_sort_by(&mut self, u: ());
}
impl<T: Searchable> VxSortBy for Vec<Candidate<T>> {
    #[verifier::external_body]
    fn vx_sort_by(&mut self, u: ())
        ensures
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> cand_cmp(#[trigger] final(self)@[j], #[trigger] final(self)@[i]) != Ordering::Greater,
            final(self)@.to_multiset() == old(self)@.to_multiset(),
            final(self)@.len() == old(self)@.len(),
    { unimplemented!() }
}
//@ source core/src/editor/menu.rs
//@ trait Searchable
    spec fn vx_field(&self) -> Seq<char>;
//@ fn Searchable::field intrait
    ensures result@ == self.vx_field()
//@ struct Token
//@ struct Candidate
//@ struct Candidates
//@ struct MenuFilter
//@ fn compute_candidate_score
    requires
        locations@.len() > 0,
        forall|i: int| 0 <= i < locations@.len() ==> (#[trigger] locations@[i]) is Some,
        (locations@[0]->0).0 <= (locations@.last()->0).1 <= isize::MAX,
    ensures rank(result) == quot(100, 1 + (locations@.last()->0).1 - (locations@[0]->0).0)
//@ fn Candidate::new
    requires exists|s: Seq<char>| built(*re, s)
    ensures
        result.object == object,
        forall|s: Seq<char>| #[trigger] built(*re, s) ==> cand_ok(result, s),
//@ fn Candidate::is_match
    ensures result == (self.score is Some)
//@ fn Candidate::tokenize
//@ rewrite text [$$a ..] . to_owned () => text . vx_sub_from ($$a)
//@ rewrite text [$$a .. $$b] . to_owned () => text . vx_sub ($$a , $$b)
//@ rewrite text . len () => text . vx_len ()
    requires exists|s: Seq<char>| cand_ok(*self, s)
    ensures
        // the tokens put together give the label
        together(result@) == sbytes(self.object.vx_field()),
        // the highlighted ones are the words that were found
        marked(result@) == (if self.score is Some { pieces(self.object.vx_field(), spans(self.locations@)) } else { Seq::empty() }),
//@ entry
    let ghost s0 = choose|s: Seq<char>| cand_ok(*self, s);
    let ghost t = self.object.vx_field();
    let ghost sp = spans(self.locations@);
    proof {
        lemma_tokens();
        assert(t.take(0) =~= Seq::<char>::empty());
        lemma_no_bytes();
        assert(at_char(t, 0));
        assert(sbytes(t).take(0) =~= Seq::<u8>::empty());
        assert(pieces(t, sp.take(0)) =~= Seq::<Seq<u8>>::empty());
    }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant
        cand_ok(*self, s0), t == self.object.vx_field(), text@ == t, sp == spans(self.locations@),
        0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == self.locations@.len() - 1, forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i]) == 1 + i,
        tok_inv(tokens@, last_end as int, t, sp, self.score is Some, k),
    ensures tok_inv(tokens@, last_end as int, t, sp, self.score is Some, src.len() as int), src.len() == self.locations@.len() - 1,
    decreases src.len() - k
//@ loop 0 entry
    let ghost tk = tokens@;
    let ghost le = last_end as int;
    proof {
        lemma_tokens();
        if k < src.len() && self.score is Some {
            assert(span_ok(t, words(s0)[k], sp[k]));
            assert(self.locations@[k + 1] is Some);
            if k > 0 { assert(sp[k - 1].1 <= sp[k].0); }
        }
    }
//@ loop 0 end
    proof {
        if self.score is Some {
            let x = tokens@[tk.len() as int]; let y = tokens@[tk.len() as int + 1];
            assert(tokens@ =~= tk.push(x).push(y));
            assert(together(tk.push(x)) == together(tk) + sbytes(x.text@));
            assert(together(tokens@) =~= sbytes(t).take(sp[k].1));
            assert(pieces(t, sp.take(k + 1)) =~= pieces(t, sp.take(k)).push(sbytes(t).subrange(sp[k].0, sp[k].1)));
        }
        k = k + 1;
    }
//@ exit
    proof {
        assert(sp.take(sp.len() as int) =~= sp);
        assert(sbytes(t).take(sbytes(t).len() as int) =~= sbytes(t));
        assert(forall|i: int| #![trigger sbytes(t).skip(i)] 0 <= i <= sbytes(t).len() ==> sbytes(t).take(i) + sbytes(t).skip(i) =~= sbytes(t));
    }
//@ fn Ord@Candidate::cmp
//@ rewrite . cmp (& $$b) => . vx_cmp ($$b)
//@ rewrite self == other => self . eq (other)
//@ rewrite self . score > other . score => vx_gt (& self . score , & other . score)
    ensures result == cand_cmp(*self, *other)
//@ fn PartialOrd@Candidate::partial_cmp
    ensures result == Some(cand_cmp(*self, *other))
//@ fn PartialEq@Candidate::eq
//@ rewrite self . score == other . score => vx_eq (& self . score , & other . score)
    ensures result == score_eq(self.score, other.score)
//@ fn MenuFilter::new
    ensures result.search@ == search@
//@ fn MenuFilter::build_regex
//@ rewrite regex :: escape ($$e) => vx_escape ($$e)
//@ rewrite . join ($$s) => . vx_join ($$s)
//@ rewrite Regex :: new ($$a) . unwrap_or_else (| _ | $$b) => match Regex :: new ($$a) { Ok (vx_ok) => vx_ok , Err (_) => $$b }
    ensures built(result, self.search@)
//@ entry
    let ghost ws = words(self.search@);
    proof {
        reveal_strlit("("); reveal_strlit(")"); reveal_strlit(".*"); reveal_strlit("(?is)"); reveal_strlit("\\z.");
        assert("("@ =~= seq!['(']); assert(")"@ =~= seq![')']); assert(".*"@ =~= seq!['.', '*']);
        assert("(?is)"@ =~= seq!['(', '?', 'i', 's', ')']); assert("\\z."@ =~= never());
        axiom_never(ws);
        assert(forall|a: Seq<char>| #![auto] Seq::<char>::empty() + a =~= a);
        assert forall|v: Seq<String>| #[trigger] grouped(v, ws) implies texts(v) == Seq::new(ws.len(), |i: int| group(ws[i])) by {
            assert(texts(v) =~= Seq::new(ws.len(), |i: int| group(ws[i])));
        }
    }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant
        0 <= k <= src.len(), vx_it0@ == src.skip(k), grouped(vx_acc0@, ws.take(k)), ws == words(self.search@), src.len() == ws.len(),
        forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i])@ == ws[i],
        "("@ == seq!['('], ")"@ == seq![')'],
    ensures grouped(vx_acc0@, ws)
    decreases src.len() - k
//@ loop 0 entry
    proof { assert(ws.take(ws.len() as int) =~= ws); assert(forall|a: Seq<char>| #![auto] Seq::<char>::empty() + a =~= a); }
//@ loop 0 end
    proof { k = k + 1; }
//@ fn MenuFilter::filter
//@ rewrite . sort_by (| $a , $b | $$body) => . vx_sort_by ({ let ($a, $b) = vx_any_pair :: < T > (); vx_cmp_is($$body, $a, $b) })
    ensures shown_sorted(result.0@, items@, self.search@)
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant
        0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == items@.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == items@[i],
        built(re, self.search@), made(vx_acc0@, items@, k, self.search@),
    ensures made(vx_acc0@, items@, items@.len() as int, self.search@)
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ exit
    proof {
        assert forall|v: Seq<Candidate<T>>| #[trigger] made(v, items@, items@.len() as int, self.search@)
            && vx_ret.0@.to_multiset() == v.to_multiset() && vx_ret.0@.len() == v.len()
            && (forall|i: int, j: int| 0 <= i < j < vx_ret.0@.len() ==> cand_cmp(#[trigger] vx_ret.0@[j], #[trigger] vx_ret.0@[i]) != Ordering::Greater)
            implies shown_sorted(vx_ret.0@, items@, self.search@) by { lemma_sorted(v, vx_ret.0@, items@, self.search@); }
    }
//@ verus
// ---- the entries shown --------------------------------------------------------------
/// fn(&str, &mut Editor, usize) -> Result<(), jsonrpc::Error> and fn(&EditorInfo) -> Vec<MenuEntry>
#[verifier::external_body]
struct MenuAction { _p: u8 }
impl Clone for MenuAction {
    #[verifier::external_body]
    fn clone(&self) -> (r: MenuAction) { unimplemented!() }
}
#[verifier::external_body]
struct EntryProvider { _p: u8 }
//@ source remote/src/protocol.rs
//@ enum Face
//@ verus
/// ornament::TextFragment<Face>
struct TextFragment { text: String, face: Face }
/// ornament::Text<Face>
#[verifier::external_body]
struct Text { _p: u8 }
impl Text {
    /// its pieces, with their faces
    uninterp spec fn frags(&self) -> Seq<TextFragment>;
}
/// Into<Text>
trait VxIntoText { spec fn vx_f(&self) -> Seq<TextFragment>; fn vx_into(self) -> (r: Text) ensures r.frags() == self.vx_f(); }
impl VxIntoText for TextFragment {
    spec fn vx_f(&self) -> Seq<TextFragment> { seq![*self] }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Text) { unimplemented!() }
}
impl VxIntoText for Vec<TextFragment> {
    spec fn vx_f(&self) -> Seq<TextFragment> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Text) { unimplemented!() }
}
//@ source remote/src/protocol.rs
//@ struct MenuParamsEntry
//@ struct MenuParams
//@ source core/src/editor/menu.rs
//@ struct MenuEntry Clone
//@ enum Source
//@ struct Menu
//@ traitimpl Searchable@MenuEntry
    spec fn vx_field(&self) -> Seq<char> { self.label@ }
//@ fn Searchable@MenuEntry::field intrait
//@ verus
impl Candidates<MenuEntry> {
    /// Deref
    fn vx_inner(self) -> (r: Vec<Candidate<MenuEntry>>) ensures r == self.0 { self.0 }
}
trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for String {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: String) { unimplemented!() }
}
impl VxClone for Option<String> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Option<String>) { unimplemented!() }
}
spec fn vals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// the texts of fragments, put together
spec fn frag_text(v: Seq<TextFragment>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { frag_text(v.drop_last()) + sbytes(v.last().text@) }
}
/// the texts of the highlighted ones
spec fn frag_marks(v: Seq<TextFragment>) -> Seq<Seq<u8>>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() }
    else if v.last().face == Face::Match { frag_marks(v.drop_last()).push(sbytes(v.last().text@)) }
    else { frag_marks(v.drop_last()) }
}
spec fn frags_of(v: Seq<TextFragment>, t: Seq<Token>) -> bool {
    v.len() == t.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).text@ == t[i].text@ && v[i].face == (if t[i].is_match { Face::Match } else { Face::Default })
}
proof fn lemma_frags(v: Seq<TextFragment>, t: Seq<Token>)
    requires frags_of(v, t)
    ensures frag_text(v) == together(t), frag_marks(v) == marked(t)
    decreases v.len()
{
    if v.len() > 0 {
        assert(frags_of(v.drop_last(), t.drop_last()));
        assert(v.last() == v[v.len() - 1] && t.last() == t[t.len() - 1]);
        lemma_frags(v.drop_last(), t.drop_last());
    }
}
/// the matching candidates, in order
spec fn hits(w: Seq<Candidate<MenuEntry>>) -> Seq<Candidate<MenuEntry>>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() } else if w.last().score is Some { hits(w.drop_last()).push(w.last()) } else { hits(w.drop_last()) }
}
spec fn entry_of(e: MenuParamsEntry, c: Candidate<MenuEntry>) -> bool {
    &&& e.value@ == c.object.key@ && e.description == c.object.description
    &&& frag_text(e.text.frags()) == sbytes(c.object.label@)
    &&& frag_marks(e.text.frags()) == pieces(c.object.label@, spans(c.locations@))
}
spec fn entries_of(v: Seq<MenuParamsEntry>, h: Seq<Candidate<MenuEntry>>) -> bool {
    v.len() == h.len() && forall|i: int| 0 <= i < v.len() ==> entry_of(#[trigger] v[i], h[i])
}
spec fn prompted(v: Seq<MenuParamsEntry>, es: Seq<MenuEntry>, k: int) -> bool {
    v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).value@ == es[i].key@ && v[i].description == es[i].description
        && v[i].text.frags().len() == 1 && v[i].text.frags()[0].text@ == es[i].label@ && v[i].text.frags()[0].face == Face::Prompt
}
//@ fn Menu::is_prompt
    ensures result == (self.source is Prompt)
//@ fn Menu::filter
    ensures shown_sorted(result.0@, self.entries@, search@)
//@ fn Menu::to_notification_params
//@ rewrite . into () => . vx_into ()
//@ rewrite self . filter (search) => self . filter (search) . vx_inner ()
//@ rewrite . clone () => . vx_clone ()
//@ rewrite . to_string () => . vx_to_string ()
    ensures
        result.command@ == self.command@, result.title@ == self.title@, result.search@ == search@,
        self.source is Prompt ==> prompted(result.entries@, self.entries@, self.entries@.len() as int),
        !(self.source is Prompt) ==> exists|w: Seq<Candidate<MenuEntry>>| shown_sorted(w, self.entries@, search@) && entries_of(result.entries@, hits(w)),
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == self.entries@.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == self.entries@[i], prompted(vx_acc0@, self.entries@, k),
    ensures prompted(vx_acc0@, self.entries@, self.entries@.len() as int)
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ loop 1 before
    let ghost src = vx_it1@;
    let ghost mut k = 0int;
    let ghost w = vals(src);
    proof { assert(w =~= vx_src1@); assert(w.take(0) =~= Seq::<Candidate<MenuEntry>>::empty()); }
//@ loop 1
    invariant 0 <= k <= src.len(), vx_it1@ == src.skip(k), w == vals(src), shown_sorted(w, self.entries@, search@), entries_of(vx_acc1@, hits(w.take(k))),
    ensures entries_of(vx_acc1@, hits(w)), shown_sorted(w, self.entries@, search@),
    decreases src.len() - k
//@ loop 1 entry
    let ghost acc = vx_acc1@;
    proof {
        assert(w.take(w.len() as int) =~= w);
        if k < src.len() {
            assert(w.take(k + 1).drop_last() =~= w.take(k));
            assert(cand_ok(w[k], search@));
        }
    }
//@ loop 1 end
    proof {
        k = k + 1;
    }
//@ loop 2 before
    let ghost src2 = vx_it2@;
    let ghost tk = vx_src2@;
    let ghost mut k2 = 0int;
//@ loop 2
    invariant 0 <= k2 <= src2.len(), vx_it2@ == src2.skip(k2), src2.len() == tk.len(), forall|i: int| 0 <= i < src2.len() ==> *(#[trigger] src2[i]) == tk[i], frags_of(vx_acc2@, tk.take(k2)),
    ensures frags_of(vx_acc2@, tk)
    decreases src2.len() - k2
//@ loop 2 entry
    proof { assert(tk.take(tk.len() as int) =~= tk); if k2 < tk.len() { assert(tk.take(k2 + 1).drop_last() =~= tk.take(k2)); } }
//@ loop 2 end
    proof { k2 = k2 + 1; }
//@ loop 2 after
    proof { lemma_frags(vx_acc2@, tk); }
