//@ unit norm
//@ include common.vrs
//@ include replace.vrs
//@ rewrite acc + & x . to_string () => vx_append (acc , x . vx_to_string ())
//@ rewrite . is_whitespace () => . vx_is_whitespace ()
//@ verus
// ---- trusted: String and char of the standard library -----------------------
uninterp spec fn white(c: char) -> bool;
trait VxChar {
    spec fn vx_c(&self) -> char;
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == white(self.vx_c());
    fn vx_to_string(&self) -> (r: String) ensures r@ == seq![self.vx_c()];
}
impl VxChar for char {
    spec fn vx_c(&self) -> char { *self }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// String + &str
#[verifier::external_body]
fn vx_append(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@
{ unimplemented!() }
trait VxChars {
    spec fn vx_all(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.vx_all();
}
impl VxChars for str {
    spec fn vx_all(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
}

// ---- the property ------------------------------------------------------------
/// each run of one whitespace character reduced to a single one
spec fn squeezed(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.len() > 1 && white(s.last()) && s[s.len() - 2] == s.last() { squeezed(s.drop_last()) }
    else { squeezed(s.drop_last()).push(s.last()) }
}
proof fn lemma_subst(s: Seq<char>, c: char, with: Seq<char>, d: char)
    requires !with.contains(d), d == c || !s.contains(d)
    ensures !subst(s, c, with).contains(d)
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        if d != c {
            assert(!r.contains(d)) by {
                if r.contains(d) { let i = r.index_of(d); assert(s[i] == d); }
            }
        }
        lemma_subst(r, c, with, d);
        let p = subst(r, c, with);
        let q = subst(s, c, with);
        if q.contains(d) {
            let i = q.index_of(d);
            if i < p.len() { assert(p[i] == d); }
            else if s.last() == c { assert(with[i - p.len()] == d); }
            else { assert(s[s.len() - 1] == d); }
        }
    }
}
proof fn lemma_squeezed(s: Seq<char>, d: char)
    requires !s.contains(d)
    ensures !squeezed(s).contains(d)
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert(!r.contains(d)) by {
            if r.contains(d) { let i = r.index_of(d); assert(s[i] == d); }
        }
        lemma_squeezed(r, d);
        let p = squeezed(r);
        let q = squeezed(s);
        if q.contains(d) {
            let i = q.index_of(d);
            if i < p.len() { assert(p[i] == d); } else { assert(s[s.len() - 1] == d); }
        }
    }
}
/// no whitespace character is doubled, and the last character is kept
proof fn lemma_single(s: Seq<char>)
    ensures
        s.len() > 0 ==> squeezed(s).len() > 0 && squeezed(s).last() == s.last(),
        forall|i: int| 0 <= i < squeezed(s).len() - 1 && white(#[trigger] squeezed(s)[i]) ==> squeezed(s)[i + 1] != squeezed(s)[i],
    decreases s.len()
{
    if s.len() > 0 {
        lemma_single(s.drop_last());
    }
}
/// the text shown for a message
spec fn shown(m: Seq<char>) -> Seq<char> {
    squeezed(subst(subst(m, '\n', seq!['\\', 'n']), '\t', seq![' ']))
}
//@ source core/src/editor/core.rs
//@ fn normalize_error_message
    ensures
        result@ == shown(message@),
        !result@.contains('\n'), !result@.contains('\t'),
        forall|i: int| 0 <= i < result@.len() - 1 && white(#[trigger] result@[i]) ==> result@[i + 1] != result@[i],
//@ entry
    proof {
        reveal_strlit("\n"); reveal_strlit("\\n"); reveal_strlit("\t"); reveal_strlit(" "); reveal_strlit("");
        assert("\\n"@ =~= seq!['\\', 'n']);
        assert(" "@ =~= seq![' ']);
    }
    let ghost whole = subst(subst(message@, '\n', seq!['\\', 'n']), '\t', seq![' ']);
    proof {
        assert(!seq!['\\', 'n'].contains('\n'));
        assert(!seq![' '].contains('\n') && !seq![' '].contains('\t'));
        lemma_subst(message@, '\n', seq!['\\', 'n'], '\n');
        lemma_subst(subst(message@, '\n', seq!['\\', 'n']), '\t', seq![' '], '\n');
        lemma_subst(subst(message@, '\n', seq!['\\', 'n']), '\t', seq![' '], '\t');
        lemma_squeezed(whole, '\n');
        lemma_squeezed(whole, '\t');
        lemma_single(whole);
    }
    let ghost mut k: int = 0;
//@ loop 0
    invariant
        0 <= k <= whole.len(), vx_it0@ == whole.skip(k),
        vx_acc0@ == squeezed(whole.take(k)),
        skipping == (if k > 0 && white(whole[k - 1]) { Some(whole[k - 1]) } else { None }),
    ensures k == whole.len()
    decreases whole.len() - k
//@ loop 0 end
    proof {
        let t = whole.take(k + 1);
        assert(t.drop_last() =~= whole.take(k));
        assert(t.last() == whole[k]);
        k = k + 1;
    }
//@ loop 0 after
    proof { assert(whole.take(k) =~= whole); }
