//@ rewrite . replace ($$a) => . vx_replace ($$a)
//@ verus
//once replace
// ---- trusted: str::replace ------------------------------------------------------
/// each c replaced by with
spec fn subst(s: Seq<char>, c: char, with: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() == c { subst(s.drop_last(), c, with) + with }
    else { subst(s.drop_last(), c, with).push(s.last()) }
}
trait VxReplace {
    spec fn vx_seq(&self) -> Seq<char>;
    fn vx_replace(&self, from: &str, to: &str) -> (r: String)
        requires from@.len() == 1
        ensures r@ == subst(self.vx_seq(), from@[0], to@);
}
impl VxReplace for str {
    spec fn vx_seq(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace(&self, from: &str, to: &str) -> (r: String) { unimplemented!() }
}
