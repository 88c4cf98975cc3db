//@ rewrite fmt :: Formatter => VxFormatter
//@ rewrite fmt :: Result => Result<(), VxFmtError>
//@ verus
//once fmt
// ---- trusted: formatting -------------------------------------------------------
#[verifier::external_body]
struct VxFmtError { _p: u8 }
/// a formatter that writes to a string (to_string, format!): writing does not fail
#[verifier::external_body]
struct VxFormatter { _p: u8 }
impl vstd::view::View for VxFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxFormatter {
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>)
        ensures r is Ok, final(self)@ == old(self)@ + s@
    { unimplemented!() }
    fn vx_lit(&mut self, s: &str)
        ensures final(self)@ == old(self)@ + s@
    { let _ = self.write_str(s); }
}
fn vx_fmt_ok() -> (r: Result<(), VxFmtError>)
    ensures r is Ok
{ Ok(()) }
/// what `{}` writes
trait VxShow {
    spec fn vx_shown(&self) -> Seq<char>;
    fn vx_show_to(&self, f: &mut VxFormatter) ensures final(f)@ == old(f)@ + self.vx_shown();
}
fn vx_show<T: VxShow>(t: &T, f: &mut VxFormatter)
    ensures final(f)@ == old(f)@ + t.vx_shown()
{ t.vx_show_to(f) }
impl VxShow for String {
    spec fn vx_shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
impl VxShow for char {
    spec fn vx_shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
impl VxShow for str {
    spec fn vx_shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
/// the decimal digits of a number
spec fn dec(n: int) -> Seq<char>
    decreases n
{
    if n < 10 { seq![((n + '0' as int) as u8) as char] } else { dec(n / 10).push(((n % 10 + '0' as int) as u8) as char) }
}
impl VxShow for usize {
    spec fn vx_shown(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
impl<'a, T: VxShow + ?Sized> VxShow for &'a T {
    spec fn vx_shown(&self) -> Seq<char> { (**self).vx_shown() }
    fn vx_show_to(&self, f: &mut VxFormatter) { (**self).vx_show_to(f) }
}
/// to_string: what `{}` writes
trait VxToString: VxShow {
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_shown();
}
impl<T: VxShow + ?Sized> VxToString for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// the text of one argument of format!
fn vx_display<T: VxShow + ?Sized>(t: &T) -> (r: String)
    ensures r@ == t.vx_shown()
{ t.vx_to_string() }
