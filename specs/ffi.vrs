//@ unit ffi
//@ include common.vrs
//@ include bytes.vrs
//@ rewrite LAST_ERROR . with (| $x | $$e) => { let $x = & mut * vx_last ; $$e }
//@ rewrite . borrow_mut () =>
//@ rewrite . borrow () =>
//@ rewrite Box < dyn Error > => VxError
//@ rewrite . to_string () => . vx_to_string ()
//@ rewrite take_last_error () => take_last_error (vx_last)
//@ rewrite ced_last_error_length () => ced_last_error_length (vx_last)
//@ rewrite buffer : * mut c_char , length : c_int => vx_last : & mut Option < VxError > , buffer : & mut VxBuffer , length : c_int
//@ rewrite slice :: from_raw_parts_mut ($$p as * mut u8 , $$n) => vx_from_raw_parts_mut ($$p , $$n)
//@ rewrite slice :: from_raw_parts_mut ($$p . cast :: < u8 > () , $$n) => vx_from_raw_parts_mut ($$p , $$n)
//@ rewrite slice :: from_raw_parts_mut ($$p . cast () , $$n) => vx_from_raw_parts_mut ($$p , $$n)
//@ rewrite ptr :: copy_nonoverlapping ($$s . as_ptr () , $$d . as_mut_ptr () , $$n) => vx_copy_nonoverlapping ($$s . as_bytes () , $$d , $$n)
//@ rewrite . copy_from_slice ($$s) => . vx_copy_from_slice ($$s)
//@ verus
#[allow(non_camel_case_types)]
type c_int = i32;
// ---- trusted: the error, its text, the thread's slot, the caller's memory ----------
/// Box<dyn Error>
#[verifier::external_body]
struct VxError { _p: u8 }
impl VxError {
    /// what it displays as
    uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn into(self) -> (r: VxError) ensures r == self { unimplemented!() }
}
/// what the C caller passes: a null pointer, or the address of as many bytes as this holds
#[verifier::external_body]
struct VxBuffer { _p: u8 }
impl VxBuffer {
    uninterp spec fn null(&self) -> bool;
    uninterp spec fn mem(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
/// slice::from_raw_parts_mut: it may cover nothing but memory that is there
#[verifier::external_body]
fn vx_from_raw_parts_mut(p: &mut VxBuffer, n: usize) -> (r: &mut [u8])
    requires !old(p).null(), n <= old(p).mem().len()
    ensures
        r@ == old(p).mem().take(n as int),
        final(p).null() == old(p).null(),
        final(p).mem() == final(r)@ + old(p).mem().skip(n as int),
        final(r)@.len() == n,
{ unimplemented!() }
/// ptr::copy_nonoverlapping from the start of one slice to the start of another
#[verifier::external_body]
fn vx_copy_nonoverlapping(s: &[u8], d: &mut [u8], n: usize)
    requires n <= s@.len(), n <= old(d)@.len()
    ensures final(d)@ == s@.take(n as int) + old(d)@.skip(n as int)
{ unimplemented!() }

// ---- the property -----------------------------------------------------------------
spec fn message(e: Option<VxError>) -> Seq<u8> { sbytes(e->0.text()) }
//@ source remote-ffi/src/lib.rs
//@ fn set_last_error
//@ rewrite < E : Into < Box < dyn Error >> + 'static > (err : E) => (err : VxError , vx_last : & mut Option < VxError >)
    ensures *final(vx_last) == Some(err)
//@ fn take_last_error
//@ rewrite take_last_error () => take_last_error (vx_last : & mut Option < VxError >)
    ensures result == *old(vx_last), *final(vx_last) is None
//@ fn ced_last_error_length
//@ rewrite ced_last_error_length () => ced_last_error_length (vx_last : & mut Option < VxError >)
    requires
        // a length that C can say
        *old(vx_last) is Some ==> message(*old(vx_last)).len() <= i32::MAX,
    ensures
        *final(vx_last) == *old(vx_last),
        result == (if *old(vx_last) is Some { message(*old(vx_last)).len() as int } else { -1 }),
//@ fn ced_last_error_message
    requires
        // the caller's word: that many bytes are there
        !old(buffer).null() ==> length <= old(buffer).mem().len(),
    ensures
        final(buffer).null() == old(buffer).null(),
        final(buffer).mem().len() == old(buffer).mem().len(),
        // the answer
        result == (if old(buffer).null() { -1 }
            else if *old(vx_last) is None { 0 }
            else if message(*old(vx_last)).len() < length { message(*old(vx_last)).len() as int }
            else { -2 }),
        // the bytes: the message and a NUL, or nothing
        final(buffer).mem() == (if !old(buffer).null() && *old(vx_last) is Some && message(*old(vx_last)).len() < length {
                message(*old(vx_last)) + seq![0u8] + old(buffer).mem().skip(message(*old(vx_last)).len() as int + 1)
            } else { old(buffer).mem() }),
        // the pending message
        *final(vx_last) == (if old(buffer).null() { *old(vx_last) } else { None }),
