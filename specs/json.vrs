//@ verus
//once json
// ---- trusted: serde_json and the serde derives -----------------------------
/// serde_json::Value
#[verifier::external_body]
#[derive(Debug)]
struct Value { _p: u8 }
/// serde_json::Error
#[verifier::external_body]
#[derive(Debug)]
struct JsonCodingError { _p: u8 }
trait Serialize {}
impl<T: ?Sized> Serialize for T {}
trait DeserializeOwned {}
impl<T> DeserializeOwned for T {}
/// what deserializing a value gives: a function of the value
uninterp spec fn decoded<T>(v: Value) -> Option<T>;
/// what serializing gives: a function of what is serialized
uninterp spec fn encoded<T>(t: T) -> Option<Value>;
/// the JSON null
uninterp spec fn null_value() -> Value;

#[verifier::external_body]
fn from_value<T: DeserializeOwned>(v: Value) -> (r: Result<T, JsonCodingError>)
    ensures match r { Ok(t) => decoded::<T>(v) == Some(t), Err(_) => decoded::<T>(v) is None }
{ unimplemented!() }

#[verifier::external_body]
fn to_value<T: Serialize>(t: T) -> (r: Result<Value, JsonCodingError>)
    ensures match r { Ok(v) => encoded(t) == Some(v), Err(_) => encoded(t) is None }
{ unimplemented!() }

//@ verus
//once clones
// ---- trusted: Clone and ToOwned give equal values --------------------------
trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
trait VxToOwned {
    spec fn vx_text(&self) -> Seq<char>;
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_text();
}
impl VxToOwned for str {
    spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
/// strings with the same characters are the same string
#[verifier::external_body]
broadcast proof fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{ unimplemented!() }
#[verifier::external_body]
broadcast proof fn axiom_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{ unimplemented!() }
//@ verus
