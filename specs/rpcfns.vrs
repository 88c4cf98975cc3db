//@ include common.vrs
//@ include json.vrs
//@ include fmt.vrs
//@ source remote/src/jsonrpc.rs
//@ macro_rules response
//@ rewrite Into < => VxInto <
//@ rewrite . into () => . vx_into ()
//@ rewrite . clone () => . vx_clone ()
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite . to_string () => . vx_to_string ()
//@ rewrite . parse () => . vx_parse ()
//@ rewrite . parse :: < Request > () => . vx_parse ()
//@ rewrite serde_json :: => 
//@ rewrite Self :: Err => JsonCodingError
//@ rewrite Value :: Null => Value :: vx_null ()
//@ rewrite fmt :: Error => VxFmtError :: vx_new ()
//@ verus
// ---- trusted: conversions ------------------------------------------------------
trait VxInto<T>: Sized {
    spec fn vx_into_spec(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.vx_into_spec();
}
impl<T> VxInto<Option<T>> for T {
    spec fn vx_into_spec(self) -> Option<T> { Some(self) }
    fn vx_into(self) -> (r: Option<T>) { Some(self) }
}
impl<T> VxInto<Option<T>> for Option<T> {
    spec fn vx_into_spec(self) -> Option<T> { self }
    fn vx_into(self) -> (r: Option<T>) { self }
}
impl VxInto<String> for String {
    spec fn vx_into_spec(self) -> String { self }
    fn vx_into(self) -> (r: String) { self }
}
/// the string with these characters
uninterp spec fn string_of(s: &str) -> String;
#[verifier::external_body]
broadcast proof fn axiom_string_of(s: &str)
    ensures #![trigger string_of(s)] string_of(s)@ == s@
{ unimplemented!() }
impl<'a> VxInto<String> for &'a str {
    spec fn vx_into_spec(self) -> String { string_of(self) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { unimplemented!() }
}
impl VxFmtError {
    #[verifier::external_body]
    fn vx_new() -> VxFmtError { unimplemented!() }
}
impl VxShow for JsonCodingError {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
// ---- trusted: serde_json to and from text ---------------------------------------
/// what parsing a text gives
uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
/// the JSON text of a value that can be encoded
uninterp spec fn json_text<T>(t: T) -> Option<Seq<char>>;
#[verifier::external_body]
fn from_str<T: DeserializeOwned>(s: &str) -> (r: Result<T, JsonCodingError>)
    ensures match r { Ok(t) => parsed::<T>(s@) == Some(t), Err(_) => parsed::<T>(s@) is None }
{ unimplemented!() }
trait VxJsonText { fn vx_text_of(&self) -> (r: Result<String, JsonCodingError>); }
#[verifier::external_body]
fn to_string<T: Serialize>(t: &T) -> (r: Result<String, JsonCodingError>)
    ensures match r { Ok(s) => json_text::<T>(*t) == Some(s@), Err(_) => json_text::<T>(*t) is None }
{ unimplemented!() }
/// references are encoded as what they refer to
#[verifier::external_body]
broadcast proof fn axiom_text_ref<T>(t: &T)
    ensures #![trigger json_text::<&T>(t)] json_text::<&T>(t) == json_text::<T>(*t)
{ unimplemented!() }
#[verifier::external_body]
broadcast proof fn axiom_unit()
    ensures #![trigger encoded::<()>(())] encoded::<()>(()) == Some(null_value())
{ unimplemented!() }
#[verifier::external_body]
broadcast proof fn axiom_str_encoded(s: &str)
    ensures #![trigger encoded::<&str>(s)] encoded::<&str>(s) is Some
{ unimplemented!() }
/// null is no value, anything else is a value if it decodes
#[verifier::external_body]
broadcast proof fn axiom_opt<T>(v: Value)
    ensures #![trigger decoded::<Option<T>>(v)]
        decoded::<Option<T>>(v) == if v == null_value() { Some(None) } else { match decoded::<T>(v) { Some(t) => Some(Some(t)), None => None } }
{ unimplemented!() }
impl Value {
    #[verifier::external_body]
    fn vx_null() -> (r: Value) ensures r == null_value() { unimplemented!() }
}
/// values of T are read back as they were written, and none is written as null
spec fn faithful<T>() -> bool {
    forall|t: T| #[trigger] encoded(t) is Some ==> decoded::<T>(encoded(t)->0) == Some(t) && encoded(t)->0 != null_value()
}
//@ struct Id
//@ struct Request
//@ struct Notification
//@ struct Error
//@ struct Response
//@ struct ClientEvent
//@ verus
spec fn is_2_0(s: String) -> bool { s@ == "2.0"@ }
/// optional content as it is stored
spec fn stored<T>(p: Option<T>) -> Option<Option<Value>> {
    match p {
        None => Some(None),
        Some(t) => match encoded(t) { Some(v) => Some(Some(v)), None => None },
    }
}
/// optional content as it is read back
spec fn read<T>(p: Option<Value>) -> Option<Option<T>> {
    match p { None => Some(None), Some(v) => decoded::<Option<T>>(v) }
}
proof fn lemma_read_back<T>(p: Option<T>)
    requires faithful::<T>(), stored(p) is Some
    ensures read::<T>(stored(p)->0) == Some(p)
{
    broadcast use axiom_opt;
}
//@ fn Request::new
    ensures match stored(params.vx_into_spec()) {
        None => result is Err,
        Some(p) => result matches Ok(r) && is_2_0(r.jsonrpc) && r.id == id && r.method == method.vx_into_spec() && r.params == p,
    }
//@ fn Request::params
    ensures match read::<T>(self.params) { Some(p) => result == Ok::<Option<T>, JsonCodingError>(p), None => result is Err }
//@ fn FromStr@Request::from_str
    ensures match parsed::<Request>(s@) { Some(r) => result == Ok::<Request, JsonCodingError>(r), None => result is Err }
//@ fn Display@Request::fmt
    ensures result is Ok ==> json_text(*self) is Some && final(f)@ == old(f)@ + json_text(*self)->0
//@ entry
    broadcast use axiom_text_ref;
//@ fn Notification::new
    ensures match stored(params.vx_into_spec()) {
        None => result is Err,
        Some(p) => result matches Ok(r) && is_2_0(r.jsonrpc) && r.method == method.vx_into_spec() && r.params == p,
    }
//@ fn Notification::params
    ensures match read::<T>(self.params) { Some(p) => result == Ok::<Option<T>, JsonCodingError>(p), None => result is Err }
//@ fn FromStr@Notification::from_str
    ensures match parsed::<Notification>(s@) { Some(r) => result == Ok::<Notification, JsonCodingError>(r), None => result is Err }
//@ fn Display@Notification::fmt
    ensures result is Ok ==> json_text(*self) is Some && final(f)@ == old(f)@ + json_text(*self)->0
//@ entry
    broadcast use axiom_text_ref;
//@ fn Error::new
    ensures match stored(data.vx_into_spec()) {
        None => result is Err,
        Some(p) => result matches Ok(r) && r.code == code && r.message == message && r.data == p,
    }
//@ fn Error::data
    ensures match read::<T>(self.data) { Some(p) => result == Ok::<Option<T>, JsonCodingError>(p), None => result is Err }
//@ verus
/// an error with that code about that text
spec fn about(e: Error, code: int, s: &str) -> bool { e.code == code && e.data == encoded(s) }
//@ fn Error::invalid_request
    ensures about(result, -32600, source)
//@ entry
    broadcast use axiom_str_encoded;
//@ fn Error::method_not_found
    ensures about(result, -32601, method)
//@ entry
    broadcast use axiom_str_encoded;
//@ fn Error::invalid_params
    ensures about(result, -32602, reason)
//@ entry
    broadcast use axiom_str_encoded;
//@ fn Error::internal_error
    ensures about(result, -32603, details)
//@ entry
    broadcast use axiom_str_encoded;
//@ fn Display@Error::fmt
    ensures result is Ok ==> json_text(*self) is Some && final(f)@ == old(f)@ + json_text(*self)->0
//@ entry
    broadcast use axiom_text_ref;
//@ verus
/// the response holds that outcome and nothing else
spec fn holds<T>(r: Response, o: Result<T, Error>) -> bool {
    match o {
        Ok(t) => encoded(t) is Some && r.result == Some(encoded(t)->0) && r.error is None,
        Err(e) => r.result is None && r.error == Some(e),
    }
}
spec fn failed(r: Response, code: int) -> bool { r.result is None && r.error is Some && r.error->0.code == code }
//@ fn Response::set_result ret vx_r
    ensures
        final(self).id == old(self).id, final(self).jsonrpc == old(self).jsonrpc,
        vx_r is Ok ==> holds(*final(self), result),
        vx_r is Err ==> result is Ok && encoded(result->Ok_0) is None && *final(self) == *old(self),
//@ fn Response::new ret vx_r
    ensures match vx_r {
        Ok(r) => is_2_0(r.jsonrpc) && r.id == id && holds(r, result),
        Err(_) => result is Ok && encoded(result->Ok_0) is None,
    }
//@ fn Response::result
    ensures match (self.result, self.error) {
        (Some(v), _) => match decoded::<T>(v) { Some(t) => result == Ok::<Result<T, Error>, JsonCodingError>(Ok(t)), None => result is Err },
        (None, Some(e)) => result == Ok::<Result<T, Error>, JsonCodingError>(Err(e)),
        (None, None) => match decoded::<T>(null_value()) { Some(t) => result == Ok::<Result<T, Error>, JsonCodingError>(Ok(t)), None => result is Err },
    }
//@ fn Response::success ret vx_r
    ensures match vx_r {
        Ok(r) => is_2_0(r.jsonrpc) && r.id == id && r.error is None && stored(result) == Some(r.result),
        Err(_) => stored(result) is None,
    }
//@ fn Response::invalid_request
    ensures is_2_0(result.jsonrpc), result.id == id, failed(result, -32600), about(result.error->0, -32600, source)
//@ fn Response::method_not_found
    ensures is_2_0(result.jsonrpc), result.id == id, failed(result, -32601), about(result.error->0, -32601, method)
//@ fn Response::invalid_params
    ensures is_2_0(result.jsonrpc), result.id == id, failed(result, -32602), about(result.error->0, -32602, reason)
//@ fn FromStr@Response::from_str
    ensures match parsed::<Response>(s@) { Some(r) => result == Ok::<Response, JsonCodingError>(r), None => result is Err }
//@ fn Display@Response::fmt
    ensures result is Ok ==> json_text(*self) is Some && final(f)@ == old(f)@ + json_text(*self)->0
//@ entry
    broadcast use axiom_text_ref;
//@ fn ClientEvent::is_notification
    ensures result == (self is Notification)
//@ fn ClientEvent::is_response
    ensures result == (self is Response)
//@ fn FromStr@ClientEvent::from_str
    ensures match parsed::<ClientEvent>(s@) { Some(r) => result == Ok::<ClientEvent, JsonCodingError>(r), None => result is Err }
//@ fn Display@ClientEvent::fmt
    ensures match self {
        ClientEvent::Notification(n) => result is Ok ==> json_text(*n) is Some && final(f)@ == old(f)@ + json_text(*n)->0,
        ClientEvent::Response(r) => result is Ok ==> json_text(*r) is Some && final(f)@ == old(f)@ + json_text(*r)->0,
    }
//@ verus
/// C10: what a message is built from is what is read back from it
fn vx_c10_params<T: Serialize + DeserializeOwned>(id: Id, method: String, p: Option<T>)
    requires faithful::<T>()
{
    let ghost p0 = p;
    let ghost m0 = method;
    let ghost i0 = id;
    if let Ok(r) = Request::new::<T, String, Option<T>>(id, method, p) {
        proof { lemma_read_back(p0); }
        assert(r.id == i0 && r.method == m0);
        let back = r.params::<T>();
        assert(back == Ok::<Option<T>, JsonCodingError>(p0));
    }
}
fn vx_c10_notification<T: Serialize + DeserializeOwned>(method: String, p: Option<T>)
    requires faithful::<T>()
{
    let ghost p0 = p;
    let ghost m0 = method;
    if let Ok(r) = Notification::new::<T, String, Option<T>>(method, p) {
        proof { lemma_read_back(p0); }
        assert(r.method == m0);
        let back = r.params::<T>();
        assert(back == Ok::<Option<T>, JsonCodingError>(p0));
    }
}
fn vx_c10_error<T: Serialize + DeserializeOwned>(code: i32, message: String, p: Option<T>)
    requires faithful::<T>()
{
    let ghost p0 = p;
    if let Ok(r) = Error::new::<T, Option<T>>(code, message, p) {
        proof { lemma_read_back(p0); }
        assert(r.code == code);
        let back = r.data::<T>();
        assert(back == Ok::<Option<T>, JsonCodingError>(p0));
    }
}
fn vx_c10_result<T: Serialize + DeserializeOwned>(id: Id, o: Result<T, Error>)
    requires faithful::<T>()
{
    let ghost o0 = o;
    if let Ok(r) = Response::new(id, o) {
        assert(!(r.result is Some && r.error is Some));
        let back = r.result::<T>();
        assert(back == Ok::<Result<T, Error>, JsonCodingError>(o0));
    }
}
/// setting a result clears the error and the other way round
fn vx_c10_set<T: Serialize + DeserializeOwned>(r: &mut Response, o: Result<T, Error>)
    requires faithful::<T>()
{
    let ghost o0 = o;
    if let Ok(_) = r.set_result(o) {
        assert(!(r.result is Some && r.error is Some));
        let back = r.result::<T>();
        assert(back == Ok::<Result<T, Error>, JsonCodingError>(o0));
    }
}
