//@ unit session
//@ include common.vrs
//@ include fmt.vrs
//@ rewrite . parse => . vx_parse
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite Self :: Err => VxNever
//@ rewrite RE_ADDR . captures ($$s) => vx_re_addr ($$s)
//@ rewrite . map (| $x | $x . as_str ()) => . vx_as_str ()
//@ rewrite . unwrap_or ($$d) => . vx_unwrap_or ($$d)
//@ rewrite env :: temp_dir () => vx_temp_dir ()
//@ rewrite env :: var ($$k) => vx_env_var ($$k)
//@ rewrite $x . into () => PathBuf :: vx_from ($x)
//@ rewrite PathBuf :: from ($$x) => PathBuf :: vx_from ($$x)
//@ verus
// ---- trusted: paths (of UTF-8 text), environment, socket addresses -------------------
#[derive(Debug)]
#[verifier::external_body]
struct VxNever { _p: u8 }
trait VxOwned { fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_o(); spec fn vx_o(&self) -> Seq<char>; }
impl VxOwned for str {
    spec fn vx_o(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
/// PathBuf::push
spec fn joined(p: Seq<char>, n: Seq<char>) -> Seq<char> {
    if n.len() > 0 && n[0] == '/' { n }
    else if p.len() == 0 || p.last() == '/' { p + n }
    else { p + seq!['/'] + n }
}
/// the name of a file: not empty, without slash, not . or ..
spec fn plain(n: Seq<char>) -> bool {
    n.len() > 0 && !n.contains('/') && n != seq!['.'] && n != seq!['.', '.']
}
/// Path::file_name
uninterp spec fn file_name(p: Seq<char>) -> Option<Seq<char>>;
broadcast axiom fn axiom_file_name(p: Seq<char>, n: Seq<char>)
    requires plain(n), p.len() == 0 || p.last() == '/'
    ensures #[trigger] file_name(p + n) == Some(n);
trait VxPathText { spec fn pt(&self) -> Seq<char>; }
impl VxPathText for String { spec fn pt(&self) -> Seq<char> { self@ } }
impl<'a> VxPathText for &'a str { spec fn pt(&self) -> Seq<char> { self@ } }
impl<'a> VxPathText for &'a String { spec fn pt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
struct PathBuf { _p: u8 }
impl vstd::view::View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
struct VxOsStr { _p: u8 }
impl vstd::view::View for VxOsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxOsStr {
    #[verifier::external_body]
    fn to_string_lossy(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    fn vx_from<T: VxPathText>(s: T) -> (r: PathBuf) ensures r@ == s.pt() { unimplemented!() }
    #[verifier::external_body]
    fn push<T: VxPathText>(&mut self, n: T) ensures final(self)@ == joined(old(self)@, n.pt()) { unimplemented!() }
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn display(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn to_string_lossy(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn file_name(&self) -> (r: Option<&VxOsStr>)
        ensures match r { Some(n) => file_name(self@) == Some(n@), None => file_name(self@) is None }
    { unimplemented!() }
}
/// the directory for temporary files (an absolute path)
uninterp spec fn temp_dir() -> Seq<char>;
axiom fn axiom_temp_dir()
    ensures temp_dir().len() > 0, temp_dir()[0] == '/';
uninterp spec fn env_var(k: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_temp_dir() -> (r: PathBuf) ensures r@ == temp_dir() { unimplemented!() }
/// the variable is set (to text)
#[verifier::external_body]
fn vx_env_var(k: &str) -> (r: Result<String, VxNever>) ensures r is Ok, r->Ok_0@ == env_var(k@) { unimplemented!() }

#[verifier::external_body]
struct SocketAddr { _p: u8 }
/// SocketAddr::from_str
uninterp spec fn addr_of(s: Seq<char>) -> Option<SocketAddr>;
spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
spec fn dig(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn dotted(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) -> bool {
    dig(a) && dig(b) && dig(c) && dig(d) && s == a + seq!['.'] + b + seq!['.'] + c + seq!['.'] + d
}
spec fn ipv4(s: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| dotted(s, a, b, c, d) }
spec fn host_port(s: Seq<char>, h: Seq<char>, p: Seq<char>) -> bool { s == h + seq![':'] + p && ipv4(h) && dig(p) }
/// the text of an IPv4 socket address: four numbers, a colon, a number
spec fn v4_text(s: Seq<char>) -> bool { exists|h: Seq<char>, p: Seq<char>| host_port(s, h, p) }
/// an address that is no IPv4 one is an IPv6 one, in brackets
axiom fn axiom_addr(s: Seq<char>)
    ensures addr_of(s) is Some ==> v4_text(s) || (s.len() > 0 && s[0] == '[');
impl VxShow for SocketAddr {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
/// a displayed address is read back
axiom fn axiom_addr_shown(a: SocketAddr)
    ensures addr_of(a.vx_shown()) == Some(a);
/// an address read from IPv4 text is displayed as such
axiom fn axiom_addr_v4(s: Seq<char>)
    ensures addr_of(s) is Some && v4_text(s) ==> v4_text(addr_of(s)->0.vx_shown());

// ---- trusted: the regular expression -----------------------------------------------
/// \d and \w, of Unicode
uninterp spec fn re_d(c: char) -> bool;
uninterp spec fn re_w(c: char) -> bool;
axiom fn axiom_re(c: char)
    ensures is_digit(c) ==> re_d(c), re_d(c) || re_w(c) ==> c != ':' && c != '@' && c != '.' && c != '[' && c != '/';
spec fn all_d(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> re_d(#[trigger] s[i]) }
spec fn all_w(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> re_w(#[trigger] s[i]) }
spec fn re_dotted(s: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) -> bool {
    all_d(a) && all_d(b) && all_d(c) && all_d(d) && s == a + seq!['.'] + b + seq!['.'] + c + seq!['.'] + d
}
/// (\w+|\d+\.\d+\.\d+\.\d+)
spec fn re_host(s: Seq<char>) -> bool { all_w(s) || exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| re_dotted(s, a, b, c, d) }
/// ^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$
spec fn re_addr(s: Seq<char>, h: Seq<char>, p: Seq<char>) -> bool {
    s == seq!['@'] + h + seq![':'] + p && (h.len() == 0 || re_host(h)) && all_d(p)
}
#[verifier::external_body]
struct VxCaptures<'a> { _p: &'a str }
#[verifier::external_body]
struct VxMatch<'a> { _p: &'a str }
impl<'a> VxMatch<'a> {
    uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &'a str) ensures r@ == self.text() { unimplemented!() }
}
impl<'a> VxCaptures<'a> {
    uninterp spec fn host(&self) -> Seq<char>;
    uninterp spec fn port(&self) -> Seq<char>;
    #[verifier::external_body]
    fn name(&self, k: &str) -> (r: Option<VxMatch<'a>>)
        ensures
            k@ == "address"@ ==> r is Some == (self.host().len() > 0) && (r is Some ==> r->0.text() == self.host()),
            k@ == "port"@ ==> r is Some && r->0.text() == self.port(),
            k@ != "address"@ && k@ != "port"@ ==> r is None,
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_re_addr<'a>(s: &'a str) -> (r: Option<VxCaptures<'a>>)
    ensures
        r is Some ==> re_addr(s@, r->0.host(), r->0.port()),
        r is None ==> forall|h: Seq<char>, p: Seq<char>| !re_addr(s@, h, p),
{ unimplemented!() }
trait VxOptMatch<'a> { spec fn vx_om(&self) -> Option<Seq<char>>; fn vx_as_str(self) -> (r: Option<&'a str>) ensures r is Some == self.vx_om() is Some, r is Some ==> Some(r->0@) == self.vx_om(); }
impl<'a> VxOptMatch<'a> for Option<VxMatch<'a>> {
    spec fn vx_om(&self) -> Option<Seq<char>> { match *self { Some(m) => Some(m.text()), None => None } }
    fn vx_as_str(self) -> (r: Option<&'a str>) { match self { Some(m) => Some(m.as_str()), None => None } }
}
trait VxUnwrapOr<T> { spec fn vx_opt(&self) -> Option<T>; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.vx_opt() { Some(x) => x, None => d }); }
impl<T> VxUnwrapOr<T> for Option<T> {
    spec fn vx_opt(&self) -> Option<T> { *self }
    fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } }
}
/// FromStr
trait VxFromStr: Sized {
    type E;
    spec fn vx_read(s: Seq<char>, r: Result<Self, Self::E>) -> bool;
    fn vx_from_str(s: &str) -> (r: Result<Self, Self::E>) ensures Self::vx_read(s@, r);
}
trait VxParse {
    spec fn vx_p(&self) -> Seq<char>;
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) ensures T::vx_read(self.vx_p(), r);
}
impl VxParse for str {
    spec fn vx_p(&self) -> Seq<char> { self@ }
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { T::vx_from_str(self) }
}
impl VxParse for String {
    spec fn vx_p(&self) -> Seq<char> { self@ }
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { T::vx_from_str(self.as_str()) }
}
impl VxFromStr for SocketAddr {
    type E = VxNever;
    spec fn vx_read(s: Seq<char>, r: Result<SocketAddr, VxNever>) -> bool {
        match addr_of(s) { Some(a) => r == Ok::<SocketAddr, VxNever>(a), None => r is Err }
    }
    #[verifier::external_body]
    fn vx_from_str(s: &str) -> (r: Result<SocketAddr, VxNever>) { unimplemented!() }
}

// ---- the property -------------------------------------------------------------------
/// the address that a session name of the form @host:port or @:port stands for
spec fn named_addr(s: Seq<char>) -> Option<SocketAddr> {
    if s.len() == 0 || s[0] != '@' { None } else {
        let t = s.skip(1);
        let full = if t.len() > 0 && t[0] == ':' { "127.0.0.1"@ + t } else { t };
        if v4_text(full) { addr_of(full) } else { None }
    }
}
spec fn mode_is(m: ConnectionMode, s: Seq<char>) -> bool {
    match named_addr(s) {
        Some(a) => m == ConnectionMode::Tcp(a),
        None => m matches ConnectionMode::Socket(p) && p@ == s,
    }
}
/// the user's runtime directory
spec fn root() -> Seq<char> { joined(temp_dir(), "ced-"@ + env_var("USER"@)) }
/// the session a name denotes
spec fn denotes(name: Seq<char>, m: ConnectionMode) -> bool {
    match named_addr(name) {
        Some(a) => m == ConnectionMode::Tcp(a),
        None => m matches ConnectionMode::Socket(p) && p@ == joined(root(), name),
    }
}
spec fn shown_mode(m: ConnectionMode) -> Seq<char> {
    match m {
        ConnectionMode::Socket(p) => match file_name(p@) { Some(n) => n, None => p@ },
        ConnectionMode::Tcp(a) => seq!['@'] + a.vx_shown(),
    }
}
proof fn lemma_no_colon(s: Seq<char>)
    requires re_host(s)
    ensures s.len() > 0, s[0] != '[', !s.contains(':')
{
    if all_w(s) {
        axiom_re(s[0]);
        assert forall|i: int| 0 <= i < s.len() implies s[i] != ':' by { axiom_re(s[i]); }
    } else {
        let (a, b, c, d) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| re_dotted(s, a, b, c, d);
        assert(s[0] == a[0]);
        axiom_re(a[0]);
        assert forall|i: int| 0 <= i < s.len() implies s[i] != ':' by {
            let n1 = a.len() as int; let n2 = n1 + 1 + b.len(); let n3 = n2 + 1 + c.len();
            if i < n1 { assert(s[i] == a[i]); axiom_re(a[i]); }
            else if i == n1 {}
            else if i < n2 { assert(s[i] == b[i - n1 - 1]); axiom_re(s[i]); }
            else if i == n2 {}
            else if i < n3 { assert(s[i] == c[i - n2 - 1]); axiom_re(s[i]); }
            else if i == n3 {}
            else { assert(s[i] == d[i - n3 - 1]); axiom_re(s[i]); }
        }
    }
}
proof fn lemma_dig(s: Seq<char>)
    requires dig(s)
    ensures all_d(s)
{
    assert forall|i: int| 0 <= i < s.len() implies re_d(#[trigger] s[i]) by { axiom_re(s[i]); assert(is_digit(s[i])); }
}
proof fn lemma_ipv4(s: Seq<char>)
    requires ipv4(s)
    ensures re_host(s), s.len() > 0, s[0] != ':', is_digit(s[0])
{
    let (a, b, c, d) = choose|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| dotted(s, a, b, c, d);
    lemma_dig(a); lemma_dig(b); lemma_dig(c); lemma_dig(d);
    assert(re_dotted(s, a, b, c, d));
    assert(s[0] == a[0]);
}
proof fn lemma_home()
    ensures ipv4("127.0.0.1"@), "127.0.0.1"@.len() == 9
{
    reveal_strlit("127.0.0.1");
    let s = "127.0.0.1"@;
    let a = seq!['1', '2', '7']; let z = seq!['0']; let o = seq!['1'];
    assert(s =~= a + seq!['.'] + z + seq!['.'] + z + seq!['.'] + o);
    assert(dotted(s, a, z, z, o));
}
/// what the expression lets through is what the name says
proof fn lemma_matched(s: Seq<char>, h: Seq<char>, p: Seq<char>)
    requires re_addr(s, h, p)
    ensures named_addr(s) == addr_of((if h.len() == 0 { "127.0.0.1"@ } else { h }) + seq![':'] + p)
{
    let t = s.skip(1);
    lemma_home();
    assert(t =~= h + seq![':'] + p);
    let full = if t.len() > 0 && t[0] == ':' { "127.0.0.1"@ + t } else { t };
    if h.len() == 0 {
        assert(t[0] == ':');
        assert(full =~= "127.0.0.1"@ + seq![':'] + p);
        assert(full[0] == "127.0.0.1"@[0]);
        lemma_ipv4("127.0.0.1"@);
    } else {
        lemma_no_colon(h);
        assert(t[0] == h[0] && h.contains(h[0]));
        assert(full[0] == h[0]);
    }
    axiom_addr(full);
}
/// what it does not is no address
proof fn lemma_unmatched(s: Seq<char>)
    requires forall|h: Seq<char>, p: Seq<char>| !re_addr(s, h, p)
    ensures named_addr(s) is None
{
    if s.len() > 0 && s[0] == '@' {
        let t = s.skip(1);
        lemma_home();
        let full = if t.len() > 0 && t[0] == ':' { "127.0.0.1"@ + t } else { t };
        if v4_text(full) {
            let (h, p) = choose|h: Seq<char>, p: Seq<char>| host_port(full, h, p);
            lemma_ipv4(h);
            lemma_dig(p);
            if t.len() > 0 && t[0] == ':' {
                // the colon of the text is the one after the default host
                let d = "127.0.0.1"@;
                lemma_ipv4(d);
                lemma_no_colon(d);
                lemma_no_colon(h);
                assert(full[9] == ':');
                assert(full[h.len() as int] == ':');
                if h.len() < 9 { assert(full[h.len() as int] == d[h.len() as int]); assert(d.contains(d[h.len() as int])); }
                if h.len() > 9 { assert(h[9] == full[9]); assert(h.contains(h[9])); }
                assert(t =~= full.skip(9));
                assert(t =~= seq![':'] + p);
                assert(s =~= seq!['@'] + t);
                assert(s =~= seq!['@'] + Seq::<char>::empty() + seq![':'] + p);
                assert(re_addr(s, Seq::empty(), p));
            } else {
                assert(s =~= seq!['@'] + t);
                assert(s =~= seq!['@'] + h + seq![':'] + p);
                assert(re_addr(s, h, p));
            }
        }
    }
}
proof fn lemma_absolute(s: Seq<char>)
    requires s.len() > 0, s[0] == '/'
    ensures named_addr(s) is None
{}
/// a name without address, shown, is the name again
proof fn lemma_shown_back(name: Seq<char>, m: ConnectionMode)
    requires denotes(name, m),
    ensures
        plain(name) || named_addr(name) is Some ==> denotes(shown_mode(m), m),
        // directly in the runtime directory
        named_addr(name) is None && plain(name) && root().last() != '/' ==> (m matches ConnectionMode::Socket(p) && p@ == root() + seq!['/'] + name),
{
    axiom_temp_dir();
    match named_addr(name) {
        Some(a) => {
            let t = name.skip(1);
            let full = if t.len() > 0 && t[0] == ':' { "127.0.0.1"@ + t } else { t };
            axiom_addr_v4(full);
            axiom_addr_shown(a);
            let v = a.vx_shown();
            let (h, p) = choose|h: Seq<char>, p: Seq<char>| host_port(v, h, p);
            lemma_ipv4(h);
            assert(v[0] == h[0]);
            let w = seq!['@'] + v;
            assert(w.skip(1) =~= v);
        }
        None => {
            if plain(name) {
                assert(name[0] != '/') by { assert(name.contains(name[0])); }
                let r = root();
                if r.len() == 0 || r.last() == '/' {
                    axiom_file_name(r, name);
                } else {
                    assert((r + seq!['/']).last() == '/');
                    axiom_file_name(r + seq!['/'], name);
                }
            }
        }
    }
}
//@ source remote/src/session.rs
//@ regex RE_ADDR ^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$
//@ const USER_ENV_VAR
//@ enum ConnectionMode
//@ struct Session
//@ verus
impl VxFromStr for ConnectionMode {
    type E = VxNever;
    spec fn vx_read(s: Seq<char>, r: Result<ConnectionMode, VxNever>) -> bool { r is Ok && mode_is(r->Ok_0, s) }
    fn vx_from_str(s: &str) -> (r: Result<ConnectionMode, VxNever>) { ConnectionMode::from_str(s) }
}
impl VxShow for ConnectionMode {
    spec fn vx_shown(&self) -> Seq<char> { shown_mode(*self) }
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { let _ = self.fmt(f); }
}
//@ fn FromStr@ConnectionMode::from_str
    ensures result is Ok, mode_is(result->Ok_0, s@)
//@ entry
    proof {
        reveal_strlit("address"); reveal_strlit("port"); assert("address"@.len() != "port"@.len());
        reveal_strlit(":"); assert(":"@ =~= seq![':']);
        assert(forall|a: Seq<char>| #![auto] Seq::<char>::empty() + a =~= a);
        assert forall|h: Seq<char>, p: Seq<char>| #[trigger] re_addr(s@, h, p) implies
            named_addr(s@) == addr_of((if h.len() == 0 { "127.0.0.1"@ } else { h }) + seq![':'] + p) by { lemma_matched(s@, h, p); }
        if forall|h: Seq<char>, p: Seq<char>| !re_addr(s@, h, p) { lemma_unmatched(s@); }
    }
//@ fn ConnectionMode::is_tcp
    ensures result == (named_addr(s@) is Some)
//@ fn Display@ConnectionMode::fmt
    ensures result is Ok, final(f)@ == old(f)@ + shown_mode(*self)
//@ entry
    proof {
        reveal_strlit("@"); assert("@"@ =~= seq!['@']);
        assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #![trigger (a + b) + c] (a + b) + c =~= a + (b + c));
    }
//@ fn Session::build_root
    ensures result@ == root(), root().len() > 0, root()[0] == '/'
//@ entry
    proof { axiom_temp_dir(); }
//@ fn Session::from_name
    ensures
        denotes(name@, result.mode),
        // displayed and read back
        plain(name@) || named_addr(name@) is Some ==> denotes(shown_mode(result.mode), result.mode),
        // directly in the runtime directory
        named_addr(name@) is None && plain(name@) && root().last() != '/' ==> (result.mode matches ConnectionMode::Socket(p) && p@ == root() + seq!['/'] + name@),
//@ exit
    proof { axiom_temp_dir(); if denotes(name@, vx_ret.mode) { lemma_shown_back(name@, vx_ret.mode); } }
//@ fn Display@Session::fmt
    ensures result is Ok, final(f)@ == old(f)@ + shown_mode(self.mode)
