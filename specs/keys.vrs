//@ unit keys
//@ include common.vrs
//@ include json.vrs
//@ include fmt.vrs
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite .. Default :: default () => .. KeyEvent :: vx_default ()
//@ rewrite KeyEvent :: default () => KeyEvent :: vx_default ()
//@ rewrite Self :: Err => ParseKeyError
//@ verus
// ---- trusted: char, String, formatting ----------------------------------------
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn lower_of(c: char) -> char { if upper(c) { ((c as u8) + 32) as u8 as char } else { c } }
pub assume_specification[char::to_ascii_lowercase](c: &char) -> (r: char)
    ensures r == lower_of(*c);
pub assume_specification[char::is_ascii_uppercase](c: &char) -> (r: bool)
    ensures r == upper(*c);

trait VxChars {
    spec fn vx_all(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.vx_all();
}
impl VxChars for str {
    spec fn vx_all(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
}
spec fn starts_at(s: Seq<char>, i: int, p: Seq<char>) -> bool {
    i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
/// s[at..].starts_with(p): at is a byte offset, which is the number of characters before it when these are ASCII
#[verifier::external_body]
fn vx_starts_at(s: &str, at: usize, p: &str) -> (r: bool)
    requires at <= s@.len(), forall|i: int| 0 <= i < at ==> (#[trigger] s@[i]) < '\u{80}'
    ensures r == starts_at(s@, at as int, p@)
{ unimplemented!() }

// ---- the notation ---------------------------------------------------------------
//@ source remote/src/keys.rs
//@ struct Key
//@ struct ParseKeyError Debug
//@ struct KeyEvent
//@ verus
spec fn key_text(k: Key) -> Seq<char> {
    match k {
        Key::Char(c) => seq![lower_of(c)],
        Key::Backspace => "bkspc"@,
        Key::Enter => "ret"@,
        Key::Escape => "esc"@,
        Key::Up => "up"@,
        Key::Down => "down"@,
        Key::Left => "left"@,
        Key::Right => "right"@,
    }
}
spec fn prefixes(e: KeyEvent) -> Seq<char> {
    (if e.ctrl { "c-"@ } else { Seq::empty() }) + (if e.alt { "a-"@ } else { Seq::empty() }) + (if e.shift { "s-"@ } else { Seq::empty() })
}
spec fn event_text(e: KeyEvent) -> Seq<char> {
    prefixes(e) + key_text(e.key)
}
spec fn key_of(s: Seq<char>) -> Option<Key> {
    if s.len() == 1 { Some(Key::Char(s[0])) }
    else if s == "bkspc"@ { Some(Key::Backspace) }
    else if s == "ret"@ { Some(Key::Enter) }
    else if s == "esc"@ { Some(Key::Escape) }
    else if s == "up"@ { Some(Key::Up) }
    else if s == "down"@ { Some(Key::Down) }
    else if s == "left"@ { Some(Key::Left) }
    else if s == "right"@ { Some(Key::Right) }
    else { None }
}
/// what is left after an optional prefix, and whether it was there
spec fn after(s: Seq<char>, p: Seq<char>) -> Seq<char> { if starts_at(s, 0, p) { s.skip(p.len() as int) } else { s } }
/// the event a notation stands for
spec fn event_of(s: Seq<char>) -> Option<KeyEvent> {
    let s1 = after(s, "c-"@);
    let s2 = after(s1, "a-"@);
    let s3 = after(s2, "s-"@);
    match key_of(s3) {
        Some(key) => Some(KeyEvent { ctrl: starts_at(s, 0, "c-"@), alt: starts_at(s1, 0, "a-"@), shift: starts_at(s2, 0, "s-"@), key }),
        None => None,
    }
}
proof fn lemma_literals()
    ensures
        "c-"@ == seq!['c', '-'], "a-"@ == seq!['a', '-'], "s-"@ == seq!['s', '-'],
        "bkspc"@ == seq!['b', 'k', 's', 'p', 'c'], "ret"@ == seq!['r', 'e', 't'], "esc"@ == seq!['e', 's', 'c'],
        "up"@ == seq!['u', 'p'], "down"@ == seq!['d', 'o', 'w', 'n'], "left"@ == seq!['l', 'e', 'f', 't'], "right"@ == seq!['r', 'i', 'g', 'h', 't'],
        ""@ == Seq::<char>::empty(),
{
    reveal_strlit("c-"); reveal_strlit("a-"); reveal_strlit("s-"); reveal_strlit("bkspc"); reveal_strlit("ret"); reveal_strlit("esc");
    reveal_strlit("up"); reveal_strlit("down"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("");
    assert("c-"@ =~= seq!['c', '-']); assert("a-"@ =~= seq!['a', '-']); assert("s-"@ =~= seq!['s', '-']);
    assert("bkspc"@ =~= seq!['b', 'k', 's', 'p', 'c']); assert("ret"@ =~= seq!['r', 'e', 't']); assert("esc"@ =~= seq!['e', 's', 'c']);
    assert("up"@ =~= seq!['u', 'p']); assert("down"@ =~= seq!['d', 'o', 'w', 'n']); assert("left"@ =~= seq!['l', 'e', 'f', 't']);
    assert("right"@ =~= seq!['r', 'i', 'g', 'h', 't']); assert(""@ =~= Seq::<char>::empty());
}
proof fn lemma_key(k: Key)
    requires k matches Key::Char(c) ==> !upper(c)
    ensures key_of(key_text(k)) == Some(k), key_text(k).len() > 0, key_text(k).len() == 1 || key_text(k)[1] != '-'
{
    lemma_literals();
    let t = key_text(k);
    let b = seq!['b', 'k', 's', 'p', 'c']; let r = seq!['r', 'e', 't']; let e = seq!['e', 's', 'c']; let u = seq!['u', 'p'];
    let d = seq!['d', 'o', 'w', 'n']; let l = seq!['l', 'e', 'f', 't']; let g = seq!['r', 'i', 'g', 'h', 't'];
    assert(b[0] == 'b' && r[0] == 'r' && e[0] == 'e' && u[0] == 'u' && d[0] == 'd' && l[0] == 'l' && g[0] == 'r');
    assert(b.len() == 5 && r.len() == 3 && e.len() == 3 && u.len() == 2 && d.len() == 4 && l.len() == 4 && g.len() == 5);
    assert(b[1] == 'k' && r[1] == 'e' && e[1] == 's' && u[1] == 'p' && d[1] == 'o' && l[1] == 'e' && g[1] == 'i');
}
proof fn lemma_at(s: Seq<char>, i: int, p: Seq<char>)
    requires 0 <= i
    ensures
        i <= s.len() ==> starts_at(s, i, p) == starts_at(s.skip(i), 0, p),
        starts_at(s, i, p) && p.len() == 2 ==> s.len() >= i + 2 && s[i] == p[0] && s[i + 1] == p[1],
{
    if i + p.len() <= s.len() {
        assert(s.skip(i).subrange(0, p.len() as int) =~= s.subrange(i, i + p.len()));
        if p.len() == 2 { assert(s.subrange(i, i + 2)[0] == s[i] && s.subrange(i, i + 2)[1] == s[i + 1]); }
    }
}
/// a prefix that was written is read back, one that was not written is not
proof fn lemma_prefix(on: bool, p: Seq<char>, rest: Seq<char>)
    requires p.len() == 2, !starts_at(rest, 0, p)
    ensures
        starts_at((if on { p } else { Seq::empty() }) + rest, 0, p) == on,
        after((if on { p } else { Seq::empty() }) + rest, p) == rest,
{
    let s = (if on { p } else { Seq::<char>::empty() }) + rest;
    if on {
        assert(s.subrange(0, 2) =~= p);
        assert(s.skip(2) =~= rest);
    } else {
        assert(s =~= rest);
    }
}
/// C11: reading the notation of an event back gives the event
proof fn lemma_roundtrip(e: KeyEvent)
    requires e.key matches Key::Char(c) ==> !upper(c)
    ensures event_of(event_text(e)) == Some(e)
{
    lemma_literals();
    lemma_key(e.key);
    let pc = "c-"@; let pa = "a-"@; let ps = "s-"@;
    let none = Seq::<char>::empty();
    let k = key_text(e.key);
    let r3 = k;
    let r2 = (if e.shift { ps } else { none }) + r3;
    let r1 = (if e.alt { pa } else { none }) + r2;
    let r0 = (if e.ctrl { pc } else { none }) + r1;
    assert(event_text(e) =~= r0);
    assert(pc[0] == 'c' && pa[0] == 'a' && ps[0] == 's' && pc[1] == '-' && pa[1] == '-' && ps[1] == '-');
    assert forall|s: Seq<char>, p: Seq<char>| #[trigger] starts_at(s, 0, p) && p.len() == 2 implies s.len() >= 2 && s[0] == p[0] && s[1] == p[1] by {
        assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
    }
    lemma_prefix(e.shift, ps, r3);
    assert(r2.len() == 1 || r2[1] != '-' || r2[0] == 's') by { if e.shift { assert(r2[0] == ps[0]); } else { assert(r2 =~= k); } }
    lemma_prefix(e.alt, pa, r2);
    assert(r1.len() == 1 || r1[1] != '-' || r1[0] == 's' || r1[0] == 'a') by { if e.alt { assert(r1[0] == pa[0]); } else { assert(r1 =~= r2); } }
    lemma_prefix(e.ctrl, pc, r1);
}
//@ fn Default@Key::default
    ensures result == Key::Char('\0')
//@ fn Display@Key::fmt
    ensures result is Ok, final(f)@ == old(f)@ + key_text(*self)
//@ fn FromStr@Key::from_str
    ensures match result { Ok(k) => key_of(s@) == Some(k), Err(_) => key_of(s@) is None }
//@ entry
    broadcast use axiom_str_ext;
    proof { lemma_literals(); }
//@ fn From<Key>@KeyEvent::from as:from_key
    ensures result == (KeyEvent { ctrl: false, alt: false, shift: false, key })
//@ verus
impl KeyEvent {
    /// what derive(Default) makes: the default of each field
    fn vx_default() -> (r: KeyEvent)
        ensures r == (KeyEvent { ctrl: false, alt: false, shift: false, key: Key::Char('\0') })
    { KeyEvent { ctrl: false, alt: false, shift: false, key: Key::default() } }
}
/// str::parse::<Key>
trait VxParse {
    spec fn vx_src(&self) -> Seq<char>;
    fn vx_parse(&self) -> (r: Result<Key, ParseKeyError>)
        ensures match r { Ok(k) => key_of(self.vx_src()) == Some(k), Err(_) => key_of(self.vx_src()) is None };
}
impl VxParse for String {
    spec fn vx_src(&self) -> Seq<char> { self@ }
    fn vx_parse(&self) -> (r: Result<Key, ParseKeyError>) { Key::from_str(self.as_str()) }
}
impl VxShow for Key {
    spec fn vx_shown(&self) -> Seq<char> { key_text(*self) }
    fn vx_show_to(&self, f: &mut VxFormatter) { let _ = self.fmt(f); }
}
//@ fn From<&str>@KeyEvent::from as:from_str
    requires event_of(s@) is Some
    ensures Some(result) == event_of(s@)
//@ rewrite s [cursor ..] . starts_with ($x) => vx_starts_at (s , cursor , $x)
//@ rewrite . parse () => . vx_parse ()
//@ entry
    proof { lemma_literals(); }
    proof {
        lemma_at(s@, 0, "c-"@); lemma_at(s@, 0, "a-"@); lemma_at(s@, 0, "s-"@); lemma_at(s@, 2, "a-"@); lemma_at(s@, 2, "s-"@); lemma_at(s@, 4, "s-"@);
        assert("c-"@[0] == 'c' && "c-"@[1] == '-' && "a-"@[0] == 'a' && "a-"@[1] == '-' && "s-"@[0] == 's' && "s-"@[1] == '-');
        if s@.len() >= 2 { assert(s@.skip(0) =~= s@); assert(s@.skip(2).skip(0) =~= s@.skip(2)); }
        if s@.len() >= 4 { assert(s@.skip(2).skip(2) =~= s@.skip(4)); }
        if s@.len() >= 6 { assert(s@.skip(4).skip(2) =~= s@.skip(6)); }
    }
    let ghost s1 = after(s@, "c-"@);
    let ghost s2 = after(s1, "a-"@);
    let ghost s3 = after(s2, "s-"@);
//@ loop 0 before
    let ghost mut k: int = 0;
    proof { assert(s@.skip(cursor as int) =~= s3); }
//@ loop 0
    invariant 0 <= k <= s3.len(), vx_it0@ == s3.skip(k), vx_acc0@ == s3.take(k)
    ensures k == s3.len()
    decreases s3.len() - k
//@ loop 0 end
    proof { assert(s3.take(k + 1) =~= s3.take(k).push(s3[k])); k = k + 1; }
//@ loop 0 after
    proof { assert(s3.take(k) =~= s3); }
//@ fn From<char>@KeyEvent::from as:from_char
    ensures result == (KeyEvent { ctrl: false, alt: false, shift: upper(c), key: Key::Char(lower_of(c)) })
//@ fn Display@KeyEvent::fmt
    ensures result is Ok, final(f)@ == old(f)@ + event_text(*self)
//@ rewrite s += $x ; => s . push_str ($x) ;
//@ entry
    let ghost was = f@;
//@ exit
    assert(f@ =~= was + event_text(*self));
