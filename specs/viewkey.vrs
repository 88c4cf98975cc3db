//@ verus
// ---- a view's key tells its buffers and focuses -------------------------------------
/// doubled, read from the left
spec fn esc(k: Seq<char>) -> Seq<char>
    decreases k.len()
{
    if k.len() == 0 { Seq::empty() }
    else if k[0] == '{' { seq!['{', '{'] + esc(k.skip(1)) }
    else { seq![k[0]] + esc(k.skip(1)) }
}
proof fn lemma_esc_push(k: Seq<char>, c: char)
    ensures esc(k.push(c)) == esc(k) + (if c == '{' { seq!['{', '{'] } else { seq![c] })
    decreases k.len()
{
    if k.len() == 0 {
        assert(k.push(c).skip(1) =~= Seq::empty());
        assert(k.push(c)[0] == c);
        assert(esc(k) =~= Seq::<char>::empty());
        assert(esc(Seq::<char>::empty()) =~= Seq::<char>::empty());
        assert(esc(k.push(c)) =~= esc(k) + (if c == '{' { seq!['{', '{'] } else { seq![c] }));
    } else {
        lemma_esc_push(k.skip(1), c);
        assert(k.push(c).skip(1) =~= k.skip(1).push(c));
        assert(k.push(c)[0] == k[0]);
        assert(esc(k.push(c)) =~= esc(k) + (if c == '{' { seq!['{', '{'] } else { seq![c] }));
    }
}
proof fn lemma_doubled(k: Seq<char>)
    ensures doubled(k) == esc(k)
    decreases k.len()
{
    if k.len() > 0 {
        lemma_doubled(k.drop_last());
        lemma_esc_push(k.drop_last(), k.last());
        assert(k.drop_last().push(k.last()) =~= k);
        assert(doubled(k) =~= esc(k));
    }
}
/// a name ends at the first brace that is not doubled
proof fn lemma_name(a: Seq<char>, r: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires
        esc(a) + seq!['{'] + r == esc(b) + seq!['{'] + t,
        r.len() > 0, r[0] != '{', t.len() > 0, t[0] != '{',
    ensures a == b, r == t
    decreases a.len()
{
    let x = esc(a) + seq!['{'] + r;
    let y = esc(b) + seq!['{'] + t;
    if a.len() == 0 && b.len() == 0 {
        assert(x.skip(1) =~= r);
        assert(y.skip(1) =~= t);
        assert(a =~= b);
    } else if a.len() == 0 {
        assert(x[0] == '{' && x[1] == r[0]);
        if b[0] == '{' { assert(y[1] == '{'); } else { assert(y[0] == b[0]); }
    } else if b.len() == 0 {
        assert(y[0] == '{' && y[1] == t[0]);
        if a[0] == '{' { assert(x[1] == '{'); } else { assert(x[0] == a[0]); }
    } else {
        let n: int = if a[0] == '{' { 2 } else { 1 };
        let m: int = if b[0] == '{' { 2 } else { 1 };
        assert(x[0] == a[0]);
        assert(y[0] == b[0]);
        assert(x.skip(n) =~= esc(a.skip(1)) + seq!['{'] + r);
        assert(y.skip(m) =~= esc(b.skip(1)) + seq!['{'] + t);
        lemma_name(a.skip(1), r, b.skip(1), t);
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
spec fn none_of(s: Seq<char>, c: char) -> bool { !s.contains(c) }
/// two texts that hold no `c`, each followed by one
proof fn lemma_upto(a: Seq<char>, r: Seq<char>, b: Seq<char>, t: Seq<char>, c: char)
    requires a + seq![c] + r == b + seq![c] + t, none_of(a, c), none_of(b, c)
    ensures a == b, r == t
{
    let x = a + seq![c] + r;
    let y = b + seq![c] + t;
    if a.len() < b.len() {
        assert(x[a.len() as int] == c);
        assert(y[a.len() as int] == b[a.len() as int]);
        assert(b.contains(b[a.len() as int]));
    } else if b.len() < a.len() {
        assert(y[b.len() as int] == c);
        assert(x[b.len() as int] == a[b.len() as int]);
        assert(a.contains(a[b.len() as int]));
    }
    assert(a =~= x.take(a.len() as int));
    assert(b =~= y.take(b.len() as int));
    assert(r =~= x.skip(a.len() as int + 1));
    assert(t =~= y.skip(b.len() as int + 1));
}
proof fn lemma_joined_first(s: Seq<Seq<char>>, sep: Seq<char>)
    requires s.len() > 1
    ensures joined_with(s, sep) == s[0] + sep + joined_with(s.skip(1), sep)
    decreases s.len()
{
    if s.len() == 2 {
        assert(s.drop_last()[0] == s[0] && s.skip(1)[0] == s[1] && s.last() == s[1]);
        assert(joined_with(s.drop_last(), sep) == s[0]);
        assert(joined_with(s.skip(1), sep) == s[1]);
    } else {
        lemma_joined_first(s.drop_last(), sep);
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(joined_with(s, sep) =~= s[0] + sep + joined_with(s.skip(1), sep));
    }
}
// the texts of focuses
spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
proof fn lemma_dec(n: int)
    requires n >= 0
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> digit(#[trigger] dec(n)[i])
    decreases n
{
    if n >= 10 { lemma_dec(n / 10); }
}
proof fn lemma_digit_inj(x: int, y: int)
    requires 0 <= x < 10, 0 <= y < 10, ((x + '0' as int) as u8) as char == ((y + '0' as int) as u8) as char
    ensures x == y
{
    let u = (x + '0' as int) as u8;
    let v = (y + '0' as int) as u8;
    assert('0' as int == 48);
    assert(u as int == x + 48 && v as int == y + 48);
    assert((u as char) as u32 == u as u32);
    assert((v as char) as u32 == v as u32);
}
proof fn lemma_dec_inj(a: int, b: int)
    requires a >= 0, b >= 0, dec(a) == dec(b)
    ensures a == b
    decreases a
{
    lemma_dec(a);
    lemma_dec(b);
    if a >= 10 { lemma_dec(a / 10); }
    if b >= 10 { lemma_dec(b / 10); }
    if a >= 10 && b >= 10 {
        assert(dec(a).drop_last() =~= dec(a / 10));
        assert(dec(b).drop_last() =~= dec(b / 10));
        lemma_dec_inj(a / 10, b / 10);
        assert(dec(a) == dec(a / 10).push(((a % 10 + '0' as int) as u8) as char));
        assert(dec(b) == dec(b / 10).push(((b % 10 + '0' as int) as u8) as char));
        assert(dec(a).last() == ((a % 10 + '0' as int) as u8) as char);
        assert(dec(b).last() == ((b % 10 + '0' as int) as u8) as char);
        lemma_digit_inj(a % 10, b % 10);
    } else if a < 10 && b < 10 {
        assert(dec(a) == seq![((a + '0' as int) as u8) as char]);
        assert(dec(b) == seq![((b + '0' as int) as u8) as char]);
        assert(dec(a)[0] == ((a + '0' as int) as u8) as char);
        assert(dec(b)[0] == ((b + '0' as int) as u8) as char);
        lemma_digit_inj(a, b);
    }
}
proof fn lemma_focus_text(f: Focus)
    ensures
        focus_text(f).len() > 0,
        forall|c: char| c == '{' || c == '}' || c == ',' ==> !#[trigger] focus_text(f).contains(c),
{
    reveal_strlit("*");
    reveal_strlit("..");
    match f {
        Focus::Range(r) => {
            lemma_dec(r.start as int);
            lemma_dec(r.end as int);
            let t = focus_text(f);
            assert forall|i: int| 0 <= i < t.len() implies digit(#[trigger] t[i]) || t[i] == '.' by {
                let a = dec(r.start as int);
                let b = dec(r.end as int);
                if i < a.len() { assert(t[i] == a[i]); }
                else if i >= a.len() + 2 { assert(t[i] == b[i - a.len() - 2]); }
            }
        }
        Focus::Whole => {}
    }
}
proof fn lemma_focus_inj(f: Focus, g: Focus)
    requires focus_text(f) == focus_text(g)
    ensures f == g
{
    reveal_strlit("*");
    reveal_strlit("..");
    match (f, g) {
        (Focus::Range(r), Focus::Range(s)) => {
            lemma_dec(r.start as int);
            lemma_dec(s.start as int);
            let (a, b) = (dec(r.start as int), dec(s.start as int));
            let (x, y) = (seq!['.'] + dec(r.end as int), seq!['.'] + dec(s.end as int));
            assert(focus_text(f) =~= a + seq!['.'] + x);
            assert(focus_text(g) =~= b + seq!['.'] + y);
            lemma_upto(a, x, b, y, '.');
            assert(x.skip(1) =~= dec(r.end as int));
            assert(y.skip(1) =~= dec(s.end as int));
            lemma_dec_inj(r.start as int, s.start as int);
            lemma_dec_inj(r.end as int, s.end as int);
        }
        (Focus::Range(r), Focus::Whole) => { lemma_dec(r.start as int); assert(digit(focus_text(f)[0])) by { assert(focus_text(f)[0] == dec(r.start as int)[0]); } }
        (Focus::Whole, Focus::Range(r)) => { lemma_dec(r.start as int); assert(digit(focus_text(g)[0])) by { assert(focus_text(g)[0] == dec(r.start as int)[0]); } }
        _ => {}
    }
}
/// the focuses of a group, as its part of the key tells them
proof fn lemma_coords(s: Seq<VLens>)
    requires s.len() > 0
    ensures
        joined_with(focus_texts(s), ","@).len() > 0,
        none_of(joined_with(focus_texts(s), ","@), '{'), none_of(joined_with(focus_texts(s), ","@), '}'),
    decreases s.len()
{
    reveal_strlit(",");
    let t = focus_texts(s);
    lemma_focus_text(s.last().focus);
    assert(t.last() == focus_text(s.last().focus));
    if s.len() > 1 {
        lemma_coords(s.drop_last());
        assert(t.drop_last() =~= focus_texts(s.drop_last()));
        let a = joined_with(t.drop_last(), ","@);
        let all = joined_with(t, ","@);
        assert(all == a + ","@ + t.last());
        assert forall|i: int| 0 <= i < all.len() implies #[trigger] all[i] != '{' && all[i] != '}' by {
            if i < a.len() { assert(all[i] == a[i]); assert(a.contains(a[i])); }
            else if i > a.len() { assert(all[i] == t.last()[i - a.len() - 1]); assert(t.last().contains(t.last()[i - a.len() - 1])); }
        }
    } else {
        assert(t[0] == t.last());
    }
}
spec fn focuses(s: Seq<VLens>) -> Seq<Focus> { s.map_values(|l: VLens| l.focus) }
proof fn lemma_coords_inj(s: Seq<VLens>, t: Seq<VLens>)
    requires s.len() > 0, t.len() > 0, joined_with(focus_texts(s), ","@) == joined_with(focus_texts(t), ","@)
    ensures focuses(s) == focuses(t)
    decreases s.len()
{
    reveal_strlit(",");
    let (a, b) = (focus_texts(s), focus_texts(t));
    lemma_focus_text(s[0].focus);
    lemma_focus_text(t[0].focus);
    assert(a[0] == focus_text(s[0].focus) && b[0] == focus_text(t[0].focus));
    assert(","@ =~= seq![',']);
    if s.len() > 1 { lemma_joined_first(a, ","@); assert(a.skip(1) =~= focus_texts(s.skip(1))); }
    if t.len() > 1 { lemma_joined_first(b, ","@); assert(b.skip(1) =~= focus_texts(t.skip(1))); }
    if s.len() > 1 && t.len() > 1 {
        lemma_upto(a[0], joined_with(a.skip(1), ","@), b[0], joined_with(b.skip(1), ","@), ',');
        lemma_coords_inj(s.skip(1), t.skip(1));
        lemma_focus_inj(s[0].focus, t[0].focus);
        assert(focuses(s) =~= seq![s[0].focus] + focuses(s.skip(1)));
        assert(focuses(t) =~= seq![t[0].focus] + focuses(t.skip(1)));
    } else if s.len() > 1 {
        let x = joined_with(a, ","@);
        assert(x[a[0].len() as int] == ',');
        assert(b[0].contains(x[a[0].len() as int]));
    } else if t.len() > 1 {
        let x = joined_with(b, ","@);
        assert(x[b[0].len() as int] == ',');
        assert(a[0].contains(x[b[0].len() as int]));
    } else {
        lemma_focus_inj(s[0].focus, t[0].focus);
        assert(focuses(s) =~= focuses(t));
    }
}
/// the key of the groups of `keys`
spec fn key_of(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>) -> Seq<char> {
    joined_with(key_parts(keys, m, keys.len() as int), "|"@)
}
spec fn groups_ok(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>) -> bool {
    forall|i: int| 0 <= i < keys.len() ==> m[#[trigger] keys[i]].0@.len() > 0
}
/// equal keys: the same buffers with the same focuses
spec fn same_groups(a: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>, b: Seq<Seq<char>>, n: Map<Seq<char>, LensGroup>) -> bool {
    a == b && forall|i: int| 0 <= i < a.len() ==> focuses(m[#[trigger] a[i]].0@) == focuses(n[a[i]].0@)
}
/// what follows the name in a key
spec fn key_rest(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>) -> Seq<char> {
    joined_with(focus_texts(m[keys[0]].0@), ","@) + seq!['}'] + key_tail(keys, m)
}
spec fn key_tail(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>) -> Seq<char> {
    if keys.len() > 1 { seq!['|'] + key_of(keys.skip(1), m) } else { Seq::empty() }
}
proof fn lemma_key_first(keys: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>)
    requires keys.len() > 0, groups_ok(keys, m)
    ensures
        key_of(keys, m) == esc(keys[0]) + seq!['{'] + key_rest(keys, m),
        key_rest(keys, m).len() > 0, key_rest(keys, m)[0] != '{',
{
    reveal_strlit("{");
    reveal_strlit("}");
    reveal_strlit("|");
    let p = key_parts(keys, m, keys.len() as int);
    let c = joined_with(focus_texts(m[keys[0]].0@), ","@);
    lemma_doubled(keys[0]);
    lemma_coords(m[keys[0]].0@);
    assert(c.contains(c[0]));
    assert("|"@ =~= seq!['|']);
    assert(p[0] == esc(keys[0]) + "{"@ + c + "}"@);
    if keys.len() > 1 {
        lemma_joined_first(p, "|"@);
        assert(p.skip(1) =~= key_parts(keys.skip(1), m, keys.len() - 1));
    }
    assert(key_of(keys, m) =~= esc(keys[0]) + seq!['{'] + key_rest(keys, m));
}
proof fn lemma_key_inj(a: Seq<Seq<char>>, m: Map<Seq<char>, LensGroup>, b: Seq<Seq<char>>, n: Map<Seq<char>, LensGroup>)
    requires groups_ok(a, m), groups_ok(b, n), key_of(a, m) == key_of(b, n)
    ensures same_groups(a, m, b, n)
    decreases a.len()
{
    if a.len() > 0 { lemma_key_first(a, m); }
    if b.len() > 0 { lemma_key_first(b, n); }
    if a.len() > 0 && b.len() > 0 {
        let (s, t) = (m[a[0]].0@, n[b[0]].0@);
        lemma_name(a[0], key_rest(a, m), b[0], key_rest(b, n));
        lemma_coords(s);
        lemma_coords(t);
        lemma_upto(joined_with(focus_texts(s), ","@), key_tail(a, m), joined_with(focus_texts(t), ","@), key_tail(b, n), '}');
        lemma_coords_inj(s, t);
        if a.len() > 1 && b.len() > 1 {
            assert(key_tail(a, m).skip(1) =~= key_of(a.skip(1), m));
            assert(key_tail(b, n).skip(1) =~= key_of(b.skip(1), n));
            assert forall|i: int| 0 <= i < a.skip(1).len() implies m[#[trigger] a.skip(1)[i]].0@.len() > 0 by { assert(a.skip(1)[i] == a[i + 1]); }
            assert forall|i: int| 0 <= i < b.skip(1).len() implies n[#[trigger] b.skip(1)[i]].0@.len() > 0 by { assert(b.skip(1)[i] == b[i + 1]); }
            lemma_key_inj(a.skip(1), m, b.skip(1), n);
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
            assert forall|i: int| 0 <= i < a.len() implies focuses(m[#[trigger] a[i]].0@) == focuses(n[a[i]].0@) by {
                if i > 0 { assert(a.skip(1)[i - 1] == a[i]); }
            }
        } else {
            assert(a =~= b);
        }
    } else {
        if a.len() == 0 { assert(key_of(a, m).len() == 0); }
        if b.len() == 0 { assert(key_of(b, n).len() == 0); }
        assert(a =~= b);
    }
}
/// two views with the same key show the same buffers with the same focuses
proof fn lemma_views_with_same_key(v: &View, w: &View)
    requires v.wf(), w.wf(), key_of(v.0.bkeys(), v.groups()) == key_of(w.0.bkeys(), w.groups())
    ensures
        v.groups().dom() == w.groups().dom(),
        forall|k: Seq<char>| #[trigger] v.groups().contains_key(k) ==> focuses(v.groups()[k].0@) == focuses(w.groups()[k].0@),
{
    broadcast use BTreeMap::axiom_keys;
    let (a, b) = (v.0.bkeys(), w.0.bkeys());
    assert forall|i: int| 0 <= i < a.len() implies v.groups()[#[trigger] a[i]].0@.len() > 0 by { assert(v.groups().contains_key(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies w.groups()[#[trigger] b[i]].0@.len() > 0 by { assert(w.groups().contains_key(b[i])); }
    lemma_key_inj(a, v.groups(), b, w.groups());
    assert forall|k: Seq<char>| v.groups().contains_key(k) <==> w.groups().contains_key(k) by {
        if v.groups().contains_key(k) { assert(a.contains(k)); let i = a.index_of(k); assert(w.groups().contains_key(b[i])); }
        if w.groups().contains_key(k) { assert(b.contains(k)); let i = b.index_of(k); assert(v.groups().contains_key(a[i])); }
    }
    assert forall|k: Seq<char>| #[trigger] v.groups().contains_key(k) implies focuses(v.groups()[k].0@) == focuses(w.groups()[k].0@) by {
        assert(a.contains(k));
        let i = a.index_of(k);
        assert(a[i] == k);
    }
    assert(v.groups().dom() =~= w.groups().dom());
}
