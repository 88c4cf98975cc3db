//! C07, C08, C11, C17: selections, key notation, the map that remembers its last used key, echoed error messages.
use crate::util::*;
use bstr::ByteSlice;
use serde_json::{json, Value};

// ---- C07 -------------------------------------------------------------------

/// Start and length of every grapheme, line by line; a line feed is one.
pub fn graphemes(text: &str) -> Vec<(usize, usize)> {
    let mut all = Vec::new();
    let mut at = 0;
    for line in text.split_inclusive('\n') {
        let body = line.strip_suffix('\n').unwrap_or(line);
        for (a, b, _) in body.as_bytes().grapheme_indices() {
            all.push((at + a, b - a));
        }
        if body.len() < line.len() {
            all.push((at + body.len(), 1));
        }
        at += line.len();
    }
    all
}

#[cfg(feature = "hooks")]
fn c07(case: &Value) -> Outcome {
    use ced::editor::verif::Selection;
    let (a, c, bound) = (n(case, "a"), n(case, "c"), n(case, "n"));
    let mut sel = Selection::new();
    sel.anchor = a;
    sel.cursor = c;
    eq(|| "begin".into(), sel.begin(), a.min(c))?;
    eq(|| "end".into(), sel.end(), a.max(c))?;
    let mut k = sel;
    let delta = k.clamp_to(bound);
    eq(|| "clamped ends".into(), (k.anchor, k.cursor), (a.min(bound), c.min(bound)))?;
    eq(|| "distance beyond the bound".into(), delta, a.max(c).saturating_sub(bound))?;
    if let Some(t) = case["text"].as_str() {
        let gs = graphemes(t);
        if gs.iter().any(|g| g.0 == a.max(c)) || a.max(c) == t.len() {
            let b = super::history::table(t);
            let len = gs.iter().find(|g| g.0 == a.max(c)).map_or(0, |g| g.1);
            eq(|| format!("range of ({}, {}) in {:?}", a, c, t), b.selection_range(&sel), a.min(c)..a.max(c) + len)?;
            return Ok(true);
        }
        return Ok(a > bound || c > bound);
    }
    Ok(a > bound || c > bound)
}

#[cfg(not(feature = "hooks"))]
fn c07(_: &Value) -> Outcome {
    let _ = graphemes;
    Ok(false)
}

fn c07_small(f: &mut dyn FnMut(Value)) {
    for a in 0..5 {
        for c in 0..5 {
            for k in 0..5 {
                f(json!({"a": a, "c": c, "n": k}));
            }
        }
    }
    for t in words(&["a", "\n", "é", "e\u{301}"], 3) {
        for a in 0..=t.len() {
            for c in 0..=t.len() {
                f(json!({"a": a, "c": c, "n": t.len().saturating_sub(1), "text": t}));
            }
        }
    }
}

fn c07_gen(r: &mut Rng, i: usize) -> Value {
    let t = text(r, 2 + i % 20);
    let gs = graphemes(&t);
    let at = |r: &mut Rng| if gs.is_empty() || r.chance(1, 8) { r.below(t.len() + 3) } else { gs[r.below(gs.len())].0 };
    let (a, c) = (at(r), at(r));
    let k = r.below(t.len() + 3);
    json!({"a": a, "c": c, "n": k, "text": t})
}

// ---- C08 -------------------------------------------------------------------

fn c08(case: &Value) -> Outcome {
    let mut real: ced::stackmap::StackMap<String, usize> = ced::stackmap::StackMap::new();
    // most recently used first
    let mut model: Vec<(String, usize)> = Vec::new();
    for (i, op) in list(case, "ops").iter().enumerate() {
        let k = s(op, "k").to_owned();
        let v = n(op, "v");
        let at = model.iter().position(|e| e.0 == k);
        match s(op, "op") {
            "insert" => {
                let old = at.map(|j| model.remove(j).1);
                model.insert(0, (k.clone(), v));
                eq(|| format!("insert {} {:?}", i, k), real.insert(k.clone(), v), old)?;
            }
            "remove" => {
                let old = at.map(|j| model.remove(j).1);
                eq(|| format!("remove {} {:?}", i, k), real.remove(&k), old)?;
            }
            _ => {
                if let Some(j) = at {
                    let e = model.remove(j);
                    model.insert(0, e);
                }
                eq(|| format!("set_last {} {:?}", i, k), real.set_last(k.clone()).is_ok(), at.is_some())?;
            }
        }
        eq(|| format!("latest after {}", i), real.latest().cloned(), model.first().map(|e| e.0.clone()))?;
        eq(|| format!("latest value after {}", i), real.latest_value().cloned(), model.first().map(|e| e.1))?;
        eq(|| format!("size after {}", i), real.len(), model.len())?;
        for (k, v) in &model {
            eq(|| format!("value of {:?} after {}", k, i), real.get(k).cloned(), Some(*v))?;
        }
    }
    // the whole order, by removing the latest again and again
    while let Some((k, v)) = model.first().cloned() {
        eq(|| "latest while draining".into(), real.latest().cloned(), Some(k.clone()))?;
        eq(|| "removed while draining".into(), real.remove(&k), Some(v))?;
        model.remove(0);
    }
    ensure(real.latest().is_none() && real.latest_value().is_none() && real.is_empty(), || "not empty at the end".into())?;
    Ok(list(case, "ops").len() > 1)
}

fn c08_small(f: &mut dyn FnMut(Value)) {
    let mut all: Vec<Value> = Vec::new();
    for k in ["a", "b", "c"] {
        for op in ["insert", "remove", "last"] {
            all.push(json!({"op": op, "k": k, "v": 0}));
        }
    }
    fn go(all: &[Value], ops: &mut Vec<Value>, depth: usize, f: &mut dyn FnMut(Value)) {
        f(json!({ "ops": ops }));
        if depth == 0 {
            return;
        }
        for o in all {
            let mut o = o.clone();
            o["v"] = json!(ops.len());
            ops.push(o);
            go(all, ops, depth - 1, f);
            ops.pop();
        }
    }
    go(&all, &mut Vec::new(), 5, f);
}

fn c08_gen(r: &mut Rng, i: usize) -> Value {
    let keys = 2 + r.below(6);
    let ops: Vec<Value> = (0..2 + r.below(8 + i % 40))
        .map(|j| json!({"op": *r.pick(&["insert", "insert", "remove", "last"]), "k": format!("k{}", r.below(keys)), "v": j}))
        .collect();
    json!({ "ops": ops })
}

// ---- C17 -------------------------------------------------------------------

/// an error message as it is shown, in one pass
pub fn normalized(t: &str) -> String {
    let mut want = String::new();
    let mut last: Option<char> = None;
    for c in t.chars() {
        if c == '\n' {
            want.push_str("\\n");
            last = Some('n');
            continue;
        }
        let c = if c == '\t' { ' ' } else { c };
        if c.is_whitespace() && last == Some(c) {
            continue;
        }
        want.push(c);
        last = Some(c);
    }
    want
}

#[cfg(feature = "hooks")]
fn c17(case: &Value) -> Outcome {
    let t = s(case, "t");
    let want = normalized(t);
    let got = ced::editor::verif::normalize_error_message(t);
    ensure(!got.contains('\n') && !got.contains('\t'), || format!("line feed or tab left in {:?}", got))?;
    eq(|| format!("normalized {:?}", t), got, want)?;
    Ok(t.contains('\n') || t.contains('\t') || t.contains("  "))
}

#[cfg(not(feature = "hooks"))]
fn c17(_: &Value) -> Outcome {
    Ok(false)
}

fn c17_small(f: &mut dyn FnMut(Value)) {
    for t in words(&["a", " ", "\n", "\t", "\r", "\\", "n", "\u{a0}"], 5) {
        f(json!({ "t": t }));
    }
}

fn c17_gen(r: &mut Rng, i: usize) -> Value {
    let mut t = String::new();
    for _ in 0..r.below(4 + i % 60) {
        t.push_str(match r.below(5) {
            0 => " ",
            1 => "\n",
            2 => "\t",
            3 => *r.pick(&["\r", "\u{a0}", "\u{2003}", "\u{b}", "\\n", "\\"]),
            _ => *r.pick(FRAGMENTS),
        });
    }
    json!({ "t": t })
}

// ---- C11 -------------------------------------------------------------------

fn c11(case: &Value) -> Outcome {
    use ced_remote::protocol::{Key, KeyEvent};
    let named = s(case, "key");
    let c = named.chars().next().unwrap_or('\0');
    let single = named.chars().count() <= 1;
    let key = || match named {
        "bkspc" => Key::Backspace,
        "ret" => Key::Enter,
        "esc" => Key::Escape,
        "up" => Key::Up,
        "down" => Key::Down,
        "left" => Key::Left,
        "right" => Key::Right,
        _ => Key::Char(c),
    };
    let m = n(case, "mods");
    let event = KeyEvent { ctrl: m & 1 != 0, alt: m & 2 != 0, shift: m & 4 != 0, key: key() };
    let mut want = String::new();
    for (bit, p) in [(1, "c-"), (2, "a-"), (4, "s-")] {
        if m & bit != 0 {
            want += p;
        }
    }
    if single {
        want.push(if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c });
    } else {
        want += named;
    }
    let text = event.to_string();
    eq(|| "notation".into(), text.clone(), want)?;
    let upper = single && c.is_ascii_uppercase();
    if !upper {
        eq(|| format!("event read back from {:?}", text), KeyEvent::from(text.as_str()), event)?;
    }
    eq(|| "event of a plain key".into(), KeyEvent::from(key()), KeyEvent { ctrl: false, alt: false, shift: false, key: key() })?;
    if single {
        let typed = KeyEvent::from(c);
        let low = if upper { (c as u8 + 32) as char } else { c };
        eq(|| format!("typed {:?}", c), typed, KeyEvent { ctrl: false, alt: false, shift: upper, key: Key::Char(low) })?;
    }
    Ok(m != 0 || !single)
}

const KEYS: &[&str] = &["bkspc", "ret", "esc", "up", "down", "left", "right", "é", "É", "ß", "日", "🦊", "\u{301}", "\n", "\u{0}", "\u{130}"];

fn c11_small(f: &mut dyn FnMut(Value)) {
    for mods in 0..8 {
        for k in KEYS {
            f(json!({"key": k, "mods": mods}));
        }
        for c in 0u8..128 {
            f(json!({"key": (c as char).to_string(), "mods": mods}));
        }
    }
}

fn c11_gen(r: &mut Rng, _: usize) -> Value {
    let c = loop {
        let top = if r.chance(1, 2) { 0x500 } else { 0x110000 };
        if let Some(c) = char::from_u32(r.below(top) as u32) {
            break c;
        }
    };
    json!({"key": c.to_string(), "mods": r.below(8)})
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", rule: "a selection, a bound and (in most cases) a text; begin, end, clamping and the covered range compared with the graphemes of the text, for an end at a grapheme start or at the end of the text; non-trivial when the range was compared or an end was clamped", check: c07, small: c07_small, gen: c07_gen },
        Prop { id: "C08", rule: "a list of operations on the real map and on a plain recency list, every query compared after each, then drained by recency; non-trivial with two or more operations", check: c08, small: c08_small, gen: c08_gen },
        Prop { id: "C11", rule: "a key (every ASCII character, the named keys, random characters) with each combination of modifiers; its notation compared with a reference and read back; non-trivial with a modifier or a named key", check: c11, small: c11_small, gen: c11_gen },
        Prop { id: "C17", rule: "a message and its normalization compared with a one-pass reference; non-trivial when it holds a line feed, a tab or two spaces in a row", check: c17, small: c17_small, gen: c17_gen },
    ]
}
