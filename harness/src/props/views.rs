//! C18: views, their lenses and headers.
use crate::util::*;
use ced::editor::view::{Focus, Lens};
use ced::editor::{View, ViewItem};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// start, end; None for the whole buffer
type F = Option<(usize, usize)>;

fn focus(f: F) -> Focus {
    f.map_or(Focus::Whole, |(a, b)| Focus::Range(a..b))
}

fn focus_of(v: &Value) -> F {
    v["end"].as_u64().map(|e| (n(v, "start"), e as usize))
}

fn rank(f: &F) -> (bool, usize, usize) {
    f.map_or((true, 0, 0), |(a, b)| (false, a, b))
}

fn focus_text(f: &F) -> String {
    f.map_or("*".into(), |(a, b)| format!("{}..{}", a, b))
}

fn header(g: &[F]) -> F {
    if g.iter().any(|f| f.is_none()) {
        return None;
    }
    Some((g.iter().map(|f| f.unwrap().0).min().unwrap(), g.iter().map(|f| f.unwrap().1).max().unwrap()))
}

fn compare(view: &View, model: &BTreeMap<String, Vec<F>>, after: usize) -> Result<(), String> {
    let names: Vec<&String> = model.keys().collect();
    eq(|| format!("buffers after {}", after), view.buffers(), names)?;
    eq(|| format!("emptiness after {}", after), view.is_empty(), model.is_empty())?;
    for name in ["a", "b", "ab", "B", "é", "", "nowhere"] {
        eq(|| format!("{:?} is in the view after {}", name, after), view.contains_buffer(name), model.contains_key(name))?;
    }
    let mut want = Vec::new();
    let mut key = Vec::new();
    for (b, g) in model {
        let mut g = g.clone();
        g.sort_by_key(rank);
        want.push((true, b.clone(), header(&g)));
        for f in &g {
            want.push((false, b.clone(), *f));
        }
        key.push(format!("{}{{{}}}", b.replace('{', "{{"), g.iter().map(focus_text).collect::<Vec<_>>().join(",")));
    }
    let shape = |f: &Focus| match f {
        Focus::Whole => None,
        Focus::Range(r) => Some((r.start, r.end)),
    };
    let got: Vec<(bool, String, F)> = view
        .as_vec()
        .iter()
        .map(|i| match i {
            ViewItem::Header((b, f)) => (true, b.clone(), shape(f)),
            ViewItem::Lens(l) => (false, l.buffer.clone(), shape(&l.focus)),
        })
        .collect();
    eq(|| format!("items after {}", after), got, want)?;
    eq(|| format!("key after {}", after), view.key(), key.join("|"))
}

fn c18(case: &Value) -> Outcome {
    let mut model: BTreeMap<String, Vec<F>> = BTreeMap::new();
    let mut view = match case["of"].as_str() {
        Some(b) => {
            model.insert(b.to_owned(), vec![None]);
            View::for_buffer(b)
        }
        None => View::default(),
    };
    compare(&view, &model, 0)?;
    for (i, op) in list(case, "ops").iter().enumerate() {
        let b = s(op, "b").to_owned();
        if s(op, "op") == "remove" {
            let gone = model.remove(&b);
            let r = view.remove_lens_group(&b);
            eq(|| format!("lenses removed by {}", i), r.map(|g| g.len()), gone.map(|g| g.len()))?;
        } else {
            let f = focus_of(op);
            view.add_lens(Lens { buffer: b.clone(), focus: focus(f) });
            model.entry(b).or_default().push(f);
        }
        compare(&view, &model, i + 1)?;
    }
    let all: Vec<F> = model.values().flatten().cloned().collect();
    for a in &all {
        eq(|| "start of a focus".into(), focus(*a).start(), a.map_or(0, |r| r.0))?;
        eq(|| "text of a focus".into(), focus(*a).to_string(), focus_text(a))?;
        for b in &all {
            eq(|| format!("order of {:?} and {:?}", a, b), focus(*a).cmp(&focus(*b)), rank(a).cmp(&rank(b)))?;
            eq(|| format!("partial order of {:?} and {:?}", a, b), focus(*a).partial_cmp(&focus(*b)), Some(rank(a).cmp(&rank(b))))?;
        }
    }
    Ok(list(case, "ops").len() > 1)
}

fn c18_small(f: &mut dyn FnMut(Value)) {
    let mut all = Vec::new();
    for b in ["a", "b"] {
        all.push(json!({"op": "remove", "b": b}));
        all.push(json!({"op": "add", "b": b}));
        for (x, y) in [(0, 1), (0, 4), (1, 2), (2, 5)] {
            all.push(json!({"op": "add", "b": b, "start": x, "end": y}));
        }
    }
    fn go(all: &[Value], ops: &mut Vec<Value>, depth: usize, f: &mut dyn FnMut(Value)) {
        f(json!({ "ops": ops }));
        if depth > 0 {
            for o in all {
                ops.push(o.clone());
                go(all, ops, depth - 1, f);
                ops.pop();
            }
        }
    }
    for b in ["a", "", "é", "{", "a{*}|b", "{{"] {
        f(json!({"of": b, "ops": []}));
    }
    go(&all, &mut Vec::new(), 4, f);
}

fn c18_gen(r: &mut Rng, i: usize) -> Value {
    let names = ["a", "b", "ab", "B", "é", "", "{", "a{*}|b", "a{", "{*}"];
    let ops: Vec<Value> = (0..1 + r.below(4 + i % 24))
        .map(|_| {
            let b = *r.pick(&names);
            if r.chance(1, 6) {
                json!({"op": "remove", "b": b})
            } else if r.chance(1, 5) {
                json!({"op": "add", "b": b})
            } else {
                let top = if r.chance(1, 10) { usize::MAX / 2 } else { 30 };
                let x = r.below(top);
                json!({"op": "add", "b": b, "start": x, "end": x + r.below(12)})
            }
        })
        .collect();
    if r.chance(1, 3) {
        json!({"of": r.pick(&names), "ops": ops})
    } else {
        json!({ "ops": ops })
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C18", rule: "a sequence of lenses added and buffers removed on a view (also one made for a buffer), its buffers, items, header ranges, key and membership compared with a plain table after each; non-trivial with two or more operations", check: c18, small: c18_small, gen: c18_gen }]
}
