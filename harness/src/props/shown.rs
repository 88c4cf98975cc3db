//! C19: what is sent of a view.
use super::parts::graphemes;
use crate::util::*;
use ced::editor::view::{Focus, Lens};
use ced::editor::{Buffer, View};
use ced_remote::protocol::Face;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

struct Line {
    at: usize,
    /// what is shown of it, without the trailing space
    text: String,
    /// where the carriage return and the line feed are that the trailing space stands for
    end: Vec<usize>,
}

fn lines(text: &str) -> Vec<Line> {
    let mut all = Vec::new();
    let mut at = 0;
    for l in text.split_inclusive('\n') {
        let mut t = l;
        let mut end = Vec::new();
        if let Some(x) = t.strip_suffix('\n') {
            t = x;
            end.push(at + t.len());
            if let Some(x) = t.strip_suffix('\r') {
                t = x;
                end.push(at + t.len());
            }
        }
        all.push(Line { at, text: t.to_owned(), end });
        at += l.len();
    }
    all
}

#[cfg(feature = "hooks")]
fn c19(case: &Value) -> Outcome {
    use ced::editor::verif::Selection;
    let mut buffers = HashMap::new();
    let mut sels: HashMap<String, Vec<Selection>> = HashMap::new();
    let mut view = View::default();
    let mut model: BTreeMap<String, (String, Vec<Option<(usize, usize)>>)> = BTreeMap::new();
    let mut told = false;
    for b in list(case, "buffers") {
        let name = s(b, "name").to_owned();
        let text = s(b, "text").to_owned();
        if text.is_empty() || buffers.contains_key(&name) {
            // a shown buffer is never empty (C09)
            return Ok(false);
        }
        let mut buffer = Buffer::new_scratch("x".into(), String::new());
        buffer.content = super::history::table(&text).content;
        buffers.insert(name.clone(), buffer);
        let total = lines(&text).len();
        let mut foci = Vec::new();
        for f in list(b, "lenses") {
            let focus = f["end"].as_u64().map(|e| (n(f, "start"), e as usize));
            if focus.map_or(false, |(x, y)| x > y || y > total) {
                return Ok(false);
            }
            view.add_lens(Lens { buffer: name.clone(), focus: focus.map_or(Focus::Whole, |(x, y)| Focus::Range(x..y)) });
            foci.push(focus);
        }
        foci.sort_by_key(|f| f.map_or((true, 0, 0), |(x, y)| (false, x, y)));
        if !foci.is_empty() {
            model.insert(name.clone(), (text.clone(), foci));
        }
        if let Some(list) = b["sels"].as_array() {
            let all: Vec<Selection> = list
                .iter()
                .map(|x| {
                    let mut sel = Selection::new();
                    sel.anchor = n(x, "a");
                    sel.cursor = n(x, "c");
                    sel
                })
                .collect();
            // the editor keeps one selection per client and buffer (C09)
            if all.len() > 1 || all.iter().any(|x| x.anchor >= text.len() || x.cursor >= text.len()) {
                return Ok(false);
            }
            sels.insert(name, all);
        }
    }
    let params = view.to_notification_params(&buffers, if case["blind"] == true { None } else { Some(&sels) });
    eq(|| "items".into(), params.iter().map(|p| &p.buffer).collect::<Vec<_>>(), model.keys().collect())?;
    for (item, (name, (text, foci))) in params.iter().zip(&model) {
        let all = lines(text);
        let first = foci.iter().map(|f| f.map_or(0, |f| f.0)).min().unwrap();
        let last = foci.iter().map(|f| f.map_or(all.len(), |f| f.1)).max().unwrap();
        let first = if foci.iter().any(|f| f.is_none()) { 0 } else { first };
        eq(|| format!("first and last line of {:?}", name), (item.start, item.end), (first + 1, last))?;
        eq(|| format!("lenses of {:?}", name), item.lenses.len(), foci.len())?;
        // the bytes that are selected
        let gs = graphemes(text);
        let start = |o: usize| gs.iter().filter(|g| g.0 <= o).map(|g| g.0).last().unwrap();
        let mut covered = vec![false; text.len()];
        if case["blind"] != true {
            for x in sels.get(name).into_iter().flatten() {
                let (a, c) = (start(x.anchor.min(x.cursor)), start(x.anchor.max(x.cursor)));
                for g in gs.iter().filter(|g| a <= g.0 && g.0 <= c) {
                    covered[g.0..g.0 + g.1].iter_mut().for_each(|b| *b = true);
                }
            }
        }
        for (k, (lens, focus)) in item.lenses.iter().zip(foci).enumerate() {
            let (x, y) = focus.unwrap_or((0, all.len()));
            eq(|| format!("first line number of lens {} of {:?}", k, name), lens.first_line_num, x + 1)?;
            eq(|| format!("lines of lens {} of {:?}", k, name), lens.lines.len(), y - x)?;
            for (i, (got, line)) in lens.lines.iter().zip(&all[x..y]).enumerate() {
                eq(|| format!("text of line {} of {:?}", x + i, name), got.plain(), format!("{} ", line.text))?;
                let mut marks = Vec::new();
                for f in got.iter() {
                    ensure(f.face == Face::Default || f.face == Face::Selection, || format!("face {:?}", f.face))?;
                    marks.extend(std::iter::repeat(f.face == Face::Selection).take(f.text.len()));
                }
                let mut want: Vec<bool> = covered[line.at..line.at + line.text.len()].to_vec();
                want.push(line.end.iter().any(|&e| covered[e]));
                told |= want.contains(&true) && want.contains(&false);
                eq(|| format!("bytes marked in line {} of {:?}", x + i, name), marks, want)?;
            }
        }
    }
    Ok(told)
}

#[cfg(not(feature = "hooks"))]
fn c19(_: &Value) -> Outcome {
    let _ = (graphemes, lines);
    Ok(false)
}

fn c19_small(f: &mut dyn FnMut(Value)) {
    for t in words(&["a", "\n", "é", "\r"], 4) {
        let k = t.len();
        for a in 0..k {
            for c in 0..k {
                f(json!({"buffers": [{"name": "b", "text": t, "lenses": [{}], "sels": [{"a": a, "c": c}]}]}));
            }
        }
        let l = lines(&t).len();
        for x in 0..=l {
            for y in x..=l {
                f(json!({"buffers": [{"name": "b", "text": t, "lenses": [{"start": x, "end": y}], "sels": [{"a": 0, "c": k.max(1) - 1}]}]}));
            }
        }
    }
}

fn c19_gen(r: &mut Rng, i: usize) -> Value {
    let buffers: Vec<Value> = ["b", "a", "é"]
        .iter()
        .take(1 + r.below(3))
        .map(|name| {
            let mut t = text(r, 4 + i % 12);
            if r.chance(2, 3) || t.is_empty() {
                t.push('\n');
            }
            let l = lines(&t).len();
            let lenses: Vec<Value> = (0..r.below(4))
                .map(|_| {
                    if r.chance(1, 3) {
                        json!({})
                    } else {
                        let x = r.below(l + 1);
                        json!({"start": x, "end": x + r.below(l - x + 1)})
                    }
                })
                .collect();
            let k = if r.chance(1, 12) { 0 } else { 1 };
            let sels: Vec<Value> = (0..k).map(|_| json!({"a": r.below(t.len()), "c": r.below(t.len())})).collect();
            if r.chance(1, 12) {
                json!({"name": name, "text": t, "lenses": lenses})
            } else {
                json!({"name": name, "text": t, "lenses": lenses, "sels": sels})
            }
        })
        .collect();
    json!({"buffers": buffers, "blind": r.chance(1, 15)})
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "small: every text of at most 4 symbols (letter, line feed, two-byte letter, carriage return) with every selection shown whole, and every range of its lines with all selected; random: up to three buffers of up to 16 fragments (combining and multi-byte graphemes, line ends of both kinds), with up to 3 lenses each and at most one selection. Texts, line numbers and the bytes marked are compared with those computed from the plain text. Non-trivial: a line that is marked in part.",
        check: c19,
        small: c19_small,
        gen: c19_gen,
    }]
}
