//! C12: searching entries.
use crate::util::*;
use ced::editor::menu::{Menu, MenuEntry, MenuFilter, Searchable};
use ced::editor::EditorInfo;
use ced_remote::protocol::Face;
use serde_json::{json, Value};
use std::cell::RefCell;

fn folded(t: &str) -> Vec<char> {
    // one char for one char, as far as the cases go
    t.chars().map(|c| c.to_lowercase().next().unwrap()).collect()
}

fn occur(words: &[Vec<char>], label: &[char]) -> bool {
    let mut at = 0;
    for w in words {
        match (at..=label.len()).find(|&i| label[i..].starts_with(w)) {
            Some(i) => at = i + w.len(),
            None => return false,
        }
    }
    true
}

/// One entry of the answer: label, text and highlighting of the tokens.
type Row = (String, Vec<(String, bool)>, bool);

fn rows_ok(search: &str, labels: &[String], rows: &[Row], only_matching: bool) -> Result<bool, String> {
    let words: Vec<Vec<char>> = search.split_whitespace().map(folded).collect();
    let mut want: Vec<&str> = labels.iter().map(|l| l.as_str()).filter(|l| !only_matching || occur(&words, &folded(l))).collect();
    let mut got: Vec<&str> = rows.iter().map(|r| r.0.as_str()).collect();
    want.sort_unstable();
    got.sort_unstable();
    eq(|| "entries".into(), got, want)?;
    let mut ranks = Vec::new();
    for (label, tokens, matches) in rows {
        eq(|| format!("{:?} matches", label), *matches, occur(&words, &folded(label)))?;
        eq(|| "tokens put together".into(), tokens.iter().map(|t| t.0.as_str()).collect::<String>(), label.clone())?;
        let mut span = None;
        let mut at = 0;
        let mut marked = Vec::new();
        for (t, m) in tokens {
            if *m {
                let (a, _) = span.unwrap_or((at, 0));
                span = Some((a, at + t.len()));
                marked.push(folded(t));
            }
            at += t.len();
        }
        eq(|| format!("highlighted in {:?}", label), marked, if *matches { words.clone() } else { Vec::new() })?;
        ranks.push((!*matches, if *matches { span.map_or(0, |(a, b)| b - a) } else { 0 }, label.clone()));
    }
    let mut sorted = ranks.clone();
    sorted.sort();
    eq(|| "order (matching, span, label)".into(), ranks, sorted)?;
    Ok(rows.iter().any(|r| r.2) && rows.len() > 1 && !words.is_empty())
}

thread_local! {
    static LABELS: RefCell<Vec<String>> = RefCell::new(Vec::new());
}

fn provider(_: &EditorInfo) -> Vec<MenuEntry> {
    LABELS.with(|l| {
        l.borrow()
            .iter()
            .enumerate()
            .map(|(i, l)| MenuEntry { key: format!("{}:{}", i, l), label: l.clone(), description: Some(format!("d{}", i)), action: |_, _, _| Ok(()) })
            .collect()
    })
}

/// two entries whose matched spans are long and differ by one byte
fn long_spans(len: usize) -> Outcome {
    let label = |fill: &str, n: usize| format!("a{}b", fill.repeat(n));
    let found = MenuFilter::new("a b").filter(&[label("x", len + 1), label("y", len)]);
    let lens: Vec<(usize, bool)> = found.iter().map(|c| (c.object.len(), c.is_match())).collect();
    eq(|| "lengths of the entries, in order".into(), lens, vec![(len + 2, true), (len + 3, true)])?;
    Ok(true)
}

fn c12(case: &Value) -> Outcome {
    if n(case, "fill") > 0 {
        return long_spans(n(case, "fill"));
    }
    let search = &s(case, "search").repeat(n(case, "times").max(1));
    let labels: Vec<String> = list(case, "labels").iter().map(|l| l.as_str().unwrap_or("").to_owned()).collect();
    let found = MenuFilter::new(search).filter(&labels);
    let rows: Vec<Row> = found
        .iter()
        .map(|c| (c.object.field().to_owned(), c.tokenize().into_iter().map(|t| (t.text, t.is_match)).collect(), c.is_match()))
        .collect();
    let told = rows_ok(search, &labels, &rows, false)?;
    // what a client is sent of it
    LABELS.with(|l| *l.borrow_mut() = labels.clone());
    let mut menu = Menu::new("cmd", "title", provider);
    let cwd = std::path::PathBuf::from("/");
    menu.populate(&EditorInfo { session: "s", cwd: &cwd, buffers: &[], views: &[] });
    let params = menu.to_notification_params(search);
    eq(|| "menu".into(), (&*params.command, &*params.title, &*params.search), ("cmd", "title", search))?;
    let rows: Vec<Row> = params
        .entries
        .iter()
        .map(|e| {
            let label = e.value.split_once(':').map_or("", |x| x.1).to_owned();
            (label, e.text.iter().map(|t| (t.text.clone(), t.face == Face::Match)).collect(), true)
        })
        .collect();
    rows_ok(search, &labels, &rows, true)?;
    for e in &params.entries {
        let i = e.value.split_once(':').map_or("", |x| x.0);
        eq(|| format!("description of {}", e.value), e.description.clone(), Some(format!("d{}", i)))?;
    }
    Ok(told)
}

fn c12_small(f: &mut dyn FnMut(Value)) {
    for fill in [1, 100, 10_000, 10_488_046] {
        f(json!({"fill": fill}));
    }
    f(json!({"search": "ab ", "times": 40000, "labels": ["abab", "", "b"]}));
    let labels = words(&["a", "B", "/", "\n"], 4);
    for w in words(&["a", "b", " ", "/"], 3) {
        f(json!({"search": w, "labels": labels}));
    }
    for w in words(&["a", "(", ".", "*", " ", "\\", "[", "É"], 3) {
        f(json!({"search": w, "labels": ["a(b", "a.*b", "a*", "\\a.", "éa[", "(é)", "[É]", "", "a\n(", " "]}));
    }
}

fn c12_gen(r: &mut Rng, i: usize) -> Value {
    let bits = ["a", "b", "A", "ab", "é", "É", "/", ".", "*", "(", ")", "[", "\\", " ", "\t", "\n", "?", "+", "{", "|", "^", "$", "file", "日", "#", "-", "&", "~"];
    let word = |r: &mut Rng, k: usize| -> String { (0..r.below(k)).map(|_| *r.pick(&bits)).collect() };
    let tame = r.chance(1, 2);
    let bits2 = ["a", "b", "ab", "B", "/"];
    let some = |r: &mut Rng, k: usize| -> String { if tame { (0..r.below(k)).map(|_| *r.pick(&bits2)).collect() } else { word(r, k) } };
    let search: Vec<String> = (0..r.below(4)).map(|_| some(r, 4)).collect();
    let labels: Vec<String> = (0..r.below(4 + i % 20)).map(|_| some(r, 10)).collect();
    json!({"search": search.join(*r.pick(&[" ", "  ", "\t", " \n"])), "labels": labels})
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "small: every search of at most 3 symbols over two alphabets (letters, separators, characters special to patterns) against fixed sets of labels of up to 4 symbols, newlines included, a search of 120000 characters, and two labels with spans of up to ten million bytes that differ by one; random: searches of up to 3 words and up to 24 labels over 28 fragments. Compared with a naive in-order search. Non-trivial: a non-empty search that some of several entries match.",
        check: c12,
        small: c12_small,
        gen: c12_gen,
    }]
}
