//! C01, C02, C03: edit histories of a buffer against a plain byte string.
use crate::util::*;
use ced::editor::Buffer;
use serde_json::{json, Value};

/// A buffer holding exactly this text.
pub fn table(text: &str) -> Buffer {
    #[allow(unused_mut)]
    let mut b = Buffer::new_scratch("b".to_owned(), text.to_owned());
    if text.is_empty() {
        b.content.delete(&(0..1));
    }
    #[cfg(feature = "hooks")]
    {
        b.content = if text.is_empty() {
            ced::editor::verif::PieceTable::new()
        } else {
            ced::editor::verif::PieceTable::with_text(text.to_owned())
        };
    }
    b
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Ins,
    Del,
}

/// The reference: a plain byte string with its undo history.
pub struct Model {
    pub text: Vec<u8>,
    last: Option<Kind>,
    undos: Vec<Vec<u8>>,
    redos: Vec<Vec<u8>>,
}

impl Model {
    pub fn new(text: &str) -> Model {
        Model { text: text.as_bytes().to_vec(), last: None, undos: Vec::new(), redos: Vec::new() }
    }
    fn step(&mut self) {
        self.undos.push(self.text.clone());
        self.redos.clear();
    }
    fn kind(&mut self, k: Kind) {
        if self.last != Some(k) {
            self.step();
            self.last = Some(k);
        }
    }
    fn insert(&mut self, o: usize, t: &str) {
        let at = o.min(self.text.len());
        self.text.splice(at..at, t.bytes());
    }
    fn delete(&mut self, o: usize, n: usize) {
        let from = o.min(self.text.len());
        let to = (o + n).min(self.text.len());
        self.text.drain(from..to);
    }
    /// The closest character boundary at or before the offset.
    fn boundary(&self, o: usize) -> usize {
        let mut o = o;
        while o > 0 && o < self.text.len() && (self.text[o] & 0xC0) == 0x80 {
            o -= 1;
        }
        o
    }
    pub fn lossy(&self) -> String {
        String::from_utf8_lossy(&self.text).into_owned()
    }
    pub fn lines(&self) -> Vec<Vec<u8>> {
        let mut ls: Vec<Vec<u8>> = self.text.split(|&b| b == b'\n').map(|l| l.to_vec()).collect();
        if ls.len() > 1 && self.text.last() == Some(&b'\n') {
            ls.pop();
        }
        ls
    }
    pub fn newlines(&self) -> Vec<usize> {
        (0..self.text.len()).filter(|&i| self.text[i] == b'\n').collect()
    }
}

/// Applies one operation to both; false when it is outside the property and was skipped.
pub fn apply(b: &mut Buffer, m: &mut Model, op: &Value, history: bool) -> Result<bool, String> {
    let (o, k) = (n(op, "o"), n(op, "n"));
    let t = s(op, "t").to_owned();
    match s(op, "k") {
        "append" => {
            if !t.is_empty() {
                m.kind(Kind::Ins);
            }
            m.insert(usize::MAX, &t);
            b.content.append(t);
        }
        "insert" => {
            let at = m.boundary(o);
            if !t.is_empty() {
                m.kind(Kind::Ins);
            }
            m.insert(at, &t);
            b.content.insert(at, t);
        }
        "delete" => {
            if history && o >= m.text.len() {
                // whether removing nothing is a step is not settled by the property
                return Ok(false);
            }
            if k > 0 {
                m.kind(Kind::Del);
            }
            m.delete(o, k);
            b.content.delete(&(o..o + k));
        }
        #[cfg(feature = "hooks")]
        "replace" => {
            let at = m.boundary(o);
            m.step();
            m.last = None;
            m.delete(at, k);
            m.insert(at, &t);
            b.content.replace(ced::editor::verif::OffsetRange::new(at, k), t);
        }
        "sync" => {
            if std::str::from_utf8(&m.text).is_err() || m.text.len() * t.len() > 40_000 {
                return Ok(false);
            }
            m.step();
            m.last = None;
            m.text = t.as_bytes().to_vec();
            b.content.apply_diff(&t);
        }
        #[cfg(feature = "hooks")]
        "undo" if history => {
            let want = m.undos.pop();
            let had = want.is_some();
            if let Some(t) = want {
                m.redos.push(std::mem::replace(&mut m.text, t));
                m.last = None;
            }
            eq(|| "undo reports".to_owned(), b.content.verif_undo(), had)?;
        }
        #[cfg(feature = "hooks")]
        "redo" if history => {
            let want = m.redos.pop();
            let had = want.is_some();
            if let Some(t) = want {
                m.undos.push(std::mem::replace(&mut m.text, t));
                m.last = None;
            }
            eq(|| "redo reports".to_owned(), b.content.verif_redo(), had)?;
        }
        _ => return Ok(false),
    }
    Ok(true)
}

fn queries_c01(b: &Buffer, m: &Model) -> Result<(), String> {
    let len = m.text.len();
    eq(|| "text".to_owned(), b.content.text(), m.lossy())?;
    eq(|| "len".to_owned(), b.content.len(), len)?;
    eq(|| "is_empty".to_owned(), b.content.is_empty(), len == 0)?;
    let points: Vec<usize> = if len <= 12 {
        (0..len + 2).collect()
    } else {
        let mut p: Vec<usize> = (0..6).collect();
        p.extend([len / 3, len / 2, len / 2 + 1, 2 * len / 3, len - 2, len - 1, len, len + 1, len + 7]);
        p.sort_unstable();
        p
    };
    for (i, &x) in points.iter().enumerate() {
        for &y in &points[i..] {
            let want = if x >= len {
                String::new()
            } else {
                String::from_utf8_lossy(&m.text[x..y.min(len)]).into_owned()
            };
            let got = b.content.text_range(&(x..y));
            eq(|| format!("text_range({}..{})", x, y), got.unwrap_or_default(), want)?;
        }
    }
    Ok(())
}

fn queries_c03(b: &Buffer, m: &Model) -> Result<(), String> {
    #[cfg(feature = "hooks")]
    eq(|| "newlines".to_owned(), b.content.verif_newlines(), m.newlines())?;
    let lines = m.lines();
    eq(|| "line_count".to_owned(), b.content.line_count(), lines.len())?;
    for i in 0..lines.len() + 3 {
        let want = if i == 0 { None } else { lines.get(i - 1) };
        eq(|| format!("line_bytes({})", i), b.content.line_bytes(i), want.cloned())?;
        eq(
            || format!("line_text({})", i),
            b.content.line_text(i),
            want.map(|l| String::from_utf8_lossy(l).into_owned()),
        )?;
        if let Some(l) = want {
            eq(|| format!("line_length({})", i), b.content.line_length(i), l.len())?;
        }
    }
    let max = lines.iter().map(|l| l.len()).max().unwrap_or(0);
    let want = if max == 0 { (0, 0) } else { (1 + lines.iter().position(|l| l.len() == max).unwrap(), max) };
    let got = b.content.longest_line();
    eq(|| "longest_line".to_owned(), if got.1 == 0 { (0, 0) } else { got }, want)?;
    Ok(())
}

fn exec(case: &Value, history: bool, after: &dyn Fn(&Buffer, &Model) -> Result<(), String>) -> Outcome {
    let text = s(case, "text");
    let (mut b, mut m) = (table(text), Model::new(text));
    after(&b, &m).map_err(|e| format!("initially: {}", e))?;
    let mut done = 0;
    for (i, op) in list(case, "ops").iter().enumerate() {
        if apply(&mut b, &mut m, op, history).map_err(|e| format!("op {} {}: {}", i, op, e))? {
            done += 1;
            after(&b, &m).map_err(|e| format!("after op {} {}: {}", i, op, e))?;
        }
    }
    Ok(done >= 2)
}

fn c01(case: &Value) -> Outcome {
    // removing nothing may or may not count as a step, so histories with such a deletion
    // are observed without undo and redo
    let odd = list(case, "ops").iter().any(|op| s(op, "k") == "delete" && op["odd"] == json!(true));
    exec(case, !odd, &queries_c01)
}

fn c02(case: &Value) -> Outcome {
    exec(case, true, &|b, m| {
        eq(|| "text".to_owned(), b.content.text(), m.lossy())?;
        eq(|| "len".to_owned(), b.content.len(), m.text.len())?;
        queries_c03(b, m)?;
        if m.text.len() <= 40 && std::str::from_utf8(&m.text).is_ok() {
            let fresh = table(&m.lossy());
            for o in 0..m.text.len() + 2 {
                let (x, y) = (b.content.offset_to_coord(o), fresh.content.offset_to_coord(o));
                eq(|| format!("offset_to_coord({}) differs from a fresh buffer's", o), x, y)?;
            }
        }
        Ok(())
    })
}

fn c03(case: &Value) -> Outcome {
    exec(case, true, &queries_c03)
}

fn small_ops(len: usize, undo: bool) -> Vec<Value> {
    let mut ops = Vec::new();
    for t in ["a", "\n", "é", "b\nc"] {
        ops.push(json!({"k": "append", "t": t}));
        for o in 0..=len {
            ops.push(json!({"k": "insert", "o": o, "t": t}));
        }
    }
    for o in 0..len {
        for k in 0..=(len + 1 - o) {
            ops.push(json!({"k": "delete", "o": o, "n": k}));
        }
        ops.push(json!({"k": "replace", "o": o, "n": 1, "t": "z"}));
        ops.push(json!({"k": "replace", "o": o, "n": 2, "t": "y\n"}));
    }
    ops.push(json!({"k": "append", "t": ""}));
    ops.push(json!({"k": "delete", "o": len + 1, "n": 2, "odd": true}));
    if undo {
        ops.push(json!({"k": "undo"}));
        ops.push(json!({"k": "redo"}));
        ops.push(json!({"k": "sync", "t": "ab\n"}));
    }
    ops
}

fn small(f: &mut dyn FnMut(Value)) {
    for text in ["", "a", "\n", "a\nb", "é\n", "\n\nx"] {
        let ops = small_ops(3, true);
        for a in &ops {
            f(json!({"text": text, "ops": [a]}));
        }
        for a in &ops {
            for b in &ops {
                f(json!({"text": text, "ops": [a, b]}));
            }
        }
    }
    for text in ["ab", "a\n"] {
        let ops = small_ops(2, true);
        for a in &ops {
            for b in &ops {
                for c in &ops {
                    f(json!({"text": text, "ops": [a, b, c]}));
                }
            }
        }
    }
}

fn small_undo(f: &mut dyn FnMut(Value)) {
    let kinds = [
        json!({"k": "append", "t": "a\n"}),
        json!({"k": "insert", "o": 0, "t": "b"}),
        json!({"k": "insert", "o": 1, "t": ""}),
        json!({"k": "delete", "o": 0, "n": 1}),
        json!({"k": "delete", "o": 0, "n": 0}),
        json!({"k": "replace", "o": 0, "n": 1, "t": "c\n"}),
        json!({"k": "sync", "t": "x\ny"}),
        json!({"k": "undo"}),
        json!({"k": "redo"}),
    ];
    fn rec(kinds: &[Value], ops: &mut Vec<Value>, depth: usize, f: &mut dyn FnMut(Value)) {
        if depth == 0 {
            f(json!({"text": "m\nn", "ops": ops.clone()}));
            return;
        }
        for k in kinds {
            ops.push(k.clone());
            rec(kinds, ops, depth - 1, f);
            ops.pop();
        }
    }
    for d in 1..=5 {
        rec(&kinds, &mut Vec::new(), d, f);
    }
    small(f);
}

fn gen(r: &mut Rng, i: usize) -> Value {
    let t = text(r, 2 + i % 9);
    // an estimate of the length, so that most offsets fall inside the text
    let mut len = t.len();
    let mut ops = Vec::new();
    let count = 1 + r.below(6 + (i % 5) * 10);
    let bias = r.below(3);
    for _ in 0..count {
        let o = if r.chance(1, 8) { len + r.below(4) } else { r.below(len + 1) };
        let x = match r.below(match bias { 0 => 12, 1 => 16, _ => 20 }) {
            0 | 1 => 0,
            2..=5 => 1,
            6..=9 => 2,
            10 => 3,
            11 => 4,
            _ if bias == 2 && r.chance(1, 2) => 6,
            _ => 5,
        };
        match x {
            0 => {
                let t = text(r, 3);
                len += t.len();
                ops.push(json!({"k": "append", "t": t}));
            }
            1 => {
                let t = text(r, 3);
                len += t.len();
                ops.push(json!({"k": "insert", "o": o, "t": t}));
            }
            2 => {
                let k = if r.chance(1, 10) { len + 2 } else { r.below(1 + (len + 2 - o.min(len)).min(1 + len / 2)) };
                if o < len {
                    len -= k.min(len - o);
                }
                ops.push(json!({"k": "delete", "o": o, "n": k, "odd": o >= len}));
            }
            3 => {
                let t = text(r, 3);
                let k = r.below(5);
                len = (len + t.len()).saturating_sub(k);
                ops.push(json!({"k": "replace", "o": o, "n": k, "t": t}));
            }
            4 => {
                let t = text(r, 6);
                len = t.len();
                ops.push(json!({"k": "sync", "t": t}));
            }
            5 => ops.push(json!({"k": "undo"})),
            _ => ops.push(json!({"k": "redo"})),
        }
    }
    json!({"text": t, "ops": ops})
}

const RULE: &str = "an initial text and a list of edits, undos and redos run on the real buffer and on a plain byte string, every query compared after every operation; non-trivial when at least two operations were executed";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: RULE, check: c01, small, gen },
        Prop { id: "C02", rule: RULE, check: c02, small: small_undo, gen },
        Prop { id: "C03", rule: RULE, check: c03, small, gen },
    ]
}
