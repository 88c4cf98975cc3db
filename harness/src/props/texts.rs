//! C04, C05, C06: synchronizing texts, coordinates, cursor motions.
use super::parts::graphemes;
use crate::util::*;
use ced::editor::{Buffer, Coords};
use serde_json::{json, Value};

/// A buffer holding the text, put together by edits when there are cuts.
fn built(case: &Value) -> Buffer {
    let t = s(case, "text");
    let cut = n(case, "cut");
    let at = (0..=cut.min(t.len())).rev().find(|&i| t.is_char_boundary(i)).unwrap();
    if at == 0 {
        return super::history::table(t);
    }
    let mut b = super::history::table(&t[at..]);
    b.content.append("\ntail".to_owned());
    b.content.insert(0, "#\n".to_owned());
    b.content.insert(0, t[..at].to_owned());
    b.content.delete(&(at..at + 2));
    b.content.delete(&(t.len()..t.len() + 5));
    b
}

// ---- C04 -------------------------------------------------------------------

#[cfg(feature = "hooks")]
fn script(left: &str, right: &str) -> Result<(), String> {
    use ced::editor::verif::{diff, Diff};
    let (l, r) = (left.as_bytes(), right.as_bytes());
    let (mut i, mut j) = (0, 0);
    let ds = diff(left, right);
    for d in &ds {
        match d {
            Diff::Left(k) => i += k,
            Diff::Right(k) => j += k,
            Diff::Both(k) => {
                ensure(i + k <= l.len() && j + k <= r.len() && l[i..i + k] == r[j..j + k], || {
                    format!("{:?} keeps different bytes at {} and {}", ds, i, j)
                })?;
                i += k;
                j += k;
            }
        }
    }
    eq(|| format!("bytes consumed and produced by {:?}", ds), (i, j), (l.len(), r.len()))
}

#[cfg(not(feature = "hooks"))]
fn script(_: &str, _: &str) -> Result<(), String> {
    Ok(())
}

fn c04(case: &Value) -> Outcome {
    let (left, right) = (s(case, "text"), s(case, "right"));
    if left.len() * right.len() > 200_000 {
        return Ok(false);
    }
    script(left, right)?;
    let mut b = built(case);
    eq(|| "text to begin with".into(), b.content.text(), left.to_owned())?;
    b.content.apply_diff(right);
    eq(|| "text after synchronizing".into(), b.content.text(), right.to_owned())?;
    eq(|| "length after synchronizing".into(), b.content.len(), right.len())?;
    #[cfg(feature = "hooks")]
    {
        eq(|| "undo reports".into(), b.content.verif_undo(), true)?;
        eq(|| "text after one undo".into(), b.content.text(), left.to_owned())?;
        eq(|| "redo reports".into(), b.content.verif_redo(), true)?;
        eq(|| "text after redo".into(), b.content.text(), right.to_owned())?;
        // the step ends with the synchronization, whatever comes next
        for next in 0..3 {
            let mut b = built(case);
            b.content.apply_diff(right);
            match next {
                0 => b.content.insert(0, "+".into()),
                1 => b.content.delete(&(0..1)),
                _ => b.content.apply_diff(left),
            }
            if next == 1 && right.is_empty() {
                continue;
            }
            eq(|| format!("undo of edit {} after synchronizing reports", next), b.content.verif_undo(), true)?;
            eq(|| format!("text after undoing edit {} after synchronizing", next), b.content.text(), right.to_owned())?;
            eq(|| "undo reports".into(), b.content.verif_undo(), true)?;
            eq(|| "text after two undos".into(), b.content.text(), left.to_owned())?;
        }
    }
    Ok(left != right)
}

fn c04_small(f: &mut dyn FnMut(Value)) {
    let ws = words(&["a", "b"], 5);
    for l in &ws {
        for r in &ws {
            f(json!({"text": l, "right": r}));
        }
    }
    let ws = words(&["é", "è", "\n", "c"], 3);
    for l in &ws {
        for r in &ws {
            f(json!({"text": l, "right": r, "cut": 2}));
        }
    }
    let ws = words(&["a", "b", "c"], 4);
    for l in &ws {
        for r in &ws {
            f(json!({"text": l, "right": r, "cut": 1}));
        }
    }
}

fn c04_gen(r: &mut Rng, i: usize) -> Value {
    let left = text(r, 3 + i % 60);
    let mut right = left.clone();
    if r.chance(1, 6) {
        right = text(r, 3 + i % 60);
    } else {
        for _ in 0..1 + r.below(5) {
            let cs: Vec<char> = right.chars().collect();
            let a = r.below(cs.len() + 1);
            let b = (a + r.below(6)).min(cs.len());
            let mid = if r.chance(1, 2) { text(r, 3) } else { String::new() };
            right = cs[..a].iter().collect::<String>() + &mid + &cs[b..].iter().collect::<String>();
        }
    }
    json!({"text": left, "right": right, "cut": r.below(left.len() + 1)})
}

// ---- C05 -------------------------------------------------------------------

/// Line, column, start and length of every place, and whether it is a line feed.
fn places(t: &str) -> Vec<(usize, usize, usize, usize)> {
    let (mut l, mut c) = (1, 1);
    let mut all = Vec::new();
    for (at, len) in graphemes(t) {
        all.push((l, c, at, len));
        if &t[at..at + len] == "\n" {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    all
}

/// Where the motion (in the order of `core::MOVES`) leads from the offset, and the column remembered then.
#[allow(dead_code)]
pub fn motion(t: &str, which: usize, from: usize, col: usize) -> (usize, usize) {
    let ps = places(t);
    let here = ps.iter().rposition(|p| p.2 <= from).unwrap_or(0);
    let Some(&(l, c, _, _)) = ps.get(here) else { return (0, if which < 2 { col } else { 1 }) };
    let lines = ps[ps.len() - 1].0;
    let is_lf = |p: &(usize, usize, usize, usize)| &t[p.2..p.2 + p.3] == "\n";
    let on = |line: usize, c: usize| {
        let all: Vec<_> = ps.iter().filter(|p| p.0 == line).collect();
        let p = all.iter().rev().find(|p| p.1 <= c).unwrap_or(&all[0]);
        ps.iter().position(|q| q == *p).unwrap()
    };
    let (to, col) = match which {
        0 if here > 0 => (here - 1, ps[here - 1].1),
        1 if here + 1 < ps.len() => (here + 1, ps[here + 1].1),
        2 if l > 1 => (on(l - 1, col), col),
        3 if l < lines => (on(l + 1, col), col),
        0..=3 => (here, col),
        4 => (on(l, 1), 1),
        5 => {
            // the last grapheme, or the line feed of an empty line
            let p = ps.iter().rposition(|p| p.0 == l && (!is_lf(p) || p.1 == 1)).unwrap();
            (p, ps[p].1)
        }
        6 => (0, 1),
        _ => (ps.len() - 1, ps[ps.len() - 1].1),
    };
    let _ = c;
    (ps[to].2, col)
}

fn lc(p: Option<Coords>) -> Option<(usize, usize)> {
    p.map(|p| (p.l, p.c))
}

fn c05(case: &Value) -> Outcome {
    let t = s(case, "text");
    let b = built(case);
    let ps = places(t);
    let lines = t.matches('\n').count() + usize::from(!t.ends_with('\n'));
    for o in 0..=t.len() + 2 {
        let want = if o == 0 { Some((1, 1)) } else { ps.iter().find(|p| p.2 <= o && o < p.2 + p.3).map(|p| (p.0, p.1)) };
        eq(|| format!("coordinates of offset {}", o), lc(b.content.offset_to_coord(o)), want)?;
    }
    for l in 1..=lines + 2 {
        let on: Vec<_> = ps.iter().filter(|p| p.0 == l).collect();
        let ended = on.last().map_or(false, |p| &t[p.2..p.2 + p.3] == "\n");
        for c in 0..=on.len() + 3 {
            let mut want = on.iter().find(|p| p.1 == c).map(|p| p.2);
            if l == lines && !ended && c == on.len() + 1 {
                want = Some(t.len());
            }
            eq(|| format!("offset of ({}, {})", l, c), b.content.coord_to_offset(Coords { l, c }), want)?;
        }
    }
    for &(l, c, at, _) in &ps {
        eq(|| format!("offset {} there and back", at), b.content.offset_to_coord(at).and_then(|p| b.content.coord_to_offset(p)), Some(at))?;
        eq(|| format!("({}, {}) there and back", l, c), b.content.coord_to_offset(Coords { l, c }).and_then(|o| lc(b.content.offset_to_coord(o))), Some((l, c)))?;
    }
    for &(_, _, at, len) in &ps {
        eq(|| format!("character at {}", at), b.content.char_at_offset(at), Some(t[at..at + len].to_owned()))?;
    }
    eq(|| "last coordinates".into(), lc(Some(b.content.max_coord())), ps.last().map(|p| (p.0, p.1)).or(Some((1, 1))))?;
    Ok(ps.len() > 1)
}

const SMALL: &[&str] = &["a", "\n", "é", "e\u{301}"];

fn c05_small(f: &mut dyn FnMut(Value)) {
    for t in words(SMALL, 5) {
        f(json!({"text": t}));
    }
    for t in words(&["a", "\n", "é"], 4) {
        for cut in 1..=t.len() {
            f(json!({"text": t, "cut": cut}));
        }
    }
}

fn c05_gen(r: &mut Rng, i: usize) -> Value {
    let t = text(r, 3 + i % 40);
    let cut = if r.chance(1, 2) { 0 } else { r.below(t.len() + 1) };
    json!({"text": t, "cut": cut})
}

// ---- C06 -------------------------------------------------------------------

const MOVES: &[&str] = &["next", "previous", "next_line", "previous_line", "line_begin", "line_end", "begin", "end"];

fn c06(case: &Value) -> Outcome {
    let t = s(case, "text");
    let b = built(case);
    let ps = places(t);
    let count = |l: usize| ps.iter().filter(|p| p.0 == l && &t[p.2..p.2 + p.3] != "\n").count();
    let ended = |l: usize| ps.iter().any(|p| p.0 == l && &t[p.2..p.2 + p.3] == "\n");
    let lines = t.matches('\n').count() + usize::from(!t.ends_with('\n'));
    let last = |l: usize| if ended(l) { count(l) + 1 } else { count(l).max(1) };
    let at = n(case, "at");
    let (mut l, mut c) = ps.get(at % ps.len().max(1)).map_or((1, 1), |p| (p.0, p.1));
    let mut nv = b.content.navigate(Coords { l, c }).ok_or("no navigator at an existing position")?;
    let mut target = c;
    let mut moved = false;
    for m in list(case, "moves") {
        let m = m.as_str().unwrap_or("");
        let before = (l, c);
        match m {
            "next" => {
                nv.next();
                if c < last(l) {
                    c += 1;
                } else if l < lines {
                    l += 1;
                    c = 1;
                }
                if before != (l, c) {
                    target = c;
                }
            }
            "previous" => {
                nv.previous();
                if c > 1 {
                    c -= 1;
                } else if l > 1 {
                    l -= 1;
                    c = count(l) + 1;
                }
                if before != (l, c) {
                    target = c;
                }
            }
            "next_line" => {
                nv.next_line();
                if l < lines {
                    l += 1;
                    c = target.min(last(l));
                }
            }
            "previous_line" => {
                nv.previous_line();
                if l > 1 {
                    l -= 1;
                    c = target.min(last(l));
                }
            }
            "line_begin" => {
                nv.line_begin();
                c = 1;
                target = c;
            }
            "line_end" => {
                nv.line_end();
                c = count(l).max(1);
                target = c;
            }
            "begin" => {
                nv.begin();
                l = 1;
                c = 1;
                target = c;
            }
            "end" => {
                nv.end();
                let p = ps.last().map_or((1, 1), |p| (p.0, p.1));
                l = p.0;
                c = p.1;
                target = c;
            }
            _ => return Ok(false),
        }
        moved |= before != (l, c);
        let p = nv.pos();
        eq(|| format!("position after {} from {:?}", m, before), (p.coords.l, p.coords.c), (l, c))?;
        let off = ps.iter().find(|p| p.0 == l && p.1 == c).map_or(0, |p| p.2);
        eq(|| format!("offset after {} from {:?}", m, before), p.offset, off)?;
        eq(|| format!("grapheme after {} from {:?}", m, before), p.grapheme, ps.iter().find(|p| p.0 == l && p.1 == c).map(|p| t[p.2..p.2 + p.3].to_owned()))?;
        eq(|| "at end".into(), nv.is_at_end(), (l, c) == ps.last().map_or((1, 1), |p| (p.0, p.1)))?;
    }
    Ok(moved)
}

fn c06_small(f: &mut dyn FnMut(Value)) {
    for t in words(&["a", "\n", "é"], 4) {
        let k = graphemes(&t).len().max(1);
        for at in 0..k {
            for a in MOVES {
                for b in MOVES {
                    f(json!({"text": t, "at": at, "moves": [a, b]}));
                }
            }
        }
    }
    for t in ["ab\n\nabc\na", "a\nabcd\n", "e\u{301}éx\n\n🦊\nabc"] {
        let k = graphemes(t).len();
        for at in 0..k {
            for a in MOVES {
                for b in MOVES {
                    for c in MOVES {
                        f(json!({"text": t, "at": at, "moves": [a, b, c]}));
                    }
                }
            }
        }
    }
}

fn c06_gen(r: &mut Rng, i: usize) -> Value {
    let mut t = text(r, 3 + i % 30);
    if r.chance(1, 3) {
        t = t.replace("a", "\n");
    }
    let moves: Vec<_> = (0..1 + r.below(25)).map(|_| if r.chance(1, 2) { *r.pick(&["next_line", "previous_line", "next", "previous"]) } else { *r.pick(MOVES) }).collect();
    let cut = if r.chance(1, 2) { 0 } else { r.below(t.len() + 1) };
    json!({"text": t, "cut": cut, "at": r.below(50), "moves": moves})
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", rule: "pairs of texts, the first put together by edits; non-trivial when they differ", check: c04, small: c04_small, gen: c04_gen },
        Prop { id: "C05", rule: "texts, every offset and every coordinate of each; non-trivial with two places or more", check: c05, small: c05_small, gen: c05_gen },
        Prop { id: "C06", rule: "texts, a starting place and a list of motions; non-trivial when one moves", check: c06, small: c06_small, gen: c06_gen },
    ]
}
