//! C26, C27: a model of who looks at what, and of what each client has selected there.
use crate::props::parts::graphemes;
use crate::props::texts::motion;
use crate::util::*;
use ced::editor::verif::State;
use std::collections::BTreeMap;

/// buffers, and how many lenses show each
pub type Shown = BTreeMap<String, usize>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sel {
    pub anchor: usize,
    pub cursor: usize,
    col: usize,
}

const FRESH: Sel = Sel { anchor: 0, cursor: 0, col: 1 };

#[derive(Clone, Debug)]
pub struct Who {
    pub id: usize,
    pub view: Shown,
    pub sels: BTreeMap<String, BTreeMap<String, Sel>>,
}

pub struct Model {
    /// in the order in which they came
    pub clients: Vec<Who>,
    /// the one made last first
    pub views: Vec<Shown>,
}

pub fn key(v: &Shown) -> String {
    let parts: Vec<String> = v.iter().map(|(b, n)| format!("{}{{{}}}", b.replace('{', "{{"), vec!["*"; *n].join(","))).collect();
    parts.join("|")
}

fn only(b: &str) -> Shown {
    Shown::from([(b.to_string(), 1)])
}

fn text<'a>(s: &'a State, b: &str) -> Option<&'a str> {
    s.buffers.iter().find(|x| x.0 == b).map(|x| x.1.as_str())
}

/// the bytes a selection covers
fn covered(t: &str, s: &Sel) -> (usize, usize) {
    let (lo, hi) = (s.anchor.min(s.cursor), s.anchor.max(s.cursor));
    (lo, hi + graphemes(&t[hi..]).first().map_or(0, |g| g.1))
}

/// the end of a selection after its text has changed
fn kept(t: &str, at: usize) -> usize {
    let at = at.min(t.len().saturating_sub(1));
    graphemes(t).iter().rev().find(|g| g.0 <= at).map_or(0, |g| g.0)
}

impl Model {
    pub fn new() -> Model {
        Model { clients: vec![], views: vec![Shown::from([("*debug*".to_string(), 1), ("*scratch*".to_string(), 1)])] }
    }

    pub fn join(&mut self, id: usize) {
        let mut me = match self.clients.last() {
            Some(c) => c.clone(),
            None => Who {
                id,
                view: self.views[0].clone(),
                sels: self.views.iter().map(|v| (key(v), v.keys().map(|b| (b.clone(), FRESH)).collect())).collect(),
            },
        };
        me.id = id;
        self.clients.push(me);
    }

    pub fn leave(&mut self, id: usize) {
        self.clients.retain(|c| c.id != id);
    }

    fn me(&mut self, id: usize) -> &mut Who {
        self.clients.iter_mut().find(|c| c.id == id).expect("client of the model")
    }

    fn add(&mut self, v: &Shown) {
        self.views.retain(|w| w != v);
        self.views.insert(0, v.clone());
        for c in &mut self.clients {
            let sels = c.sels.entry(key(v)).or_default();
            for b in v.keys() {
                sels.entry(b.clone()).or_insert(FRESH);
            }
        }
    }

    fn delete(&mut self, v: &Shown) {
        self.views.retain(|w| w != v);
        for c in &mut self.clients {
            c.sels.remove(&key(v));
        }
        if self.views.is_empty() {
            self.add(&only("*scratch*"));
        }
        for c in &mut self.clients {
            if c.view == *v {
                c.view = self.views[0].clone();
            }
        }
    }

    fn modify(&mut self, id: usize, f: impl Fn(&mut Shown)) {
        let old = self.me(id).view.clone();
        let mut new = old.clone();
        f(&mut new);
        if new == old {
            return;
        }
        if !new.is_empty() {
            for c in &mut self.clients {
                if let Some(mut s) = c.sels.remove(&key(&old)) {
                    if c.view == old || !c.sels.contains_key(&key(&new)) {
                        s.retain(|b, _| new.contains_key(b));
                        c.sels.insert(key(&new), s);
                    }
                }
            }
            self.add(&new);
        }
        self.delete(&old);
    }

    fn look(&mut self, id: usize, name: &str, before: &State) -> bool {
        let v = match self.views.iter().find(|v| key(v) == name) {
            Some(v) => v.clone(),
            None if text(before, name).is_some() => only(name),
            None => return false,
        };
        if !self.views.contains(&v) {
            self.add(&v);
        }
        self.me(id).view = v;
        true
    }

    /// the ends of selections in a buffer whose text is another one now
    fn clamp(&mut self, b: &str, t: &str) {
        for c in &mut self.clients {
            for s in c.sels.values_mut().filter_map(|v| v.get_mut(b)) {
                s.anchor = kept(t, s.anchor);
                s.cursor = kept(t, s.cursor);
            }
        }
    }

    /// What the request does; `name` is the buffer or view it names. The answer is what the client is
    /// handed, where it is handed something.
    pub fn apply(&mut self, kind: &str, name: &str, how: (usize, bool), filled: &str, before: &State, after: &State, id: usize, refused: bool) -> Result<Vec<String>, String> {
        let exists = text(before, name).is_some();
        let mut wanted = Some(false);
        let mut answer = vec![];
        match kind {
            "edit" => {
                wanted = None;
                if !refused {
                    if let Some(t) = text(after, name) {
                        self.clamp(name, t);
                    }
                    self.add(&only(name));
                    self.me(id).view = only(name);
                }
            }
            "new" => {
                self.clamp(name, if filled.is_empty() { "\n" } else { filled });
                self.add(&only(name));
                self.me(id).view = only(name);
            }
            "view" | "goto" => wanted = Some(!self.look(id, name, before)),
            "delete" => {
                let v = self.me(id).view.clone();
                self.delete(&v);
            }
            "add" | "remove" if !exists => wanted = Some(true),
            "add" => self.modify(id, |v| *v.entry(name.to_string()).or_insert(0) += 1),
            "remove" => self.modify(id, |v| {
                v.remove(name);
            }),
            "move" => {
                let me = self.me(id);
                for (b, s) in me.sels.get_mut(&key(&me.view)).into_iter().flatten() {
                    let t = text(before, b).unwrap_or("");
                    if t.len() == 1 {
                        continue;
                    }
                    let (at, col) = motion(t, how.0, s.cursor, s.col);
                    *s = Sel { anchor: if how.1 { s.anchor } else { at }, cursor: at, col };
                }
            }
            "cut" => {
                let me = self.me(id).clone();
                let sels = me.sels[&key(&me.view)].clone();
                for (b, s) in &sels {
                    let t = text(before, b).unwrap_or("");
                    if !t.is_empty() {
                        let (from, to) = covered(t, s);
                        answer.push(t[from..to].to_string());
                        let left = t[..from].to_string() + &t[to..];
                        self.clamp(b, if left.is_empty() { "\n" } else { &left });
                    }
                }
                answer.sort();
            }
            "context" => {
                let me = self.me(id).clone();
                answer.push(key(&me.view));
                for (b, s) in &me.sels[&key(&me.view)] {
                    let t = text(before, b).unwrap_or("");
                    let at = |o: usize| {
                        let line = t[..o].rfind('\n').map_or(0, |i| i + 1);
                        format!("{} {} {}", o, t[..o].matches('\n').count() + 1, graphemes(&t[line..o]).len() + 1)
                    };
                    let (from, to) = covered(t, s);
                    answer.push(b.clone());
                    answer.push(format!("{} {}", at(s.anchor), at(s.cursor)));
                    answer.push(t[from..to].to_string());
                }
            }
            _ => wanted = None,
        }
        if let Some(w) = wanted {
            eq(|| format!("refusal of {} {:?}", kind, name), refused, w)?;
        }
        Ok(answer)
    }

    pub fn looks(&self, s: &State) -> Result<(), String> {
        let mut want: Vec<(String, Vec<String>)> = self.views.iter().map(|v| (key(v), v.keys().cloned().collect())).collect();
        let mut got: Vec<(String, Vec<String>)> = s.views.iter().map(|v| (v.0.clone(), v.2.clone())).collect();
        want.sort();
        got.sort();
        eq(|| "views".to_string(), got, want)?;
        let got: Vec<(usize, String)> = s.clients.iter().map(|c| (c.id, c.view.clone())).collect();
        let mut want: Vec<(usize, String)> = self.clients.iter().map(|c| (c.id, key(&c.view))).collect();
        want.sort();
        eq(|| "what each client looks at".to_string(), got, want)
    }

    pub fn selections(&self, s: &State) -> Result<(), String> {
        for c in &self.clients {
            let d = s.clients.iter().find(|d| d.id == c.id).ok_or_else(|| format!("client {} is gone", c.id))?;
            let mut got = d.selections.clone();
            let mut want: Vec<(String, String, Vec<(usize, usize)>)> = vec![];
            for (v, bs) in &c.sels {
                want.extend(bs.iter().map(|(b, s)| (v.clone(), b.clone(), vec![(s.anchor, s.cursor)])));
            }
            got.sort();
            want.sort();
            for (g, w) in got.iter().zip(&want) {
                eq(|| format!("selections (view, buffer, anchor and cursor) of client {}", c.id), g, w)?;
            }
            eq(|| format!("number of selections of client {}", c.id), got.len(), want.len())?;
        }
        Ok(())
    }
}
