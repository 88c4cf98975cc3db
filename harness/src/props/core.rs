//! C09, C24, C25: clients, views and buffers after any history of requests.
use crate::props::editor::scratch;
use crate::util::*;
use ced::editor::Editor;
use ced_remote::jsonrpc::Response;
use serde_json::{json, Value};

/// files come first; the other names are only scratch buffers, some of them made to mix up view names
const FILES: &[&str] = &["f0", "f1", "f2"];
const NAMES: &[&str] = &[
    "f0", "f1", "f2", "a", "b", "a{*}|b", "a{*,*}", "", "{*}", "*debug*", "*scratch*", "\\", "a\\{*}|b", "é|", "a{*}|b{*}",
    "*messages*", "*errors*",
];
const TEXTS: &[&str] = &[
    "", "\n", "a", "one\ntwo\n", "né\tà\n\nfin", "e\u{301}\n🇫🇷🇫🇷\nx", "\r\n\r\n", "1\n2\n3\n4\n5\n6\n", "\u{301}\n", "aaaa\naaaa\nbbbb", "one\r",
];
const MOVES: &[&str] = &[
    "move_left", "move_right", "move_up", "move_down", "move_to_line_begin", "move_to_line_end", "move_to_begin", "move_to_end",
];
const KEYS: &[&str] = &["h", "j", "k", "l", "s-h", "s-j", "s-k", "s-l", "d", "g", "s-g", "i", "esc", "m", "e", "z"];

fn name(v: &Value) -> &'static str {
    NAMES[v.as_u64().unwrap_or(0) as usize % NAMES.len()]
}

fn idx(v: &Value, n: usize) -> usize {
    v.as_u64().unwrap_or(0) as usize % n
}

#[cfg(feature = "hooks")]
mod state {
    use super::*;
    use ced::editor::verif::State;

    const LOGS: &[&str] = &["*debug*", "*messages*", "*errors*"];

    pub fn consistent(ed: &Editor, clients: &[usize]) -> Result<(), String> {
        let s = ed.verif_state();
        let known: Vec<usize> = s.clients.iter().map(|c| c.id).collect();
        eq(|| "clients".to_string(), known.as_slice(), clients)?;
        ensure(!s.views.is_empty(), || "no view is left".to_string())?;
        for (key, own, shown) in &s.views {
            eq(|| "name a view is known by".to_string(), key, own)?;
            ensure(!shown.is_empty(), || format!("view {:?} shows nothing", key))?;
            for b in shown {
                ensure(s.buffers.iter().any(|x| x.0 == *b), || format!("view {:?} shows the missing buffer {:?}", key, b))?;
            }
        }
        for c in &s.clients {
            ensure(s.views.iter().any(|v| v.0 == c.view), || {
                format!("client {} looks at {:?}, which is none of {:?}", c.id, c.view, s.views)
            })?;
            let mut got: Vec<(String, String)> = c.selections.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
            let mut want: Vec<(String, String)> = Vec::new();
            for (key, _, shown) in &s.views {
                want.extend(shown.iter().map(|b| (key.clone(), b.clone())));
            }
            got.sort();
            want.sort();
            eq(|| format!("views and buffers client {} has selections for", c.id), got, want)?;
            for (view, buffer, sels) in &c.selections {
                let text = &s.buffers.iter().find(|b| b.0 == *buffer).unwrap().1;
                ensure(!sels.is_empty(), || format!("client {} has no selection in {:?} of {:?}", c.id, buffer, view))?;
                for (a, b) in sels {
                    let inside = |o: usize| (o < text.len() || o == 0) && text.is_char_boundary(o);
                    ensure(inside(*a) && inside(*b), || {
                        format!("client {} selects {}..{} of the {} bytes of {:?} in {:?}", c.id, a, b, text.len(), buffer, view)
                    })?;
                }
            }
        }
        Ok(())
    }

    pub fn snap(ed: &Editor) -> State {
        ed.verif_state()
    }

    fn shown(s: &State, buffer: &str) -> bool {
        s.views.iter().any(|v| v.2.iter().any(|b| b == buffer))
    }

    /// what the request may have done to views and buffers, given the states around it
    pub fn effect(op: &Value, before: &State, after: &State, who: usize, answer: Option<&Response>) -> Result<(), String> {
        let failed = match answer {
            Some(r) => r.result::<Value>().map_err(|e| e.to_string())?.is_err(),
            None => false,
        };
        let quiet = |s: &State| {
            let bs: Vec<_> = s.buffers.iter().filter(|b| !LOGS.contains(&b.0.as_str())).cloned().collect();
            (s.clients.clone(), bs, s.views.clone())
        };
        if failed {
            return eq(|| format!("clients, buffers and views after the refused {}", op), quiet(after), quiet(before));
        }
        // a buffer whose last view was deleted is gone, and no other one is
        for (b, _) in &before.buffers {
            let here = after.buffers.iter().any(|x| x.0 == *b);
            if LOGS.contains(&b.as_str()) || b == "*scratch*" {
                continue;
            }
            let lost = shown(before, b) && !shown(after, b);
            ensure(here != lost, || format!("buffer {:?} after {}: shown {} then {}, kept {}", b, op, shown(before, b), shown(after, b), here))?;
        }
        for c in &before.clients {
            match after.clients.iter().find(|d| d.id == c.id) {
                // the others keep looking at their view as long as it exists
                Some(d) if c.id != who => {
                    if after.views.iter().any(|v| v.0 == c.view) {
                        eq(|| format!("view of client {} after {} by client {}", c.id, op, who), &d.view, &c.view)?;
                    }
                }
                _ => {}
            }
        }
        if let Some(me) = after.clients.iter().find(|c| c.id == who) {
            let shows: Vec<&String> = after.views.iter().filter(|v| v.0 == me.view).flat_map(|v| v.2.iter()).collect();
            let was = before.clients.iter().find(|c| c.id == who).map(|c| c.view.clone());
            let mut had: Vec<&str> =
                before.views.iter().filter(|v| Some(&v.0) == was.as_ref()).flat_map(|v| v.2.iter().map(|s| s.as_str())).collect();
            match op[0].as_str().unwrap_or("") {
                "edit" => {
                    let n = name(&op[2]);
                    eq(|| format!("buffers client {} sees after {}", who, op), shows.clone(), vec![&n.to_string()])?;
                }
                "view" => {
                    let n = name(&op[2]);
                    if !before.views.iter().any(|v| v.0 == n) {
                        eq(|| format!("buffers client {} sees after {}", who, op), shows.clone(), vec![&n.to_string()])?;
                    }
                }
                "add" | "remove" if was.is_some() => {
                    let n = name(&op[2]);
                    if op[0] == "add" {
                        had.push(n);
                    } else {
                        had.retain(|b| *b != n);
                    }
                    had.sort();
                    had.dedup();
                    if !had.is_empty() {
                        // the view was replaced by the changed one; those who looked at the old one follow the latest view
                        ensure(after.views.iter().any(|v| v.2 == had), || format!("no view shows {:?} after {}", had, op))?;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// what the buffers should hold
    #[derive(Default)]
    pub struct Texts {
        /// buffers read from a file, and when
        files: std::collections::HashMap<String, usize>,
        /// what the files hold now, and when they were last changed, as they say
        disk: std::collections::HashMap<String, (Option<String>, usize)>,
        clock: usize,
    }

    impl Texts {
        pub fn disk(&mut self, file: &str, text: Option<String>, time: Time) {
            self.clock += 1;
            let t = match time {
                Time::Early => 0,
                Time::Now => self.clock,
                Time::Late => usize::MAX,
            };
            self.disk.insert(file.to_string(), (text, t));
        }

        fn read(&mut self, name: &str) {
            self.clock += 1;
            self.files.insert(name.to_string(), self.clock);
        }

        fn now(&self, name: &str) -> (Option<String>, usize) {
            match self.disk.get(name) {
                Some(d) => d.clone(),
                None if FILES.contains(&name) => (Some("one\ntwo\nthree\n".to_string()), 0),
                None => (None, 0),
            }
        }

        /// what op should leave in buffers, and whether it should be refused where that is known
        fn wanted(&mut self, op: &Value, before: &State, who: usize) -> (Vec<(String, String)>, Option<bool>) {
            let text = |n: &str| before.buffers.iter().find(|b| b.0 == n).map(|b| b.1.clone());
            let filled = |t: &str| if t.is_empty() { "\n".to_string() } else { t.to_string() };
            let n = name(&op[2]);
            let new = TEXTS[idx(&op[3], TEXTS.len())];
            match op[0].as_str().unwrap_or("") {
                "edit" => {
                    let scratch = op[3].as_u64().unwrap_or(0) % 2 == 1;
                    let (disk, changed) = self.now(n);
                    match (text(n), disk) {
                        (None, _) if scratch => {
                            self.files.remove(n);
                            (vec![(n.into(), "\n".into())], Some(false))
                        }
                        (None, Some(t)) => {
                            self.read(n);
                            (vec![(n.into(), if t.ends_with('\n') { t } else { t + "\n" })], Some(false))
                        }
                        (None, None) => (vec![], Some(true)),
                        (Some(_), Some(t)) if !scratch && self.files.get(n).is_some_and(|&read| read < changed) => {
                            self.read(n);
                            (vec![(n.into(), t)], Some(false))
                        }
                        _ => (vec![], Some(false)),
                    }
                }
                "new" => {
                    self.files.remove(n);
                    (vec![(n.into(), filled(new))], Some(false))
                }
                "append" => {
                    if text(n).is_none() {
                        self.files.remove(n);
                    }
                    (vec![(n.into(), text(n).map_or(filled(new), |old| old + new))], Some(false))
                }
                "message" => {
                    let n = "*messages*";
                    (vec![(n.into(), text(n).unwrap_or_default() + &format!("{}|hello\n", who))], Some(false))
                }
                "cut" => {
                    let me = before.clients.iter().find(|c| c.id == who).unwrap();
                    let mut want = Vec::new();
                    for (_, b, sels) in me.selections.iter().filter(|x| x.0 == me.view) {
                        let mut t = text(b).unwrap_or_default();
                        for (x, y) in sels {
                            let (lo, hi) = (*x.min(y), *x.max(y));
                            let len = crate::props::parts::graphemes(&t[hi..]).first().map_or(0, |g| g.1 - g.0);
                            t.replace_range(lo..hi + len, "");
                        }
                        want.push((b.clone(), filled(&t)));
                    }
                    (want, Some(false))
                }
                _ => (vec![], None),
            }
        }

        pub fn effect(&mut self, op: &Value, before: &State, after: &State, who: usize, refused: bool) -> Result<(), String> {
            let kind = op[0].as_str().unwrap_or("");
            let (want, refuse) = self.wanted(op, before, who);
            if let Some(r) = refuse {
                eq(|| format!("refusal of {}", op), refused, r)?;
            }
            for (b, now) in &after.buffers {
                let old = before.buffers.iter().find(|x| x.0 == *b);
                match want.iter().chain(old).find(|w| w.0 == *b) {
                    // a log or scratch buffer that goes with its last view starts anew
                    _ if (b == "*debug*" || b == "*scratch*" && now == "\n") && ["delete", "add", "remove"].contains(&kind) => {}
                    _ if kind == "keys" || kind == "select" => {
                        // the menu entries "open" and "scratch" make buffers, too
                        if old.is_none() && kind == "select" && idx(&op[2], 6) == 1 {
                            self.read(b);
                        } else if old.is_none() {
                            self.files.remove(b);
                        }
                    }
                    // what is logged comes last
                    Some((_, t)) if b == "*debug*" || b == "*errors*" => {
                        ensure(now.starts_with(t.as_str()), || format!("{:?} holds {:?} after {}, where {:?} was expected to stay", b, now, op, t))?;
                    }
                    Some((_, t)) => eq(|| format!("text of {:?} after {}", b, op), now, t)?,
                    None => {
                        self.files.remove(b);
                        ensure(LOGS.contains(&b.as_str()) || b == "*scratch*" && now == "\n", || {
                            format!("buffer {:?} comes out of nowhere with {}: {:?}", b, op, now)
                        })?;
                    }
                }
            }
            for (b, t) in want {
                ensure(after.buffers.iter().any(|x| x.0 == b), || format!("{:?} is missing after {}, it should hold {:?}", b, op, t))?;
            }
            Ok(())
        }
    }
}

fn line(method: &str, params: Value) -> String {
    json!({"jsonrpc": "2.0", "id": 1, "method": method, "params": params}).to_string()
}

fn key(k: &str) -> Value {
    let (shift, k) = match k.strip_prefix("s-") {
        Some(k) => (true, k),
        None => (false, k),
    };
    let k = if k == "esc" { json!("Escape") } else { json!({ "Char": k }) };
    json!({"ctrl": false, "alt": false, "shift": shift, "key": k})
}

#[derive(Clone, Copy, PartialEq)]
enum Look {
    State,
    Pictures,
    Texts,
    /// who looks at what
    Views,
    Selections,
}

fn check(v: &Value) -> Outcome {
    history(v, Look::State)
}

fn pictures(v: &Value) -> Outcome {
    history(v, Look::Pictures)
}

fn contents(v: &Value) -> Outcome {
    history(v, Look::Texts)
}

fn views(v: &Value) -> Outcome {
    history(v, Look::Views)
}

fn selections(v: &Value) -> Outcome {
    history(v, Look::Selections)
}

/// a script that shows the client what the editor says of its selections
const CONTEXT: &str = "local function at(p) return p.offset .. ' ' .. p.pos.l .. ' ' .. p.pos.c end
local c, out, names = _CORE:get_context(WHO), {}, {}
for b, _ in pairs(c.selections) do table.insert(names, b) end
table.sort(names)
table.insert(out, c.view.key)
for _, b in ipairs(names) do
  table.insert(out, b)
  for _, s in ipairs(c.selections[b]) do
    table.insert(out, at(s.anchor) .. ' ' .. at(s.cursor))
    table.insert(out, s.text)
  end
end
_EDITOR:show_hint(WHO, out)";

#[cfg(feature = "hooks")]
fn hints(heard: &[ced::server::BroadcastMessage], who: usize) -> Vec<Vec<String>> {
    heard
        .iter()
        .filter(|m| m.message.method == "hint" && m.should_notify(who))
        .filter_map(|m| m.message.params::<ced_remote::protocol::notifications::HintParams>().ok().flatten())
        .map(|p| p.text.iter().map(|t| t.plain()).collect())
        .collect()
}

/// when a file says it was changed: before or after anything the editor does, or right now
#[derive(Clone, Copy, PartialEq)]
enum Time {
    Early,
    Now,
    Late,
}

fn put(dir: &std::path::Path, name: &str, bytes: &[u8], time: Time) {
    let _ = std::fs::remove_file(dir.join(name));
    std::fs::write(dir.join(name), bytes).unwrap();
    let t = std::time::SystemTime::now();
    let hour = std::time::Duration::from_secs(3600);
    let f = std::fs::File::options().write(true).open(dir.join(name)).unwrap();
    f.set_modified(match time {
        Time::Early => t - hour,
        Time::Now => t,
        Time::Late => t + hour,
    })
    .unwrap();
}

fn history(v: &Value, look: Look) -> Outcome {
    #[cfg(feature = "hooks")]
    let mut told: std::collections::HashMap<usize, Value> = Default::default();
    #[cfg(feature = "hooks")]
    let mut texts = state::Texts::default();
    #[cfg(feature = "hooks")]
    let mut model = crate::props::model::Model::new();
    let dir = scratch();
    for f in FILES {
        put(dir, f, b"one\ntwo\nthree\n", Time::Early);
    }
    let (mut ed, inbox) = crate::props::editor::editor();
    #[cfg(feature = "hooks")]
    let heard = || std::iter::from_fn(|| inbox.try_recv().ok()).collect::<Vec<_>>();
    let mut clients: Vec<usize> = Vec::new();
    let mut next = 1;
    let mut weight = 0;
    let modelled = look == Look::Views || look == Look::Selections;
    let empty = Vec::new();
    for op in v.as_array().unwrap_or(&empty) {
        let kind = op[0].as_str().unwrap_or("");
        match kind {
            "join" => {
                if clients.len() < 4 {
                    ed.add_client(next);
                    #[cfg(feature = "hooks")]
                    model.join(next);
                    clients.push(next);
                    next += 1;
                }
            }
            "file" => {
                let f = FILES[idx(&op[1], FILES.len())];
                let late = match op[3].as_u64().unwrap_or(0) % 6 {
                    1 => Time::Early,
                    2 => Time::Late,
                    _ => Time::Now,
                };
                match idx(&op[2], TEXTS.len() + 2) {
                    i if i < TEXTS.len() => put(dir, f, TEXTS[i].as_bytes(), late),
                    i if i == TEXTS.len() => put(dir, f, b"ab\xff\ncd", late),
                    _ => {
                        let _ = std::fs::remove_file(dir.join(f));
                    }
                }
                #[cfg(feature = "hooks")]
                texts.disk(f, std::fs::read_to_string(dir.join(f)).ok(), late);
            }
            _ if clients.is_empty() => continue,
            "leave" => {
                let c = clients.remove(idx(&op[1], clients.len()));
                ed.remove_client(c);
                #[cfg(feature = "hooks")]
                model.leave(c);
            }
            // what menus and keys come to is not in the model
            "keys" | "menu" | "select" if modelled => continue,
            _ => {
                let who = clients[idx(&op[1], clients.len())];
                let lua = |s: String| line("exec", json!(s));
                #[allow(unused_mut, unused_assignments)]
                let mut named = name(&op[2]).to_string();
                let req = match kind {
                    "edit" => line("edit", json!({"name": name(&op[2]), "scratch": op[3].as_u64().unwrap_or(0) % 2 == 1})),
                    "view" => line("view", json!(name(&op[2]))),
                    "goto" => {
                        #[cfg(feature = "hooks")]
                        let keys: Vec<String> = state::snap(&ed).views.into_iter().map(|v| v.0).collect();
                        #[cfg(not(feature = "hooks"))]
                        let keys = vec!["*scratch*{*}".to_string()];
                        named = keys[idx(&op[2], keys.len())].clone();
                        line("view", json!(named))
                    }
                    "delete" => line("view-delete", json!([])),
                    "add" => line("view-add", json!(name(&op[2]))),
                    "remove" => line("view-remove", json!(name(&op[2]))),
                    "quit" => line("quit", json!([])),
                    "keys" => line("keys", json!([key(KEYS[idx(&op[2], KEYS.len())])])),
                    "menu" => line("menu", json!({"command": (["", "open", "view_select", "view_add", "nope"][idx(&op[2], 5)]), "search": ""})),
                    "select" => line(
                        "menu-select",
                        json!({"command": (["", "open", "view_select", "view_add", "scratch", "view_remove"][idx(&op[2], 6)]), "choice": name(&op[3])}),
                    ),
                    "move" => lua(format!("_CORE:{}({}, {})", MOVES[idx(&op[2], MOVES.len())], who, op[3].as_u64().unwrap_or(0) % 2 == 1)),
                    "cut" => lua(format!("_EDITOR:show_hint({}, _CORE:delete_selection({}))", who, who)),
                    "new" => lua(format!("_CORE:scratch({}, {:?}, '{}')", who, name(&op[2]), lua_text(TEXTS[idx(&op[3], TEXTS.len())]))),
                    "append" => lua(format!("_CORE:append_to({:?}, '{}')", name(&op[2]), lua_text(TEXTS[idx(&op[3], TEXTS.len())]))),
                    "context" => lua(CONTEXT.replace("WHO", &who.to_string())),
                    "message" => lua(format!("_CORE:message({}, 'hello')", who)),
                    _ => continue,
                };
                weight += 1;
                #[cfg(feature = "hooks")]
                let before = state::snap(&ed);
                let r = ed.handle(who, &req).map_err(|e| format!("{} is not answered: {}", req, e))?;
                if kind == "context" || kind == "cut" || kind == "move" {
                    if let Err(e) = r.result::<Value>().map_err(|e| e.to_string())? {
                        return Err(format!("{} fails: {}", req, e));
                    }
                }
                #[cfg(feature = "hooks")]
                if modelled {
                    let refused = r.result::<Value>().map_err(|e| e.to_string())?.is_err();
                    let how = (idx(&op[2], MOVES.len()), op[3].as_u64().unwrap_or(0) % 2 == 1);
                    let want = model
                        .apply(kind, &named, how, TEXTS[idx(&op[3], TEXTS.len())], &before, &state::snap(&ed), who, refused)
                        .map_err(|e| format!("{}: {}", req, e))?;
                    let mut got = hints(&heard(), who);
                    if look == Look::Selections && (kind == "cut" || kind == "context") {
                        let mut got = got.pop().unwrap_or_default();
                        if kind == "cut" {
                            got.sort();
                        }
                        eq(|| format!("what {} gives back", req), got, want)?;
                    }
                    if kind == "quit" {
                        model.leave(who);
                    }
                }
                let gone = ed.removed_clients();
                clients.retain(|c| !gone.contains(c));
                #[cfg(feature = "hooks")]
                if look == Look::State {
                    state::effect(op, &before, &state::snap(&ed), who, Some(&r)).map_err(|e| format!("{}: {}", req, e))?;
                }
                #[cfg(feature = "hooks")]
                if look == Look::Texts {
                    let refused = r.result::<Value>().map_err(|e| e.to_string())?.is_err();
                    texts.effect(op, &before, &state::snap(&ed), who, refused).map_err(|e| format!("{}: {}", req, e))?;
                }
                let _ = r;
            }
        }
        #[cfg(feature = "hooks")]
        match look {
            Look::State => state::consistent(&ed, &clients).map_err(|e| format!("after {}: {}", op, e))?,
            Look::Pictures => {
                while let Ok(m) = inbox.try_recv() {
                    if m.message.method == "view" {
                        for c in clients.iter().filter(|c| m.should_notify(**c)) {
                            told.insert(*c, serde_json::to_value(&m.message).map_err(|e| e.to_string())?["params"].clone());
                        }
                    }
                }
                for c in &clients {
                    let want = serde_json::to_value(ed.verif_shown(*c)).map_err(|e| e.to_string())?;
                    let got = told.get(c).ok_or_else(|| format!("client {} was never told what to show, after {}", c, op))?;
                    eq(|| format!("what client {} was last told to show, after {}", c, op), got, &want)?;
                }
            }
            Look::Texts => {}
            Look::Views => model.looks(&state::snap(&ed)).map_err(|e| format!("after {}: {}", op, e))?,
            Look::Selections => model.selections(&state::snap(&ed)).map_err(|e| format!("after {}: {}", op, e))?,
        }
        let _ = look;
        while inbox.try_recv().is_ok() {}
    }
    Ok(weight > 1)
}

fn lua_text(t: &str) -> String {
    t.bytes().map(|b| format!("\\{:03}", b)).collect()
}

fn ops() -> Vec<Value> {
    let mut v = vec![json!(["join"])];
    for n in 0..FILES.len() {
        v.push(json!(["edit", 0, n, 0]));
    }
    for n in 3..7 {
        v.push(json!(["edit", 1, n, 1]));
    }
    for (k, who) in [("delete", 0), ("delete", 1), ("quit", 1), ("leave", 0), ("cut", 0), ("context", 0), ("message", 0)] {
        v.push(json!([k, who]));
    }
    for n in [0, 3, 5, 9] {
        v.push(json!(["view", 0, n]));
        v.push(json!(["add", 0, n]));
        v.push(json!(["remove", 1, n]));
    }
    v.push(json!(["file", 0, 0]));
    v.push(json!(["file", 0, 2]));
    v.push(json!(["file", 0, TEXTS.len()]));
    v.push(json!(["file", 0, TEXTS.len() + 1]));
    v.push(json!(["move", 0, 7, 1]));
    v.push(json!(["move", 1, 3, 0]));
    v
}

fn small(f: &mut dyn FnMut(Value)) {
    let ops = ops();
    for a in &ops {
        for b in &ops {
            f(json!([["join"], ["join"], a, b]));
        }
    }
    // a file read again, and what has happened to the buffer since
    for a in &ops {
        for b in &ops {
            f(json!([["join"], ["edit", 0, 0, 0], ["file", 0, 2, 0], ["edit", 0, 0, 0], a, ["edit", 0, 0, 0], b, ["edit", 0, 0, 0]]));
        }
    }
    // buffers named like views
    for n in 3..NAMES.len() {
        f(json!([["join"], ["edit", 0, 3, 1], ["edit", 0, 4, 1], ["view", 0, 3], ["add", 0, 4], ["join"], ["edit", 1, n, 1], ["edit", 1, 3, 1], ["delete", 1], ["message", 0]]));
    }
    for a in &ops {
        for b in &ops {
            f(json!([["join"], ["edit", 0, 0, 0], ["join"], ["move", 0, 7, 1], a, b, ["context", 0], ["cut", 0]]));
        }
    }
}

fn gen(r: &mut Rng, i: usize) -> Value {
    let n = 4 + r.below(6 + (i / 3).min(60));
    let kinds: &[&str] = &[
        "edit", "edit", "edit", "view", "view", "goto", "goto", "delete", "add", "add", "remove", "keys", "menu", "select", "move", "move",
        "move", "cut", "new", "append", "context", "message",
    ];
    // a narrow choice of names makes them meet
    let lo = r.below(NAMES.len());
    let wide = 1 + r.below(NAMES.len());
    let mut steps = vec![json!(["join"])];
    for _ in 0..n {
        steps.push(match r.below(20) {
            0 => json!(["join"]),
            1 => json!(["leave", r.below(4)]),
            2 => json!(["quit", r.below(4)]),
            3 | 4 => json!(["file", r.below(3), r.below(TEXTS.len() + 2), r.below(6)]),
            _ => {
                let nm = (lo + r.below(wide)) % NAMES.len();
                json!([*r.pick(kinds), r.below(4), if r.chance(1, 2) { nm } else { r.below(20) }, r.below(12)])
            }
        });
    }
    Value::Array(steps)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        rule: "histories of up to 60 arrivals, departures, file changes and requests (edit, view, view-add, view-remove, view-delete, menu, keys, and cursor motions, cuts and buffers by script) of up to four clients; the whole state is examined after every step; non-trivial: two or more requests",
        check,
        small,
        gen,
    }, Prop {
        id: "C24",
        rule: "the histories of C09; after every step, what each client was last told to show is what its view shows now. Small histories are enumerated in full.",
        check: pictures,
        small,
        gen,
    }, Prop {
        id: "C25",
        rule: "the histories of C09, with files that changed before or after the editor read them; after every request, every buffer holds what the request puts into it (the file, the text given, the text before with the appended text or without the selected one) and the other buffers are untouched. Small histories are enumerated in full.",
        check: contents,
        small,
        gen,
    }, Prop {
        id: "C26",
        rule: "the histories of C09, menus and keys aside; after every step each client has the selections a model of the editor gives it, and a script that asks is told them. Small histories are enumerated in full.",
        check: selections,
        small,
        gen,
    }, Prop {
        id: "C27",
        rule: "the histories of C09, menus and keys aside; after every step there are the views a model of the editor has, and each client looks at the one it has there. Small histories are enumerated in full.",
        check: views,
        small,
        gen,
    }]
}
