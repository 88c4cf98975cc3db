//! C28: what the editor tells clients besides views, and what it keeps of it.
use crate::util::*;
use ced::server::BroadcastMessage;
use ced_remote::protocol::{notifications, Face, Text, TextFragment};
use serde_json::{json, Value};

const TEXTS: &[&str] = &["hello", "", "a\nb", "\ta  b", "é\r\n\n", "{}", "%s\\n", "*|x"];
const BUFFERS: &[&str] = &["a", "*messages*", "*errors*"];
const JUNK: &[&str] = &["", "{", "null", "[]", "{\"method\":\"quit\",\"id\":3}", "é\tx"];

fn lua(t: &str) -> String {
    format!("'{}'", t.bytes().map(|b| format!("\\{:03}", b)).collect::<String>())
}

fn request(method: &str, params: Value) -> String {
    json!({"jsonrpc": "2.0", "id": 1, "method": method, "params": params}).to_string()
}

fn echo(text: &str, face: Face) -> Value {
    serde_json::to_value(Text::from(TextFragment { text: text.to_owned(), face })).expect("text")
}

/// who is told, how and what
type Told = (Vec<usize>, String, Value);

fn heard(inbox: &async_channel::Receiver<BroadcastMessage>, methods: &[&str]) -> Result<Vec<Told>, String> {
    let mut v = Vec::new();
    while let Ok(m) = inbox.try_recv() {
        if methods.contains(&m.message.method.as_str()) {
            let to = (0..12).filter(|c| m.should_notify(*c)).collect();
            let p = serde_json::to_value(&m.message).map_err(|e| e.to_string())?["params"].clone();
            v.push((to, m.message.method.clone(), p));
        }
    }
    Ok(v)
}

#[cfg(feature = "hooks")]
fn kept(ed: &ced::editor::Editor, name: &str) -> String {
    ed.verif_state().buffers.into_iter().find(|b| b.0 == name).map(|b| b.1).unwrap_or_default()
}

#[cfg(not(feature = "hooks"))]
fn kept(_: &ced::editor::Editor, _: &str) -> String {
    String::new()
}

fn text(v: &Value) -> &'static str {
    TEXTS[v.as_u64().unwrap_or(0) as usize % TEXTS.len()]
}

fn check(v: &Value) -> Outcome {
    let hooks = cfg!(feature = "hooks");
    let (mut ed, inbox) = crate::props::editor::editor();
    let mut clients: Vec<usize> = Vec::new();
    let mut next = 1;
    let mut said = 0;
    let empty = Vec::new();
    for op in v.as_array().unwrap_or(&empty) {
        let before = [kept(&ed, "*messages*"), kept(&ed, "*errors*")];
        let kind = op[0].as_str().unwrap_or("");
        let at = |i: usize, n: usize| op[i].as_u64().unwrap_or(0) as usize % n;
        let mut want: Vec<Told> = Vec::new();
        // what is written to *messages* and *errors*
        let mut lines = [String::new(), String::new()];
        // an error whose text the property leaves open, but for these: tag, and what it has to name
        let mut open: Option<(&str, String)> = None;
        let mut who = 0;
        let mut methods = vec!["echo", "info", "hint", "status"];
        let mut kept_open = false;
        if kind == "join" {
            if clients.len() >= 3 {
                continue;
            }
            methods = vec!["echo", "info"];
            ed.add_client(next);
            let cwd = std::env::current_dir().map_err(|e| e.to_string())?;
            want.push((vec![next], "info".into(), json!({"client": next.to_string(), "session": "verif", "cwd": cwd.display().to_string()})));
            clients.push(next);
            next += 1;
        } else if clients.is_empty() {
            continue;
        } else if kind == "leave" {
            let c = clients.remove(at(1, clients.len()));
            ed.remove_client(c);
        } else {
            who = clients[at(1, clients.len())];
            let to = at(2, 5);
            let line = match kind {
                "message" => {
                    let t = text(&op[3]);
                    want.push((vec![to], "echo".into(), echo(t, Face::Default)));
                    lines[0] = format!("{}|{}\n", to, t);
                    request("exec", json!(format!("_CORE:message({}, {})", to, lua(t))))
                }
                "error" => {
                    let t = text(&op[3]);
                    lines[1] = format!("{}|lua: {}\n", to, t);
                    want.push((vec![to], "echo".into(), echo(&crate::props::parts::normalized(&format!("lua: {}", t)), Face::Error)));
                    request("exec", json!(format!("_CORE:error({}, {})", to, lua(t))))
                }
                "hint" => {
                    let ts: Vec<&str> = op[3].as_array().unwrap_or(&empty).iter().map(text).collect();
                    let p = notifications::HintParams { text: ts.iter().map(|t| Text::from(*t)).collect() };
                    want.push((vec![to], "hint".into(), serde_json::to_value(p).map_err(|e| e.to_string())?));
                    request("exec", json!(format!("_EDITOR:show_hint({}, {{{}}})", to, ts.iter().map(|t| lua(t)).collect::<Vec<_>>().join(", "))))
                }
                "status" => {
                    // an index is given once
                    let mut parts: Vec<(isize, &str)> = Vec::new();
                    for p in op[3].as_array().unwrap_or(&empty) {
                        let i = p[0].as_i64().unwrap_or(0) as isize;
                        if parts.iter().all(|x| x.0 != i) {
                            parts.push((i, text(&p[1])));
                        }
                    }
                    let config: Vec<String> = parts.iter().enumerate().map(|(k, (i, t))| format!("k{} = {{index = {}, text = {}}}", k, i, lua(t))).collect();
                    parts.sort();
                    let p: notifications::StatusParams = parts.iter().map(|(i, t)| notifications::StatusParamsItem { index: *i, text: Text::from(*t) }).collect();
                    want.push((vec![to], "status".into(), serde_json::to_value(p).map_err(|e| e.to_string())?));
                    request("exec", json!(format!("_EDITOR:set_status_line({}, {{{}}})", to, config.join(", "))))
                }
                "junk" => {
                    let l = JUNK[at(2, JUNK.len())];
                    open = Some(("protocol", l.to_string()));
                    l.to_string()
                }
                "unknown" => {
                    open = Some(("protocol", "frobnicate".into()));
                    request("frobnicate", json!([]))
                }
                "raise" => {
                    let t = text(&op[2]);
                    open = Some(("exec", t.to_string()));
                    request("exec", json!(format!("error({})", lua(t))))
                }
                "append" => {
                    let (b, t) = (BUFFERS[at(2, BUFFERS.len())], text(&op[3]));
                    kept_open = true;
                    request("exec", json!(format!("_CORE:append_to({}, {})", lua(b), lua(t))))
                }
                "edit" => request("edit", json!({"name": BUFFERS[at(2, BUFFERS.len())], "scratch": true})),
                "view" => request("view", json!(BUFFERS[at(2, BUFFERS.len())])),
                "add" => request("view-add", json!(BUFFERS[at(2, BUFFERS.len())])),
                "move" => request("exec", json!(format!("_CORE:move_to_end({}, true)", who))),
                "cut" => {
                    kept_open = true;
                    request("exec", json!(format!("_CORE:delete_selection({})", who)))
                }
                "delete" => {
                    kept_open = true;
                    request("view-delete", json!([]))
                }
                "quit" => request("quit", json!([])),
                _ => continue,
            };
            // an empty buffer comes into being
            kept_open |= kind == "edit" || kind == "view" || kind == "add";
            ed.handle(who, &line).map_err(|e| format!("{} is not answered: {}", line, e))?;
            let gone = ed.removed_clients();
            clients.retain(|c| !gone.contains(c));
        }
        let got = heard(&inbox, &methods)?;
        let after = [kept(&ed, "*messages*"), kept(&ed, "*errors*")];
        if let Some((tag, names)) = open {
            if hooks {
                let new = after[1].strip_prefix(before[1].as_str()).ok_or_else(|| format!("{}: *errors* does not begin with what it held: {:?}", op, after[1]))?;
                let head = format!("{}|{}: ", who, tag);
                ensure(new.starts_with(&head) && new.ends_with('\n') && new.contains(&names), || format!("{}: *errors* gets {:?}, want {:?}... {:?}", op, new, head, names))?;
                lines[1] = new.to_string();
                let shown = crate::props::parts::normalized(&new[head.len() - tag.len() - 2..new.len() - 1]);
                want.push((vec![who], "echo".into(), echo(&shown, Face::Error)));
            } else {
                want = got.clone();
                ensure(got.len() == 1 && got[0].0 == [who] && got[0].1 == "echo", || format!("{}: told {:?}", op, got))?;
            }
        }
        said += want.len();
        eq(|| format!("what clients are told at {}", op), &got, &want)?;
        if hooks && !kept_open {
            for (i, b) in ["*messages*", "*errors*"].iter().enumerate() {
                eq(|| format!("{} after {}", b, op), &after[i], &format!("{}{}", before[i], lines[i]))?;
            }
        }
    }
    Ok(said > 1)
}

fn steps() -> Vec<Value> {
    let mut v = vec![json!(["join"]), json!(["leave", 0]), json!(["quit", 1]), json!(["unknown", 0]), json!(["unknown", 1])];
    for t in 0..TEXTS.len() {
        v.push(json!(["message", 0, 1 + t % 3, t]));
        v.push(json!(["error", 1, 1 + t % 2, t]));
        v.push(json!(["raise", 0, t]));
    }
    for j in 0..JUNK.len() {
        v.push(json!(["junk", 1, j]));
    }
    for ts in [json!([]), json!([0]), json!([0, 1, 2, 0])] {
        v.push(json!(["hint", 0, 2, ts]));
    }
    for ps in [json!([]), json!([[3, 0]]), json!([[2, 0], [-1, 1], [1, 2], [10, 3]])] {
        v.push(json!(["status", 0, 2, ps]));
    }
    for b in 0..BUFFERS.len() {
        v.push(json!(["append", 0, b, b]));
        v.push(json!(["edit", 1, b]));
    }
    for k in ["view", "add", "move", "cut", "delete"] {
        v.push(json!([k, 0, 1]));
    }
    v
}

fn small(f: &mut dyn FnMut(Value)) {
    let all = steps();
    for a in &all {
        f(json!([["join"], ["join"], a]));
    }
    for a in &all {
        for b in &all {
            f(json!([["join"], ["join"], a, b]));
        }
    }
}

fn gen(r: &mut Rng, i: usize) -> Value {
    let mut v = vec![json!(["join"])];
    let kinds = ["message", "message", "error", "error", "hint", "status", "junk", "unknown", "raise", "append", "edit", "view", "add", "move", "cut", "delete", "quit", "leave", "join"];
    for _ in 0..2 + r.below(4 + (i / 4).min(30)) {
        let k = *r.pick(&kinds);
        let last = match k {
            "hint" => json!((0..r.below(5)).map(|_| r.below(TEXTS.len())).collect::<Vec<_>>()),
            "status" => json!((0..r.below(6)).map(|_| (r.below(20) as i64 - 5, r.below(TEXTS.len()))).collect::<Vec<_>>()),
            _ => json!(r.below(TEXTS.len())),
        };
        v.push(json!([k, r.below(3), r.below(8), last]));
    }
    Value::Array(v)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "histories of up to 36 arrivals, departures, messages, errors, hints and status lines of scripts, lines that are no request, unknown requests and failing scripts, edits and views between them: after every step exactly the expected echo, info, hint and status notifications were sent, each to the clients it is for, and *messages* and *errors* have grown by exactly the expected lines. Histories of up to two steps after two arrivals are enumerated. Non-trivial when clients were told something more than once.",
        check,
        small,
        gen,
    }]
}
