//! C29: what menus offer, and what a choice does.
use crate::util::*;
use ced::editor::Editor;
use ced::server::BroadcastMessage;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const COMMANDS: &[&str] = &["", "open", "scratch", "view_select", "view_add", "view_remove", "exec", "nope", "quit"];
const NAMES: &[&str] = &["one", "sub/tête", "a", "b{*}", "*messages*", "*debug*", "", "quit", "open", " x y ", "Quit", "New scratch buffer name."];
const SEARCHES: &[&str] = &["", "e", "VIEW", "*", "zzz"];

/// key, label, description and what choosing it is: a request's method, or "menu" for another menu
type Entry = (String, String, Option<String>, &'static str);

const LISTED: &[(&str, &str, &str, &str)] = &[
    ("open", "Open file", "Open and read a new file.", "menu"),
    ("quit", "Quit", "Quit the current client.", "quit"),
    ("scratch", "New scratch", "Create a new scratch buffer.", "menu"),
    ("view_select", "Change view", "Select an existing view or create a new one.", "menu"),
    ("view_delete", "Delete view", "Delete the current view.", "view-delete"),
    ("view_add", "Add to view", "Add another buffer to the current view.", "menu"),
    ("view_remove", "Remove from the view.", "Remove a buffer from the current view.", "menu"),
    ("exec", "Execute script.", "Execute the lua script source.", "menu"),
];

const TITLES: &[(&str, &str)] =
    &[("", "command"), ("open", "file"), ("scratch", "scratch"), ("view_select", "view"), ("view_add", "buffer"), ("view_remove", "buffer"), ("exec", "lua")];

fn request(method: &str, params: Value) -> String {
    json!({"jsonrpc": "2.0", "id": 1, "method": method, "params": params}).to_string()
}

fn ask(ed: &mut Editor, c: usize, line: &str) -> Result<Value, String> {
    let r = ed.handle(c, line).map_err(|e| format!("{} is not answered: {}", line, e))?;
    serde_json::to_value(&r).map_err(|e| e.to_string())
}

fn heard(inbox: &async_channel::Receiver<BroadcastMessage>) -> Result<Vec<(Vec<usize>, String, Value)>, String> {
    let mut v = Vec::new();
    while let Ok(m) = inbox.try_recv() {
        let to = (0..12).filter(|c| m.should_notify(*c)).collect();
        let p = serde_json::to_value(&m.message).map_err(|e| e.to_string())?["params"].clone();
        v.push((to, m.message.method.clone(), p));
    }
    v.sort_by_key(|m: &(Vec<usize>, String, Value)| (m.0.clone(), m.1.clone(), m.2.to_string()));
    Ok(v)
}

/// names of buffers, keys of views, and who looks at what
#[cfg(feature = "hooks")]
fn there(ed: &Editor) -> (Vec<String>, Vec<String>, Vec<(usize, String)>) {
    let s = ed.verif_state();
    let mut b: Vec<String> = s.buffers.iter().map(|b| b.0.clone()).collect();
    let mut v: Vec<String> = s.views.iter().map(|v| v.0.clone()).collect();
    b.sort();
    v.sort();
    (b, v, s.clients.iter().map(|c| (c.id, c.view.clone())).collect())
}

#[cfg(not(feature = "hooks"))]
fn there(_: &Editor) -> (Vec<String>, Vec<String>, Vec<(usize, String)>) {
    (vec![], vec![], vec![])
}

/// what a menu offers now; None when the property leaves it open here
fn offered(ed: &Editor, command: &str) -> Option<Vec<Entry>> {
    let plain = |ks: Vec<String>, m: &'static str| ks.into_iter().map(|k| (k.clone(), k, None, m)).collect::<Vec<Entry>>();
    let (buffers, views, _) = there(ed);
    let known = cfg!(feature = "hooks");
    match command {
        "" => Some(LISTED.iter().map(|e| (e.0.into(), e.1.into(), Some(e.2.into()), e.3)).collect()),
        "open" => Some(plain(vec!["one".into(), "empty".into(), "sub/tête".into()], "edit")),
        "scratch" => Some(vec![(String::new(), "New scratch buffer name.".into(), None, "scratch")]),
        "exec" => Some(vec![(String::new(), "Lua script source.".into(), None, "exec")]),
        "view_add" if known => Some(plain(buffers, "view-add")),
        "view_remove" if known => Some(plain(buffers, "view-remove")),
        "view_select" if known => {
            let alone: Vec<String> = buffers.into_iter().filter(|b| !views.contains(&format!("{}{{*}}", b.replace('{', "{{")))).collect();
            Some(plain(views.into_iter().chain(alone).collect(), "view"))
        }
        _ => None,
    }
}

/// what the client is shown of them
fn shown(text: &Value) -> String {
    let mut s = String::new();
    fn go(v: &Value, s: &mut String) {
        match v {
            Value::Object(o) => {
                if let Some(t) = o.get("text").and_then(|t| t.as_str()) {
                    s.push_str(t);
                } else {
                    o.values().for_each(|x| go(x, s));
                }
            }
            Value::Array(a) => a.iter().for_each(|x| go(x, s)),
            _ => {}
        }
    }
    go(text, &mut s);
    s
}

fn check(v: &Value) -> Outcome {
    // the same history twice: menus here, the requests that the choices stand for there
    let (mut ed, inbox) = crate::props::editor::editor();
    let (mut twin, other) = crate::props::editor::editor();
    let mut filled: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
    let mut clients: Vec<usize> = Vec::new();
    let mut next = 1;
    let mut chosen = 0;
    let empty = Vec::new();
    for op in v.as_array().unwrap_or(&empty) {
        let kind = op[0].as_str().unwrap_or("");
        let text = |i: usize| op[i].as_str().unwrap_or("").to_string();
        if kind == "join" {
            if clients.len() < 3 {
                ed.add_client(next);
                twin.add_client(next);
                clients.push(next);
                next += 1;
            }
            heard(&inbox)?;
            heard(&other)?;
            continue;
        }
        if clients.is_empty() {
            continue;
        }
        let who = clients[op[1].as_u64().unwrap_or(0) as usize % clients.len()];
        let before = there(&ed);
        match kind {
            "menu" | "choose" => {
                let (command, what) = (text(2), text(3));
                // the menu that has to be shown, and for which search
                let mut shows: Option<(String, String)> = None;
                let mut direct: Option<String> = None;
                let known = TITLES.iter().any(|t| t.0 == command);
                let line = if kind == "menu" {
                    if known {
                        shows = Some((command.clone(), what.clone()));
                    }
                    request("menu", json!({"command": command, "search": what}))
                } else {
                    let none = Vec::new();
                    let es = filled.get(&command).unwrap_or(&none);
                    let asks = command == "scratch" || command == "exec";
                    let e = es.iter().find(|e| e.0 == what).or_else(|| if asks { es.iter().find(|e| e.0.is_empty()) } else { None });
                    match e.map(|e| e.3) {
                        Some("menu") => shows = Some((what.clone(), String::new())),
                        Some("edit") => direct = Some(request("edit", json!({"name": what, "scratch": false}))),
                        Some("scratch") => direct = Some(request("edit", json!({"name": what, "scratch": true}))),
                        Some(m @ ("quit" | "view-delete")) => direct = Some(request(m, json!([]))),
                        Some(m) => direct = Some(request(m, json!(what))),
                        None => {}
                    }
                    chosen += e.is_some() as usize;
                    request("menu-select", json!({"command": command, "choice": what}))
                };
                if let Some((c, s)) = &shows {
                    if s.is_empty() {
                        match offered(&ed, c) {
                            Some(es) => filled.insert(c.clone(), es),
                            None => return Ok(false),
                        };
                    }
                }
                let r = ask(&mut ed, who, &line)?;
                let got = heard(&inbox)?;
                if let Some(d) = &direct {
                    let want = ask(&mut twin, who, d)?;
                    eq(|| format!("the answer at {}, as to {}", op, d), &(r["result"].clone(), r["error"].clone()), &(want["result"].clone(), want["error"].clone()))?;
                    eq(|| format!("what clients are told at {}, as by {}", op, d), &got, &heard(&other)?)?;
                    let _ = twin.removed_clients();
                } else if let Some((c, s)) = &shows {
                    ensure(r["error"].is_null(), || format!("{} is answered {}", op, r))?;
                    ensure(got.len() == 1 && got[0].0 == [who] && got[0].1 == "menu", || format!("{}: clients are told {:?}", op, got))?;
                    let p = &got[0].2;
                    let title = TITLES.iter().find(|t| t.0 == c).map(|t| t.1);
                    eq(|| format!("the menu shown at {}", op), &(p["command"].as_str(), p["title"].as_str(), p["search"].as_str()), &(Some(c.as_str()), title, Some(s.as_str())))?;
                    let mut have: Vec<(String, String, Option<String>)> = p["entries"]
                        .as_array()
                        .unwrap_or(&empty)
                        .iter()
                        .map(|e| (e["value"].as_str().unwrap_or("").into(), shown(&e["text"]), e["description"].as_str().map(String::from)))
                        .collect();
                    let asks = c == "scratch" || c == "exec";
                    let low = s.to_lowercase();
                    let mut want: Vec<(String, String, Option<String>)> = filled
                        .get(c)
                        .unwrap_or(&Vec::new())
                        .iter()
                        .filter(|e| asks || e.1.to_lowercase().contains(&low))
                        .map(|e| (e.0.clone(), e.1.clone(), e.2.clone()))
                        .collect();
                    have.sort();
                    want.sort();
                    eq(|| format!("the entries shown at {}", op), &have, &want)?;
                } else {
                    ensure(r["error"]["code"] == json!(-32602), || format!("{} is answered {}", op, r))?;
                    ensure(got.is_empty(), || format!("{}: clients are told {:?}", op, got))?;
                }
                if direct.is_none() {
                    eq(|| format!("what there is after {}", op), &there(&ed), &before)?;
                }
            }
            _ => {
                let line = match kind {
                    "edit" => request("edit", json!({"name": text(2), "scratch": true})),
                    "view-delete" | "quit" => request(kind, json!([])),
                    _ => request(kind, json!(text(2))),
                };
                ask(&mut ed, who, &line)?;
                ask(&mut twin, who, &line)?;
                heard(&inbox)?;
                heard(&other)?;
                let _ = twin.removed_clients();
            }
        }
        let gone = ed.removed_clients();
        clients.retain(|c| !gone.contains(c));
        eq(|| format!("what there is after {}", op), &there(&ed), &there(&twin))?;
    }
    Ok(chosen > 0)
}

fn small(f: &mut dyn FnMut(Value)) {
    for c in COMMANDS {
        for s in SEARCHES {
            f(json!([["join"], ["menu", 0, c, s]]));
            f(json!([["join"], ["edit", 0, "b{*}"], ["join"], ["menu", 1, c, ""], ["edit", 0, "zz"], ["menu", 0, c, s]]));
        }
        for k in NAMES.iter().chain(COMMANDS).chain(&["a{*}", "view_delete", "_CORE:message(1, 'x')", "error('x')"]) {
            f(json!([["join"], ["choose", 0, c, k], ["menu", 0, "exec", ""]]));
            f(json!([["join"], ["edit", 0, "a"], ["join"], ["menu", 0, c, ""], ["choose", 1, c, k], ["choose", 1, c, k]]));
            f(json!([["join"], ["edit", 0, "a"], ["view-add", 0, "b{*}"], ["join"], ["menu", 0, c, ""], ["choose", 1, c, k], ["menu", 0, c, ""]]));
            f(json!([["join"], ["join"], ["menu", 0, "", ""], ["choose", 0, "", c], ["choose", 0, c, k]]));
        }
    }
}

fn gen(r: &mut Rng, i: usize) -> Value {
    let mut v = vec![json!(["join"]), json!(["menu", 0, "", ""])];
    for _ in 0..2 + r.below(4 + (i / 4).min(30)) {
        let who = r.below(3);
        let k = *r.pick(&["menu", "menu", "choose", "choose", "choose", "choose", "edit", "view", "view-add", "view-remove", "view-delete", "join", "quit"]);
        let c = *r.pick(COMMANDS);
        let n = match r.below(5) {
            0 => *r.pick(COMMANDS),
            1 => *r.pick(&["a{*}", "one{*}", "*debug*{*}|*messages*{*}", "view_delete", "a{*}|one{*}", "_CORE:message(1, 'x')"]),
            _ => *r.pick(NAMES),
        };
        v.push(match k {
            "menu" => json!([k, who, c, r.pick(SEARCHES)]),
            "choose" => json!([k, who, c, n]),
            _ => json!([k, who, n]),
        });
    }
    Value::Array(v)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "histories of up to 36 arrivals, departures, requests for menus with and without a search, choices of entries that are there and that are not, edits and view changes, run against two editors: what a choice does, answers and tells is what the request it stands for does in the other editor; menus are sent to the client that asked and to it alone and show exactly the files, buffers, views and commands there are; unknown commands and choices change nothing. Every command with every name, before and after its menu was shown, is enumerated. Non-trivial when an entry was chosen.",
        check,
        small,
        gen,
    }]
}
