//! C10: requests and their answers, messages and their text.
use crate::util::*;
use ced::editor::Editor;
use ced::server::BroadcastMessage;
use ced_remote::jsonrpc::{ClientEvent, Error, Id, Notification, Request, Response};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::OnceLock;

/// the files the editor may open live here
pub fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("ced-verif-{}", std::process::id()));
        std::fs::create_dir_all(dir.join("sub")).expect("scratch directory");
        std::fs::write(dir.join("one"), "first\nsecond\n").unwrap();
        std::fs::write(dir.join("empty"), "").unwrap();
        std::fs::write(dir.join("sub/tête"), "né\tà\n\nfin").unwrap();
        std::env::set_current_dir(&dir).expect("enter the scratch directory");
        dir
    })
}

pub fn clean_up() {
    let dir = std::env::temp_dir().join(format!("ced-verif-{}", std::process::id()));
    if dir.is_dir() {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&dir);
    }
}

pub fn editor() -> (Editor, async_channel::Receiver<BroadcastMessage>) {
    scratch();
    let (sender, receiver) = async_channel::unbounded();
    (Editor::new("verif", sender), receiver)
}

fn id_of(v: &Value) -> Option<Id> {
    match v {
        Value::Null => Some(Id::Null),
        Value::String(s) => Some(Id::String(s.clone())),
        Value::Number(n) => n.as_i64().filter(|n| i32::try_from(*n).is_ok()).map(|n| Id::Number(n as i32)),
        _ => None,
    }
}

const METHODS: &[&str] = &[
    "edit",
    "quit",
    "view",
    "view-delete",
    "view-add",
    "view-remove",
    "menu",
    "menu-select",
    "keys",
    "exec",
];

fn well_formed(method: &str, p: &Value) -> bool {
    let strings = |ks: &[&str]| ks.iter().all(|k| p[*k].is_string());
    match method {
        "edit" => strings(&["name"]) && p["scratch"].is_boolean(),
        "menu" => strings(&["command", "search"]),
        "menu-select" => strings(&["command", "choice"]),
        "keys" => p.as_array().map_or(false, |ks| {
            ks.iter().all(|k| {
                ["ctrl", "alt", "shift"].iter().all(|m| k[*m].is_boolean())
                    && match &k["key"] {
                        Value::String(s) => ["Backspace", "Enter", "Escape", "Up", "Down", "Left", "Right"].contains(&s.as_str()),
                        Value::Object(o) => o.len() == 1 && o.get("Char").and_then(|c| c.as_str()).map_or(false, |c| c.chars().count() == 1),
                        _ => false,
                    }
            })
        }),
        _ => p.is_string(),
    }
}

enum Want {
    /// this id and this error
    Refused(Id, i64),
    /// this id and any outcome of the command
    Outcome(Id),
}

fn wanted(line: &str) -> Want {
    let unparsable = Want::Refused(Id::Null, -32600);
    let v: Value = match serde_json::from_str(line) {
        Ok(v) => v,
        Err(_) => return unparsable,
    };
    if !v.is_object() || !v["jsonrpc"].is_string() || !v["method"].is_string() || v.get("id").is_none() {
        return unparsable;
    }
    let id = match id_of(&v["id"]) {
        Some(id) => id,
        None => return unparsable,
    };
    let method = v["method"].as_str().unwrap();
    if !METHODS.contains(&method) {
        return Want::Refused(id, -32601);
    }
    if method == "quit" || method == "view-delete" {
        return Want::Outcome(id);
    }
    match v.get("params") {
        None | Some(Value::Null) => Want::Refused(id, -32600),
        Some(p) if well_formed(method, p) => Want::Outcome(id),
        Some(_) => Want::Refused(id, -32602),
    }
}

fn answer(line: &str, r: &Response) -> Result<(), String> {
    let text = r.to_string();
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("the answer to {:?} is no JSON: {} ({})", line, text, e))?;
    ensure(!text.contains('\n'), || format!("the answer to {:?} takes several lines: {:?}", line, text))?;
    eq(|| format!("protocol version of the answer to {:?}", line), &v["jsonrpc"], &json!("2.0"))?;
    let (result, error) = (v.get("result"), v.get("error"));
    ensure(result.is_some() != error.is_some(), || {
        format!("the answer to {:?} must hold a result or an error: {}", line, text)
    })?;
    match wanted(line) {
        Want::Refused(id, code) => {
            eq(|| format!("id of the answer to {:?}", line), &r.id, &id)?;
            let got = error.map(|e| e["code"].as_i64());
            eq(|| format!("error code of the answer to {:?}", line), got, Some(Some(code)))?;
        }
        Want::Outcome(id) => {
            eq(|| format!("id of the answer to {:?}", line), &r.id, &id)?;
            if let Some(v) = result {
                eq(|| format!("result of {:?}", line), v, &Value::Null)?;
            }
            if let Some(e) = error {
                ensure(e["code"].as_i64() != Some(-32601), || format!("{:?} is no known method: {}", line, text))?;
            }
        }
    }
    let back: Response = text.parse().map_err(|e| format!("reading {:?} back fails: {}", text, e))?;
    eq(|| "id of the answer read back".to_string(), &back.id, &r.id)?;
    let same = match (r.result::<()>().map_err(|e| e.to_string())?, back.result::<()>().map_err(|e| e.to_string())?) {
        (Ok(()), Ok(())) => true,
        (Err(a), Err(b)) => a.to_string() == b.to_string(),
        _ => false,
    };
    ensure(same, || format!("the answer {:?} is read back as {:?}", text, back))
}

fn requests(lines: &[Value]) -> Result<usize, String> {
    let (mut ed, inbox) = editor();
    ed.add_client(1);
    ed.add_client(2);
    let mut weight = 0;
    for line in lines {
        let line = line.as_str().unwrap_or_default();
        #[cfg(feature = "hooks")]
        let before = ed.verif_state();
        let r = ed.handle(1, line).map_err(|e| format!("{:?} is not answered: {}", line, e))?;
        answer(line, &r)?;
        if let Want::Refused(..) = wanted(line) {
            weight += 1;
            // only the logs of the editor may change
            #[cfg(feature = "hooks")]
            {
                let shown = |s: &ced::editor::verif::State| {
                    let mut bs: Vec<_> = s.buffers.iter().filter(|b| b.0 != "*debug*" && b.0 != "*errors*").cloned().collect();
                    bs.sort();
                    (s.clients.clone(), bs, s.views.clone())
                };
                eq(
                    || format!("clients, buffers and views after the refused {:?}", line),
                    shown(&ed.verif_state()),
                    shown(&before),
                )?;
            }
        } else {
            weight += 2;
        }
        for c in ed.removed_clients() {
            ed.add_client(c);
        }
        while let Ok(m) = inbox.try_recv() {
            let text = m.message.to_string();
            match text.parse::<ClientEvent>() {
                Ok(ClientEvent::Notification(n)) => eq(|| "notification read back".to_string(), n.to_string(), text)?,
                other => return Err(format!("{:?} is read back as {:?}", text, other)),
            }
        }
    }
    Ok(weight)
}

/// encoding and decoding again gives the same message
fn message(m: &Value) -> Result<usize, String> {
    let id = id_of(&m["id"]).unwrap_or(Id::Null);
    let method = m["method"].as_str().unwrap_or_default();
    let params = m.get("params").cloned();
    let same = |what: &str, text: String, a: (Option<&Id>, &str, Option<Value>), b: (Option<&Id>, &str, Option<Value>)| {
        eq(|| format!("{} {:?} read back", what, text), b, a)
    };
    let q = Request::new::<Value, _, _>(id.clone(), method, params.clone()).map_err(|e| e.to_string())?;
    let t = q.to_string();
    let b: Request = t.parse().map_err(|e| format!("reading {:?} back fails: {}", t, e))?;
    let p = b.params::<Value>().map_err(|e| e.to_string())?;
    same("request", t.clone(), (Some(&id), method, params.clone()), (Some(&b.id), &b.method, p))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    ensure(v.get("params").is_some() == params.is_some(), || {
        format!("absent parameters must stay absent: {}", t)
    })?;
    eq(|| "request version".to_string(), &v["jsonrpc"], &json!("2.0"))?;

    let q = Notification::new::<Value, _, _>(method, params.clone()).map_err(|e| e.to_string())?;
    let t = q.to_string();
    let b: Notification = t.parse().map_err(|e| format!("reading {:?} back fails: {}", t, e))?;
    let p = b.params::<Value>().map_err(|e| e.to_string())?;
    same("notification", t.clone(), (None, method, params.clone()), (None, &b.method, p))?;
    match t.parse::<ClientEvent>() {
        Ok(ClientEvent::Notification(b)) if b == q => {}
        other => return Err(format!("the notification {:?} is read as {:?}", t, other)),
    }

    let code = m["code"].as_i64().unwrap_or(0) as i32;
    let failure = |data: &Option<Value>| Error::new::<Value, _>(code, method.to_string(), data.clone()).map_err(|e| e.to_string());
    let outcomes: Vec<Result<Value, Option<Value>>> = vec![Ok(params.clone().unwrap_or(Value::Null)), Err(params.clone())];
    let mut kept: Option<Response> = None;
    for o in outcomes.iter().chain(outcomes.iter().rev()) {
        let built = match o {
            Ok(v) => Ok(v.clone()),
            Err(d) => Err(failure(d)?),
        };
        let again = match o {
            Ok(v) => Ok(v.clone()),
            Err(d) => Err(failure(d)?),
        };
        let fresh = Response::new(id.clone(), built).map_err(|e| e.to_string())?;
        let mut r = kept.take().unwrap_or(Response::new(Id::Null, Ok(())).unwrap());
        r.id = id.clone();
        r.set_result(again).map_err(|e| e.to_string())?;
        for r in [&fresh, &r] {
            let t = r.to_string();
            let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            let want = match o {
                Ok(v) => json!({"jsonrpc": "2.0", "id": m["id"].clone(), "result": v}),
                Err(d) => json!({"jsonrpc": "2.0", "id": m["id"].clone(), "error": {"code": code, "message": method, "data": d}}),
            };
            eq(|| "text of a response".to_string(), v, want)?;
            let back: Response = t.parse().map_err(|e| format!("reading {:?} back fails: {}", t, e))?;
            match t.parse::<ClientEvent>() {
                Ok(ClientEvent::Response(_)) => {}
                other => return Err(format!("the response {:?} is read as {:?}", t, other)),
            }
            for r in [r, &back] {
                eq(|| format!("id of {:?}", t), &r.id, &id)?;
                match (r.result::<Value>().map_err(|e| format!("result of {:?}: {}", t, e))?, o) {
                    (Ok(a), Ok(b)) => eq(|| format!("result of {:?}", t), &a, b)?,
                    (Err(e), Err(d)) => {
                        eq(|| format!("error of {:?}", t), e.to_string(), failure(d)?.to_string())?;
                        eq(|| format!("error data of {:?}", t), &e.data::<Value>().map_err(|e| e.to_string())?, d)?;
                    }
                    _ => return Err(format!("result and error are confused in {:?}", t)),
                }
            }
        }
        kept = Some(r);
    }
    Ok(2)
}

fn c10(case: &Value) -> Outcome {
    let mut w = 0;
    for m in case.get("messages").and_then(|m| m.as_array()).into_iter().flatten() {
        w += message(m)?;
    }
    if let Some(lines) = case.get("lines").and_then(|l| l.as_array()) {
        w += requests(lines)?;
    }
    Ok(w > 1)
}

fn params(r: &mut Rng) -> Option<Value> {
    let name = |r: &mut Rng| {
        *r.pick(&[
            "",
            "*scratch*",
            "*debug*",
            "one",
            "empty",
            "sub/tête",
            "nope",
            "new",
            "*scratch*{*}",
            "one{*}",
            "open",
            "quit",
            "exec",
            "view_add",
        ])
    };
    let key = |r: &mut Rng| {
        let k = match r.below(4) {
            0 => json!({"Char": *r.pick(&["x", "é", "h", "l", "\n", "A", "d", "g"])}),
            1 => json!(*r.pick(&["Up", "Down", "Left", "Right", "Escape", "Enter", "Backspace"])),
            2 => json!({"Char": *r.pick(&["", "ab"])}),
            _ => json!("Home"),
        };
        json!({"ctrl": r.chance(1, 5), "alt": false, "shift": r.chance(1, 5), "key": k})
    };
    Some(match r.below(12) {
        0 => return None,
        1 => Value::Null,
        2 => json!({"name": name(r), "scratch": r.chance(1, 2)}),
        3 => json!({"command": name(r), "search": *r.pick(&["", "s c", "("])}),
        4 => json!({"command": name(r), "choice": name(r)}),
        5 => json!((0..r.below(3)).map(|_| key(r)).collect::<Vec<_>>()),
        6 => json!({"name": name(r)}),
        7 => json!(r.below(9)),
        8 => json!(*r.pick(&["local x = 1", "error('no')", "(", "editor:debug('é')"])),
        _ => json!(name(r)),
    })
}

fn line(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        return r
            .pick(&[
                "",
                "{",
                "null",
                "{}",
                "[]",
                "42",
                "\"quit\"",
                "{\"jsonrpc\":\"2.0\",\"id\":1}",
                "{\"jsonrpc\":\"2.0\",\"method\":\"quit\"}",
                "{\"method\":\"quit\",\"id\":3}",
                "é",
                "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":8}",
            ])
            .to_string();
    }
    let mut v = json!({"jsonrpc": "2.0"});
    v["id"] = match r.below(8) {
        0 => Value::Null,
        1 => json!("é"),
        2 => json!(3000000000u64),
        3 => json!([1]),
        n => json!(n as i64 - 5),
    };
    let methods = [METHODS, &["", "Quit", "viewx", "é", "view-", "menu_select"]].concat();
    v["method"] = json!(*r.pick(&methods));
    if let Some(p) = params(r) {
        v["params"] = p;
    }
    v.to_string()
}

fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => json!(r.chance(1, 2)),
        1 => json!(r.next() as i64),
        2 => json!(0.5),
        3 | 4 => json!(text(r, 6)),
        5 => Value::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        _ => {
            let mut o = serde_json::Map::new();
            for _ in 0..r.below(4) {
                o.insert(text(r, 3), value(r, depth - 1));
            }
            Value::Object(o)
        }
    }
}

fn c10_gen(r: &mut Rng, _size: usize) -> Value {
    let messages: Vec<Value> = (0..1 + r.below(4))
        .map(|_| {
            let id = match r.below(4) {
                0 => Value::Null,
                1 => json!(text(r, 5)),
                _ => json!(r.next() as i32),
            };
            let mut m = json!({"id": id, "method": text(r, 6), "code": r.next() as i32});
            if r.chance(3, 4) {
                m["params"] = value(r, 2);
            }
            m
        })
        .collect();
    let lines: Vec<String> = (0..8 + r.below(12)).map(|_| line(r)).collect();
    json!({"messages": messages, "lines": lines})
}

fn c10_small(visit: &mut dyn FnMut(Value)) {
    let ids = [json!(null), json!(0), json!(-1), json!(i32::MAX), json!(i32::MIN), json!(""), json!("x\"é\n")];
    let some = [json!(true), json!(0), json!(""), json!([]), json!({}), json!([null]), json!({"a": [1, "é"]})];
    for id in &ids {
        for p in some.iter().map(Some).chain([None]) {
            let mut m = json!({"id": id, "method": "é", "code": -32000});
            if let Some(p) = p {
                m["params"] = p.clone();
            }
            visit(json!({"messages": [m]}));
        }
    }
    let ps = [
        json!(null),
        json!("*scratch*"),
        json!("nope"),
        json!(3),
        json!([]),
        json!({}),
        json!({"name": "x", "scratch": true}),
        json!({"name": "nope", "scratch": false}),
        json!({"command": "", "search": ""}),
        json!({"command": "", "choice": "quit"}),
        json!({"command": "nope", "search": "", "choice": "x"}),
        json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "x"}}]),
    ];
    for m in METHODS.iter().chain(&["", "nope"]) {
        let mut lines = Vec::new();
        for id in [json!(1), json!("a")] {
            lines.push(json!({"jsonrpc": "2.0", "id": id, "method": m}).to_string());
            for p in &ps {
                lines.push(json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}).to_string());
            }
        }
        visit(json!({"lines": lines}));
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "requests that are answered with something else than the unparsable error, and messages that are read back",
        check: c10,
        small: c10_small,
        gen: c10_gen,
    }]
}
