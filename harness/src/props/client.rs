//! C13 to C16: who gets a notification, what the client makes of it, what the client sends.
use crate::util::*;
use ced_remote as remote;
use remote::protocol::{notifications as p, Text};
use remote::{ClientEvent, ConnectionEvent, ConnectionState, Menu};
use serde_json::{json, Value};

// ---- C13 -------------------------------------------------------------------

fn c13(case: &Value) -> Outcome {
    use ced::server::BroadcastMessage;
    use p::Notification as _;
    let msg = || p::Echo::new(Text::from("x".to_owned()));
    let (bm, to) = if case["to"].is_null() {
        (BroadcastMessage::new(msg()), None)
    } else {
        let ids: Vec<usize> = list(case, "to").iter().map(|v| v.as_u64().unwrap_or(0) as usize).collect();
        (BroadcastMessage::for_clients(ids.clone(), msg()), Some(ids))
    };
    for v in list(case, "ask") {
        let id = v.as_u64().unwrap_or(0) as usize;
        let want = match &to {
            None => true,
            Some(ids) => ids.iter().any(|&x| x == id),
        };
        eq(|| format!("should_notify({})", id), bm.should_notify(id), want)?;
    }
    Ok(to.map_or(true, |t| !t.is_empty()))
}

fn c13_small(f: &mut dyn FnMut(Value)) {
    let ask: Vec<usize> = (0..5).collect();
    f(json!({"to": null, "ask": ask}));
    for a in 0..4 {
        f(json!({"to": [a], "ask": ask}));
        for b in 0..4 {
            f(json!({"to": [a, b], "ask": ask}));
            for c in 0..4 {
                f(json!({"to": [a, b, c], "ask": ask}));
            }
        }
    }
    f(json!({"to": [], "ask": ask}));
}

fn c13_gen(r: &mut Rng, i: usize) -> Value {
    let top = 2 + r.below(4 + i % 200);
    let k = r.below(12);
    let to: Vec<usize> = (0..k).map(|_| r.below(top)).collect();
    let mut ask: Vec<usize> = (0..6).map(|_| r.below(top + 2)).collect();
    ask.extend(&to);
    if r.chance(1, 12) {
        json!({"to": null, "ask": ask})
    } else {
        json!({"to": to, "ask": ask})
    }
}

// ---- C14 -------------------------------------------------------------------

fn dump_menu(m: &Menu) -> Value {
    json!({"command": m.command, "title": m.title, "search": m.search, "entries": m.entries.iter().map(|e| serde_json::to_value(e).unwrap()).collect::<Vec<_>>(), "selected": m.selected})
}

fn dump(s: &ConnectionState) -> Value {
    json!({
        "client": s.client,
        "session": s.session,
        "echo": s.echo.as_ref().map(|t| serde_json::to_value(t).unwrap()),
        "status": serde_json::to_value(&s.status).unwrap(),
        "view": serde_json::to_value(&s.view).unwrap(),
        "menu": s.menu.as_ref().map(dump_menu),
    })
}

fn dump_event(e: &Option<ConnectionEvent>) -> Value {
    match e {
        None => Value::Null,
        Some(ConnectionEvent::ConnErr(x)) => json!(["err", x]),
        Some(ConnectionEvent::Noop) => json!(["noop"]),
        Some(ConnectionEvent::Echo(t)) => json!(["echo", serde_json::to_value(t).unwrap()]),
        Some(ConnectionEvent::Hint(t)) => json!(["hint", serde_json::to_value(t).unwrap()]),
        Some(ConnectionEvent::Info(a, b)) => json!(["info", a, b]),
        Some(ConnectionEvent::Menu(m)) => json!(["menu", dump_menu(m)]),
        Some(ConnectionEvent::Status(t)) => json!(["status", serde_json::to_value(t).unwrap()]),
        Some(ConnectionEvent::View(t)) => json!(["view", serde_json::to_value(t).unwrap()]),
    }
}

fn is_text(v: &Value) -> bool {
    serde_json::from_value::<Text>(v.clone()).is_ok()
}

/// What the reference makes of a notification: the new state and the event.
fn mirror(state: &mut Value, m: &str, params: &Value) -> Value {
    let str_of = |k: &str| params[k].as_str().map(|x| x.to_owned());
    match m {
        "echo" if is_text(params) && !params.is_null() => {
            let t = serde_json::to_value(serde_json::from_value::<Text>(params.clone()).unwrap()).unwrap();
            state["echo"] = t.clone();
            json!(["echo", t])
        }
        "hint" => match serde_json::from_value::<p::HintParams>(params.clone()) {
            Ok(h) => json!(["hint", serde_json::to_value(h).unwrap()]),
            Err(_) => Value::Null,
        },
        "info" => match (str_of("client"), str_of("session"), str_of("cwd")) {
            (Some(c), Some(s), Some(_)) => {
                state["client"] = json!(c);
                state["session"] = json!(s);
                json!(["info", c, s])
            }
            _ => Value::Null,
        },
        "menu" => match serde_json::from_value::<p::MenuParams>(params.clone()) {
            Ok(m) => {
                let menu = json!({"command": m.command, "title": m.title, "search": m.search, "entries": serde_json::to_value(&m.entries).unwrap(), "selected": 0});
                state["menu"] = menu.clone();
                state["echo"] = Value::Null;
                json!(["menu", menu])
            }
            Err(_) => Value::Null,
        },
        "status" => match serde_json::from_value::<p::StatusParams>(params.clone()) {
            Ok(v) => {
                state["status"] = serde_json::to_value(&v).unwrap();
                json!(["status", state["status"]])
            }
            Err(_) => Value::Null,
        },
        "view" => match serde_json::from_value::<p::ViewParams>(params.clone()) {
            Ok(v) => {
                state["view"] = serde_json::to_value(&v).unwrap();
                json!(["view", state["view"]])
            }
            Err(_) => Value::Null,
        },
        _ => Value::Null,
    }
}

#[cfg(feature = "hooks")]
fn c14(case: &Value) -> Outcome {
    let mut real = ConnectionState::default();
    let mut want = json!({"client": "", "session": "", "echo": null, "status": [], "view": [], "menu": null});
    for (i, ev) in list(case, "events").iter().enumerate() {
        let line = ev.to_string();
        let event: ClientEvent = match line.parse() {
            Ok(e) => e,
            Err(_) => continue,
        };
        let wev = match (&event, ev["method"].as_str()) {
            (ClientEvent::Notification(_), Some(m)) => mirror(&mut want, m, &ev["params"]),
            _ => Value::Null,
        };
        // the menu on display may have been moved before the next message
        let got = real.verif_event_update(&event);
        eq(|| format!("event {} reported", i), dump_event(&got), wev)?;
        eq(|| format!("state after event {}", i), dump(&real), want.clone())?;
        if ev["then"] == json!("next") {
            if let Some(m) = real.menu.as_mut() {
                m.verif_select_next();
                want["menu"]["selected"] = json!(m.selected);
            }
        }
    }
    Ok(list(case, "events").len() > 1)
}

#[cfg(not(feature = "hooks"))]
fn c14(_: &Value) -> Outcome {
    let _ = (dump, dump_event, mirror);
    let _: Option<(ClientEvent, ConnectionState)> = None;
    Ok(false)
}

fn notif(m: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "method": m, "params": params})
}

fn text_json(t: &str) -> Value {
    serde_json::to_value(Text::from(t.to_owned())).unwrap()
}

fn params(m: &str, x: &str, k: usize) -> Value {
    match m {
        "echo" => text_json(x),
        "hint" => json!({"text": (0..k).map(|_| text_json(x)).collect::<Vec<_>>()}),
        "info" => json!({"client": x, "session": format!("s{}", x), "cwd": "/"}),
        "menu" => json!({"command": format!("c{}", x), "title": format!("t{}", x), "search": x, "entries": (0..k).map(|i| json!({"value": format!("{}{}", x, i), "text": text_json(x), "description": if i % 2 == 0 { json!(x) } else { json!(null) }})).collect::<Vec<_>>()}),
        "status" => json!((0..k).map(|i| json!({"index": i, "text": text_json(x)})).collect::<Vec<_>>()),
        "view" => json!((0..k).map(|i| json!({"buffer": x, "start": i, "end": i + k, "lenses": [{"lines": [text_json(x)], "first_line_num": i}]})).collect::<Vec<_>>()),
        _ => json!({"x": x}),
    }
}

const METHODS: &[&str] = &["echo", "hint", "info", "menu", "status", "view", "other", "Echo", ""];

fn event_of(kind: usize, m: &str, x: &str, k: usize) -> Value {
    match kind {
        0 => notif(m, params(m, x, k)),
        1 => json!({"jsonrpc": "2.0", "method": m}),
        2 => notif(m, Value::Null),
        3 => notif(m, json!(12)),
        4 => notif(m, json!({"client": x, "command": "c", "text": 3})),
        5 => notif(m, json!([{"index": 1}])),
        6 => json!({"jsonrpc": "2.0", "id": k, "result": params(m, x, k)}),
        7 => json!({"jsonrpc": "2.0", "id": m, "error": {"code": 1, "message": x, "data": null}}),
        _ => notif(m, params("menu", x, k)),
    }
}

fn c14_small(f: &mut dyn FnMut(Value)) {
    let mut singles = Vec::new();
    for m in METHODS {
        for kind in 0..9 {
            singles.push(event_of(kind, m, "a", 2));
        }
    }
    for a in &singles {
        f(json!({"events": [a]}));
    }
    for m in METHODS {
        for a in &singles {
            f(json!({"events": [event_of(0, m, "b", 1), a]}));
            f(json!({"events": [event_of(0, "menu", "q", 3), event_of(0, m, "b", 1), a]}));
        }
    }
}

fn c14_gen(r: &mut Rng, i: usize) -> Value {
    let count = 1 + r.below(3 + i % 12);
    let mut evs = Vec::new();
    for _ in 0..count {
        let kind = if r.chance(3, 4) { 0 } else { r.below(9) };
        let known = if r.chance(9, 10) { 6 } else { METHODS.len() };
        let m = METHODS[r.below(known)];
        let x = text(r, 2);
        let k = r.below(4);
        let mut e = event_of(kind, m, &x, k);
        if r.chance(1, 4) {
            e["then"] = json!("next");
        }
        evs.push(e);
    }
    json!({"events": evs})
}

// ---- C15 -------------------------------------------------------------------

#[cfg(feature = "hooks")]
fn c15(case: &Value) -> Outcome {
    let values: Vec<String> = list(case, "entries").iter().map(|v| v.as_str().unwrap_or("").to_owned()).collect();
    let entries: Vec<p::MenuParamsEntry> =
        values.iter().map(|v| p::MenuParamsEntry { value: v.clone(), text: Text::from(v.clone()), description: None }).collect();
    let mut m = Menu { command: "c".into(), title: "t".into(), search: "s".into(), entries, selected: 0 };
    let mut at = 0usize;
    let before = dump_menu(&m);
    for c in s(case, "moves").chars() {
        if c == 'n' {
            m.verif_select_next();
            if at + 1 < values.len() {
                at += 1;
            }
        } else {
            m.verif_select_previous();
            at = at.saturating_sub(1);
        }
        eq(|| format!("cursor after {}", c), m.selected, at)?;
        eq(|| "selected item".into(), m.verif_selected_item().to_owned(), values.get(at).cloned().unwrap_or_default())?;
        let mut now = dump_menu(&m);
        now["selected"] = json!(0);
        eq(|| "the rest of the menu".into(), now, before.clone())?;
    }
    Ok(values.len() > 1)
}

#[cfg(not(feature = "hooks"))]
fn c15(_: &Value) -> Outcome {
    Ok(false)
}

fn c15_small(f: &mut dyn FnMut(Value)) {
    for k in 0..4 {
        let entries: Vec<String> = (0..k).map(|i| format!("e{}", i)).collect();
        for w in words(&["n", "p"], 6) {
            f(json!({"entries": entries, "moves": w}));
        }
    }
}

fn c15_gen(r: &mut Rng, i: usize) -> Value {
    let k = r.below(2 + i % 30);
    let entries: Vec<String> = (0..k).map(|_| text(r, 2)).collect();
    let moves: String = (0..r.below(3 * k + 4)).map(|_| if r.chance(2, 3) { 'n' } else { 'p' }).collect();
    json!({"entries": entries, "moves": moves})
}

// ---- C16 -------------------------------------------------------------------

fn scratch() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let mut d = std::env::temp_dir();
    d.push(format!("ced-verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    d
}

/// A connection to a server that sends one menu, then only listens.
fn c16(case: &Value) -> Outcome {
    use futures_lite::{future, StreamExt};
    use std::io::{BufRead, BufReader, Write};
    #[cfg(feature = "hooks")]
    if n(case, "many") > 0 {
        let mut conn = remote::Connection::new(remote::Session { mode: remote::ConnectionMode::Socket("/nowhere".into()) });
        for i in 0..n(case, "many") {
            let id = serde_json::to_value(conn.verif_request_id()).unwrap();
            eq(|| format!("id number {}", i), id, json!(i))?;
        }
        return Ok(true);
    }
    let entries = case.get("entries").map_or(2, |x| x.as_u64().unwrap_or(2) as usize);
    let sock = scratch();
    let _ = std::fs::remove_file(&sock);
    let listener = std::os::unix::net::UnixListener::bind(&sock).map_err(|e| format!("harness: {}", e))?;
    let server = std::thread::spawn(move || {
        let (mut st, _) = listener.accept().unwrap();
        let m = notif("menu", params("menu", "m", entries));
        st.write_all(format!("{}\n", m).as_bytes()).unwrap();
        BufReader::new(st).lines().map(|l| l.unwrap()).collect::<Vec<_>>()
    });
    let mut conn = remote::Connection::new(remote::Session { mode: remote::ConnectionMode::Socket(sock.clone()) });
    let (mut events, requests) = future::block_on(conn.connect());
    let first = future::block_on(events.next());
    ensure(matches!(first, Some(ConnectionEvent::Menu(_))), || format!("the menu did not arrive: {:?}", first.is_some()))?;
    let mut want = 0;
    let mut menu = true;
    for c in s(case, "acts").chars() {
        match c {
            'e' => conn.edit("f".into(), true),
            'm' => conn.menu("open", "x"),
            'E' => conn.edit("".into(), true),
            'F' => conn.edit("a b/é".into(), false),
            'M' => conn.menu("", ""),
            'K' => conn.keys(vec![remote::protocol::KeyEvent::from('A'), remote::protocol::KeyEvent::from("c-a-s-up")]),
            'X' => conn.exec(""),
            's' => {
                conn.menu_select();
                if !menu {
                    continue;
                }
                menu = false;
            }
            'k' => conn.keys(vec![]),
            'x' => conn.exec("return 1"),
            'n' => {
                conn.action_menu_select_next();
                continue;
            }
            'p' => {
                conn.action_menu_select_previous();
                continue;
            }
            'c' => {
                conn.action_menu_cancel();
                menu = false;
                continue;
            }
            _ => conn.quit(),
        }
        want += 1;
    }
    drop(conn);
    future::block_on(requests);
    drop(events);
    let lines = server.join().map_err(|_| "harness: the listener died".to_owned())?;
    let _ = std::fs::remove_file(&sock);
    eq(|| "number of requests".into(), lines.len(), want)?;
    for (i, l) in lines.iter().enumerate() {
        let v: Value = serde_json::from_str(l).map_err(|e| format!("request {} is not JSON: {}", i, e))?;
        eq(|| format!("id of request {}", i), v["id"].clone(), json!(i))?;
    }
    Ok(want > 1)
}

fn c16_small(f: &mut dyn FnMut(Value)) {
    for w in words(&["e", "m", "s", "k", "x", "q"], 2) {
        f(json!({ "acts": w }));
    }
    for w in words(&["E", "F", "M", "K", "X", "s"], 2) {
        f(json!({ "acts": w, "entries": 0 }));
    }
    f(json!({ "many": 300_000 }));
    for w in words(&["e", "s", "n", "c"], 3) {
        f(json!({ "acts": w }));
    }
}

fn c16_gen(r: &mut Rng, i: usize) -> Value {
    let acts: String = (0..1 + r.below(4 + i % 40)).map(|_| *r.pick(&['e', 'm', 's', 'k', 'x', 'q', 'n', 'p', 'c', 'E', 'F', 'M', 'K', 'X'])).collect();
    json!({ "acts": acts, "entries": r.below(4) })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", rule: "a notification for a list of clients or for all, and client ids asked about; non-trivial when the list is not empty", check: c13, small: c13_small, gen: c13_gen },
        Prop { id: "C14", rule: "a list of server messages (every kind, with well-formed, malformed, missing and null parameters) fed to a client state, state and event compared with a reference after each; non-trivial with two or more messages", check: c14, small: c14_small, gen: c14_gen },
        Prop { id: "C15", rule: "entries and a list of moves; cursor, selected item and the rest of the menu compared after each; non-trivial with two or more entries", check: c15, small: c15_small, gen: c15_gen },
        Prop { id: "C16", rule: "a list of client actions on a real connection to a listening socket, the ids of the lines it received compared; non-trivial with two or more requests", check: c16, small: c16_small, gen: c16_gen },
    ]
}
