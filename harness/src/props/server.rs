//! C21: the real server over a scratch socket.
use crate::props::editor::scratch;
use crate::util::*;
use ced::server::Server;
use ced_remote::{ConnectionMode, Session};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::net::Shutdown;
use std::os::unix::net::UnixStream;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(8);

struct Client {
    stream: UnixStream,
    /// the ids it has a right to read back, in order
    owed: Vec<Value>,
    quit: bool,
    gone: bool,
    next: usize,
}

fn connect(path: &Path) -> Result<UnixStream, String> {
    let start = Instant::now();
    loop {
        match UnixStream::connect(path) {
            Ok(s) => {
                s.set_read_timeout(Some(PATIENCE)).unwrap();
                s.set_write_timeout(Some(PATIENCE)).unwrap();
                return Ok(s);
            }
            Err(e) if start.elapsed() > PATIENCE => return Err(format!("cannot connect: {}", e)),
            Err(_) => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}

/// Reads the answers up to the end of the stream, or up to the one with id `until`.
fn answers(stream: &UnixStream, until: Option<&Value>) -> Result<Vec<Value>, String> {
    let mut out = Vec::new();
    let mut r = BufReader::new(stream);
    loop {
        let mut line = String::new();
        match r.read_line(&mut line) {
            Ok(0) => return Ok(out),
            Ok(_) => {}
            Err(e) => return Err(format!("waiting for the server: {}, after {:?}", e, out)),
        }
        let v: Value = serde_json::from_str(&line).map_err(|e| format!("not a message: {:?} {}", line, e))?;
        if v.get("method").is_some() {
            continue;
        }
        let id = v["id"].clone();
        out.push(id.clone());
        if Some(&id) == until {
            return Ok(out);
        }
    }
}

impl Client {
    fn new(path: &Path) -> Result<Client, String> {
        Ok(Client { stream: connect(path)?, owed: Vec::new(), quit: false, gone: false, next: 0 })
    }
    fn request(&mut self, who: usize, method: &str, params: Value) -> Value {
        let id = json!(format!("{}-{}", who, self.next));
        self.next += 1;
        let mut line = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string();
        line.push('\n');
        self.write(line.as_bytes());
        if !self.quit {
            self.owed.push(id.clone());
        }
        id
    }
    fn write(&mut self, bytes: &[u8]) {
        // the server may have closed its end
        let _ = self.stream.write_all(bytes);
    }
}

/// lines that are no requests, every one of them valid UTF-8
const NOISE: &[&str] = &["", "é", "{", "null", "[]", "{}", "{\"jsonrpc\":\"2.0\"}", "\"quit\"", "{\"id\":1,\"method\":3}", "\u{0}"];

fn step(c: &mut Client, who: usize, st: &Value) {
    match st[0].as_str().unwrap_or("") {
        "ask" => {
            c.request(who, "nothing", json!([]));
        }
        "malformed" => {
            c.request(who, "edit", json!({"name": 3}));
        }
        "view" => {
            c.request(who, "edit", json!({"name": "", "scratch": true}));
        }
        "open" => {
            c.request(who, "edit", json!({"name": "one", "scratch": false}));
        }
        "keys" => {
            c.request(who, "keys", json!([{"ctrl": false, "alt": false, "shift": false, "key": {"Char": "x"}}]));
        }
        "noise" => {
            let i = st[2].as_u64().unwrap_or(0) as usize % NOISE.len();
            c.write(NOISE[i].as_bytes());
            c.write(b"\n");
            if !c.quit {
                c.owed.push(Value::Null);
            }
        }
        "part" => {
            // two requests in three writes
            let a = json!(format!("{}-{}", who, c.next));
            let b = json!(format!("{}-{}", who, c.next + 1));
            c.next += 2;
            let all = format!(
                "{}\n{}\n",
                json!({"jsonrpc": "2.0", "id": a, "method": "nothing", "params": []}),
                json!({"jsonrpc": "2.0", "id": b, "method": "nothing"})
            );
            let (x, y) = all.as_bytes().split_at(7);
            let (y, z) = y.split_at(y.len() / 2);
            for p in [x, y, z] {
                c.write(p);
            }
            if !c.quit {
                c.owed.push(a);
                c.owed.push(b);
            }
        }
        "quit" => {
            c.request(who, "quit", json!([]));
            c.quit = true;
        }
        _ => {}
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// Removes the folder whatever happened.
struct Folder(std::path::PathBuf);
impl Drop for Folder {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A server that ended in this process leaves its listener open: so many can be run.
fn room() -> usize {
    let limits = std::fs::read_to_string("/proc/self/limits").unwrap_or_default();
    let line = limits.lines().find(|l| l.starts_with("Max open files"));
    let soft = line.and_then(|l| l.split_whitespace().nth(3)).and_then(|n| n.parse::<usize>().ok()).unwrap_or(1024);
    soft.saturating_sub(200) / 2
}

fn check(v: &Value) -> Outcome {
    if NEXT.load(Ordering::SeqCst) > room() {
        return Ok(false);
    }
    let dir = Folder(scratch().join(format!("srv-{}", NEXT.fetch_add(1, Ordering::SeqCst))));
    std::fs::create_dir_all(&dir.0).unwrap();
    // keeps the folder of the socket from being emptied
    std::fs::write(dir.0.join("keep"), "").unwrap();
    let path = dir.0.join("sock");
    let mode = ConnectionMode::Socket(path.clone());
    let (tx, rx) = std::sync::mpsc::channel();
    let over = Arc::new(AtomicBool::new(false));
    let ended = over.clone();
    let server = std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| Server::new(Session { mode }).run());
        ended.store(true, Ordering::SeqCst);
        let _ = tx.send(match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("the server stopped: {}", e)),
            Err(p) => Err(format!(
                "the server panicked: {}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
        });
    });
    let r = talk(v, &path, &over);
    match r {
        Ok(n) => {
            match rx.recv_timeout(PATIENCE) {
                Ok(r) => r?,
                Err(_) => return Err("the server goes on after its last client left".to_string()),
            }
            let _ = server.join();
            Ok(n)
        }
        Err(why) => match rx.try_recv() {
            Ok(Err(panic)) => Err(format!("{} ({})", panic, why)),
            _ => Err(why),
        },
    }
}

fn talk(v: &Value, path: &Path, ended: &AtomicBool) -> Outcome {
    let empty = Vec::new();
    let steps = v.as_array().unwrap_or(&empty);
    // stays until the others are done
    let mut witness = Client::new(path)?;
    let ready = witness.request(99, "nothing", json!([]));
    let got = answers(&witness.stream, Some(&ready))?;
    eq(|| "the first answer".to_string(), &got, &vec![ready])?;
    witness.owed.clear();
    let mut cs: Vec<Client> = Vec::new();
    for st in steps {
        if st[0] == "join" {
            if cs.len() < 6 {
                cs.push(Client::new(path)?);
            }
            continue;
        }
        if st[0] == "witness" {
            witness.request(99, "nothing", json!([]));
            continue;
        }
        if cs.is_empty() {
            continue;
        }
        let who = st[1].as_u64().unwrap_or(0) as usize % cs.len();
        let c = &mut cs[who];
        if c.gone {
            continue;
        }
        match st[0].as_str().unwrap_or("") {
            // closes with answers and messages unread
            "drop" => {
                c.gone = true;
                let _ = c.stream.shutdown(Shutdown::Both);
            }
            // breaks off in a line that is no text
            "garble" => {
                c.write(b"\xff\xfe\n");
                c.gone = true;
                let _ = c.stream.shutdown(Shutdown::Both);
            }
            _ => step(c, who, st),
        }
    }
    for (who, c) in cs.iter().enumerate() {
        if c.gone {
            continue;
        }
        let _ = c.stream.shutdown(Shutdown::Write);
        let got = answers(&c.stream, None).map_err(|e| format!("client {}: {}", who, e))?;
        eq(|| format!("what client {} is answered", who), &got, &c.owed)?;
    }
    ensure(!ended.load(Ordering::SeqCst), || "the server ended with a client connected".to_string())?;
    let last = witness.request(99, "quit", json!([]));
    let got = answers(&witness.stream, Some(&last))?;
    eq(|| "what the client that stayed is answered".to_string(), &got, &witness.owed)?;
    witness.request(99, "nothing", json!([]));
    let _ = witness.stream.shutdown(Shutdown::Write);
    // the end of the stream, or of the server, whichever comes first
    let mut after = Vec::new();
    witness.stream.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    let start = Instant::now();
    loop {
        use std::io::Read;
        let mut buf = [0; 512];
        let over = ended.load(Ordering::SeqCst);
        match (&witness.stream).read(&mut buf) {
            Ok(0) => break,
            Ok(n) => after.extend_from_slice(&buf[..n]),
            Err(_) if over => break,
            Err(e) => ensure(start.elapsed() < PATIENCE, || format!("after the end: {}", e))?,
        }
    }
    let after = String::from_utf8_lossy(&after).to_string();
    eq(|| "what comes after the answer to quit".to_string(), &after, &String::new())?;
    Ok(cs.iter().filter(|c| c.gone || !c.owed.is_empty()).count() > 1)
}

const ACTS: &[&str] = &["ask", "malformed", "view", "open", "keys", "noise", "part", "quit", "drop", "garble"];

fn small(f: &mut dyn FnMut(Value)) {
    for a in ACTS {
        f(json!([["join"], [a, 0]]));
        for b in ACTS {
            f(json!([["join"], [a, 0], [b, 0]]));
            f(json!([["join"], ["join"], ["view", 1], [a, 0], [b, 1], ["ask", 1], ["witness"]]));
        }
    }
    for i in 0..NOISE.len() {
        f(json!([["join"], ["ask", 0], ["noise", 0, i], ["ask", 0]]));
    }
}

fn gen(r: &mut Rng, i: usize) -> Value {
    let n = 2 + r.below(4 + (i / 4).min(40));
    let mut steps = vec![json!(["join"]), json!(["join"])];
    for _ in 0..n {
        if r.chance(1, 10) {
            steps.push(json!(["join"]));
        } else if r.chance(1, 12) {
            steps.push(json!(["witness"]));
        } else {
            let k = if r.chance(1, 5) { ACTS.len() } else { 7 };
            steps.push(json!([ACTS[r.below(k)], r.below(6), r.below(NOISE.len())]));
        }
    }
    Value::Array(steps)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "a real server on a scratch socket; steps join/request/malformed/noise/split lines/quit/close/close with unread data/undecodable line over up to six clients and one that stays to the end; non-trivial: two or more clients were answered or left early",
        check,
        small,
        gen,
    }]
}
