//! C20: names and addresses of sessions.
use crate::util::*;
use ced_remote::{ConnectionMode, Session};
use serde_json::{json, Value};
use std::net::{Ipv4Addr, SocketAddr};
use std::path::PathBuf;

fn root() -> PathBuf {
    let mut p = std::env::temp_dir();
    p.push(format!("ced-{}", std::env::var("USER").unwrap()));
    p
}

/// @a.b.c.d:port or @:port
fn address(name: &str) -> Option<SocketAddr> {
    let (host, port) = name.strip_prefix('@')?.rsplit_once(':')?;
    if port.is_empty() || !port.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let port: u16 = port.parse().ok()?;
    let host: Ipv4Addr = if host.is_empty() { Ipv4Addr::new(127, 0, 0, 1) } else { host.parse().ok()? };
    Some((host, port).into())
}

fn c20(case: &Value) -> Outcome {
    std::env::set_var("USER", "verif");
    let name = s(case, "name");
    let got = Session::from_name(name);
    let shown = got.to_string();
    match address(name) {
        Some(a) => {
            eq(|| "session".into(), got.mode.clone(), ConnectionMode::Tcp(a))?;
            eq(|| "shown".into(), shown.clone(), format!("@{}", a))?;
        }
        None => {
            if name.is_empty() || name == "." || name == ".." || name.contains('/') {
                // no file name: nothing is said but that it is no reason to panic
                return Ok(false);
            }
            eq(|| "session".into(), got.mode.clone(), ConnectionMode::Socket(root().join(name)))?;
            eq(|| "shown".into(), shown.clone(), name.to_owned())?;
        }
    }
    eq(|| format!("{:?}, read back from {:?}", name, shown), Session::from_name(&shown).mode, got.mode.clone())?;
    let mode: ConnectionMode = name.parse().unwrap();
    eq(|| "address".into(), mode, address(name).map_or(ConnectionMode::Socket(name.into()), ConnectionMode::Tcp))?;
    Ok(address(name).is_some())
}

fn c20_small(f: &mut dyn FnMut(Value)) {
    for w in words(&["@", ":", "1", ".", "a", "/", "\n", "é"], 4) {
        f(json!({ "name": w }));
    }
    for host in ["", "127.0.0.1", "0.0.0.0", "1.2.3.4", "256.1.1.1", "1.2.3", "localhost", "::1", "[::1]", "01.2.3.4", "1.2.3.4.5", "a_b"] {
        for port in ["", "0", "1", "80", "0080", "65535", "65536", "99999", "+80", "-1", "8 0", "８０", "80\n", "80a"] {
            for lead in ["@", "", "@@", " @"] {
                f(json!({"name": format!("{}{}:{}", lead, host, port)}));
            }
        }
    }
}

fn c20_gen(r: &mut Rng, _: usize) -> Value {
    if r.chance(1, 3) {
        let mut host: Vec<String> = (0..4).map(|_| r.below(300).to_string()).collect();
        if r.chance(1, 3) {
            host.clear();
        }
        return json!({"name": format!("@{}:{}", host.join("."), r.below(70000))});
    }
    let bits = ["@", ":", "1", "2", ".", "a", "/", "\n", "é", " ", "..", "127.0.0.1", "80", "_", "\0", "日"];
    json!({"name": (0..r.below(9)).map(|_| *r.pick(&bits)).collect::<String>()})
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "small: every name of at most 4 symbols over @ : 1 . a / line feed é, and 12 hosts by 14 ports by 4 prefixes; random: IPv4 addresses with ports and names of up to 8 fragments. Non-trivial: a name that denotes an address.",
        check: c20,
        small: c20_small,
        gen: c20_gen,
    }]
}
