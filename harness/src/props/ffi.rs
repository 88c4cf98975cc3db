//! C22: error text for C callers.
use crate::util::*;
use serde_json::{json, Value};
use std::os::raw::{c_char, c_int};

const FILL: u8 = 0xA5;
/// bytes watched on either side of the buffer
const GUARD: usize = 64;

fn c22(case: &Value) -> Outcome {
    let message: Option<String> = case["message"].as_str().map(|m| m.repeat(n(case, "times").max(1)));
    let len = case["len"].as_i64().unwrap_or(0) as c_int;
    let null = case["null"].as_bool().unwrap_or(false);
    ced_ffi::clear_error();
    if let Some(m) = &message {
        ced_ffi::set_error("an earlier error".to_owned());
        ced_ffi::set_error(m.clone());
    }
    let size = len.max(0) as usize;
    for _ in 0..2 {
        let told = unsafe { ced_ffi::ced_last_error_length() };
        eq(|| "length told".into(), told, message.as_ref().map_or(-1, |m| m.len() as c_int))?;
    }
    // a buffer that is larger than what the callee is told
    let room = message.as_ref().map_or(0, |m| m.len()) + 1;
    let mut area = vec![FILL; GUARD + size.max(room) + GUARD];
    let r = unsafe {
        let p = if null { std::ptr::null_mut() } else { area.as_mut_ptr().add(GUARD) as *mut c_char };
        ced_ffi::ced_last_error_message(p, len)
    };
    let mut want = vec![FILL; area.len()];
    let code = match &message {
        _ if null => -1,
        None => 0,
        Some(m) if (m.len() as i64) < len as i64 => {
            want[GUARD..GUARD + m.len()].copy_from_slice(m.as_bytes());
            want[GUARD + m.len()] = 0;
            m.len() as c_int
        }
        Some(_) => -2,
    };
    eq(|| "answer".into(), r, code)?;
    if area != want {
        let at = area.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        return Err(format!("byte {} of the buffer is {:#x}, want {:#x}", at as i64 - GUARD as i64, area[at], want[at]));
    }
    let told = unsafe { ced_ffi::ced_last_error_length() };
    let left = if null { message.as_ref() } else { None };
    eq(|| "length told afterwards".into(), told, left.map_or(-1, |m| m.len() as c_int))?;
    Ok(message.is_some() && !null)
}

fn c22_small(f: &mut dyn FnMut(Value)) {
    for m in [None, Some(""), Some("a"), Some("é"), Some("an error"), Some("日本\n")] {
        for len in -3..20 {
            for null in [false, true] {
                f(json!({"message": m, "len": len, "null": null}));
            }
        }
        f(json!({"message": m, "len": i32::MIN}));
    }
}

fn c22_gen(r: &mut Rng, i: usize) -> Value {
    let m = text(r, 6);
    let times = 1 + r.below(1 + i % 100);
    let full = m.len() * times;
    let len = match r.below(4) {
        0 => r.below(full + 10) as i64,
        1 => full as i64 + r.below(4) as i64 - 2,
        2 => -(r.below(1000) as i64),
        _ => r.below(1 << 16) as i64,
    };
    json!({"message": if r.chance(1, 10) { Value::Null } else { json!(m) }, "times": times, "len": len, "null": r.chance(1, 10)})
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "small: six messages (and none) by every length from -3 to 19 and the least one, with and without a buffer; random: messages up to some thousand bytes by lengths around theirs. The buffer is watched for 64 bytes before it and up to the size of the message after it. Non-trivial: a pending error and a buffer.",
        check: c22,
        small: c22_small,
        gen: c22_gen,
    }]
}
