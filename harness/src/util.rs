//! Case generation, execution, shrinking and reporting shared by all properties.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

/// What one case showed: `Ok(true)` when it was a non-trivial one.
pub type Outcome = Result<bool, String>;

pub struct Prop {
    pub id: &'static str,
    /// How the cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub check: fn(&Value) -> Outcome,
    /// Enumerates the small scope.
    pub small: fn(&mut dyn FnMut(Value)),
    /// Size class grows with the index.
    pub gen: fn(&mut Rng, usize) -> Value,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs the case; a panic that the property's check does not handle itself is a violation.
pub fn run(check: fn(&Value) -> Outcome, case: &Value) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| check(case))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn shrinks(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Array(xs) => {
            let n = xs.len();
            let mut size = n / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= n {
                    let mut ys = xs.clone();
                    ys.drain(i..i + size);
                    out.push(Value::Array(ys));
                    i += size;
                }
                size /= 2;
            }
            for (i, x) in xs.iter().enumerate() {
                for s in shrinks(x) {
                    let mut ys = xs.clone();
                    ys[i] = s;
                    out.push(Value::Array(ys));
                }
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                for s in shrinks(x) {
                    let mut m2 = m.clone();
                    m2.insert(k.clone(), s);
                    out.push(Value::Object(m2));
                }
            }
        }
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            let n = cs.len();
            let mut size = n / 2;
            if n == 1 {
                size = 1;
            }
            while size >= 1 {
                let mut i = 0;
                while i + size <= n {
                    let mut ys = cs.clone();
                    ys.drain(i..i + size);
                    out.push(Value::String(ys.into_iter().collect()));
                    i += size;
                }
                size /= 2;
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                if n > 0 {
                    out.push(json!(0));
                    if n > 2 {
                        out.push(json!(n / 2));
                    }
                    out.push(json!(n - 1));
                }
            }
        }
        _ => {}
    }
    out
}

/// Greedy: keep the first smaller case that still fails.
pub fn shrink(check: fn(&Value) -> Outcome, case: &Value, why: String) -> (Value, String) {
    let deadline = Instant::now() + Duration::from_secs(15);
    let mut best = (case.clone(), why);
    let mut budget = 4000;
    'again: loop {
        for c in shrinks(&best.0) {
            if budget == 0 || Instant::now() > deadline {
                return best;
            }
            budget -= 1;
            if let Err(w) = run(check, &c) {
                best = (c, w);
                continue 'again;
            }
        }
        return best;
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub exhaustive: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    fn note(&mut self, case: &Value, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.to_string().hash(&mut h);
            let fresh = self.nontrivial.insert(h.finish());
            let n = self.nontrivial.len();
            if fresh && (n == 1 || n == 100 || n == 1000 || n == 10000) {
                self.samples.push(case.clone());
            }
        }
    }
}

pub struct Budget {
    pub small: Duration,
    pub random: Duration,
    pub seed: u64,
    /// Path of a file that names each case before it runs, to find one that kills the process.
    pub journal: Option<String>,
    pub hang: Duration,
}

pub enum Verdict {
    Held,
    Failed { case: Value, why: String, shrunk: bool },
}

pub struct Report {
    pub verdict: Verdict,
    pub stats: Stats,
    pub small_complete: bool,
    pub wall: f64,
}

type Current = Arc<Mutex<Option<(Instant, Value)>>>;

struct Runner {
    check: fn(&Value) -> Outcome,
    current: Current,
    stats: Stats,
    failed: Option<(Value, String)>,
    journal: Option<String>,
}

impl Runner {
    fn one(&mut self, case: Value) {
        if self.failed.is_some() {
            return;
        }
        if let Some(j) = &self.journal {
            std::fs::write(j, case.to_string()).expect("journal");
        }
        *self.current.lock().unwrap() = Some((Instant::now(), case.clone()));
        let r = run(self.check, &case);
        *self.current.lock().unwrap() = None;
        match r {
            Ok(n) => self.stats.note(&case, n),
            Err(why) => {
                self.stats.note(&case, true);
                self.failed = Some((case, why));
            }
        }
    }
}

pub fn explore(p: &'static Prop, b: Budget) -> Report {
    let start = Instant::now();
    let current: Current = Arc::new(Mutex::new(None));
    let cur2 = current.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    let (hang, small, random, seed) = (b.hang, b.small, b.random, b.seed);
    let journal = b.journal;
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut r = Runner {
                check: p.check,
                current: cur2,
                stats: Stats::default(),
                failed: None,
                journal,
            };
            let t0 = Instant::now();
            let mut complete = true;
            (p.small)(&mut |case| {
                if t0.elapsed() > small {
                    complete = false;
                } else {
                    r.one(case);
                }
            });
            r.stats.exhaustive = r.stats.evaluations;
            let t1 = Instant::now();
            let mut rng = Rng::new(seed);
            let mut i = 0;
            while r.failed.is_none() && t1.elapsed() < random {
                let case = (p.gen)(&mut rng, i);
                r.one(case);
                i += 1;
            }
            let failed = r.failed.take().map(|(c, w)| {
                let (c, w) = shrink(p.check, &c, w);
                (c, w)
            });
            let _ = tx.send((failed, r.stats, complete));
        })
        .expect("worker");
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((failed, stats, complete)) => {
                return Report {
                    verdict: match failed {
                        None => Verdict::Held,
                        Some((case, why)) => Verdict::Failed { case, why, shrunk: true },
                    },
                    stats,
                    small_complete: complete,
                    wall: start.elapsed().as_secs_f64(),
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                let stuck = current
                    .lock()
                    .unwrap()
                    .as_ref()
                    .and_then(|(t, c)| (t.elapsed() > hang).then(|| c.clone()));
                if let Some(case) = stuck {
                    return Report {
                        verdict: Verdict::Failed {
                            case,
                            why: format!("no answer within {} s", hang.as_secs()),
                            shrunk: false,
                        },
                        stats: Stats::default(),
                        small_complete: false,
                        wall: start.elapsed().as_secs_f64(),
                    };
                }
            }
            Err(_) => panic!("the worker died"),
        }
    }
}

// ---- helpers for cases -------------------------------------------------------------------

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

pub fn n(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}

pub fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map_or(&[], |a| a.as_slice())
}

pub fn ensure(ok: bool, why: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(why())
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: impl FnOnce() -> String, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let short = |t: String| if t.len() > 4000 { format!("{}...", t.chars().take(1000).collect::<String>()) } else { t };
        Err(format!("{}: got {}, want {}", short(what()), short(format!("{:?}", got)), short(format!("{:?}", want))))
    }
}

pub const FRAGMENTS: &[&str] = &[
    "a", "b", "A", " ", "\n", "\n\n", "ab", "é", "e\u{301}", "🦊", "🇫🇷", "👨\u{200d}👩\u{200d}👧", "\r\n", "\r",
    "\t", "日本", "\u{301}", "x\ny", "the fox", "\u{0}", "ß", "\u{200d}", "\u{85}", "\u{2028}",
];

pub fn text(r: &mut Rng, max: usize) -> String {
    let k = r.below(max + 1);
    let mut t = String::new();
    let tame = r.chance(1, 3);
    for _ in 0..k {
        t.push_str(if tame { *r.pick(&["a", "b", "\n", "c"]) } else { *r.pick(FRAGMENTS) });
    }
    t
}

/// Every string of at most `len` symbols of the alphabet.
pub fn words(alphabet: &[&str], len: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..len {
        let mut next = Vec::new();
        for w in &last {
            for a in alphabet {
                next.push(format!("{}{}", w, a));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
