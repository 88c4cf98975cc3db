//! Parser for the annotation files (`specs/*.vrs`).
use std::collections::HashMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub path: String,
    pub source: String,
    pub ret: Option<String>,
    pub flags: Vec<String>,
    pub sig: String,
    pub rewrites: Vec<(String, String)>,
    pub macros: Vec<(String, String)>,
    pub blocks: HashMap<String, String>,          // "entry","exit","loop 0","loop 0 end",...
    pub stmts: Vec<(bool, String, String)>,       // (before?, pattern, text)
    pub collects: HashMap<usize, String>,
    pub line: usize,
}

#[derive(Clone, Debug)]
pub enum Dir {
    Raw(String),
    Include(String),
    Type { source: String, name: String, derive: String, body: String },
    /// a regular expression whose pattern must be the given one
    Regex { source: String, name: String, lit: String },
    Const { source: String, name: String },
    Fn(String),
    Trait { source: String, name: String, body: String },
    TraitImpl { source: String, name: String, body: String },
}

#[derive(Default, Debug)]
pub struct Spec {
    pub unit: String,
    pub dirs: Vec<Dir>,
    pub fns: HashMap<String, FnSpec>,
    pub order: Vec<String>,
    pub sources: Vec<String>,
    pub arena: Option<String>,
    pub macros: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    /// macro_rules! of the sources that are expanded: (file, name)
    pub macro_rules: Vec<(String, String)>,
}

enum Cur {
    None,
    Raw(String),
    Type { source: String, name: String, derive: String, body: String },
    Trait(bool, String, String, String),
    FnSig(String),
    FnBlock(String, String),
    FnStmt(String, usize),
}

fn split_arrow(s: &str) -> (String, String) {
    let i = s.find("=>").expect("rewrite needs =>");
    (s[..i].trim().to_string(), s[i + 2..].trim().to_string())
}

pub fn parse(text: &str) -> Spec {
    let mut sp = Spec::default();
    let mut cur = Cur::None;
    let mut source = String::new();
    let mut curfn: Option<String> = None;
    fn flush(sp: &mut Spec, cur: &mut Cur) {
        match std::mem::replace(cur, Cur::None) {
            Cur::Raw(s) => sp.dirs.push(Dir::Raw(s)),
            Cur::Type { source, name, derive, body } => sp.dirs.push(Dir::Type { source, name, derive, body }),
            Cur::Trait(imp, source, name, body) => sp.dirs.push(if imp {
                Dir::TraitImpl { source, name, body }
            } else {
                Dir::Trait { source, name, body }
            }),
            _ => {}
        }
    }
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            match cmd {
                "unit" => sp.unit = rest.to_string(),
                "source" => {
                    flush(&mut sp, &mut cur);
                    source = rest.to_string()
                }
                "include" => {
                    flush(&mut sp, &mut cur);
                    sp.dirs.push(Dir::Include(rest.to_string()))
                }
                "sources" => sp.sources.extend(rest.split_whitespace().map(String::from)),
                "arena" => sp.arena = Some(rest.to_string()),
                "verus" => {
                    flush(&mut sp, &mut cur);
                    curfn = None;
                    cur = Cur::Raw(String::new());
                }
                "struct" | "enum" => {
                    flush(&mut sp, &mut cur);
                    curfn = None;
                    let mut it = rest.splitn(2, char::is_whitespace);
                    let name = it.next().unwrap().to_string();
                    let derive = it.next().unwrap_or("").trim().to_string();
                    cur = Cur::Type { source: source.clone(), name, derive, body: String::new() };
                }
                "const" => {
                    flush(&mut sp, &mut cur);
                    sp.dirs.push(Dir::Const { source: source.clone(), name: rest.to_string() });
                }
                "regex" => {
                    flush(&mut sp, &mut cur);
                    let (name, lit) = rest.split_once(char::is_whitespace).expect("regex NAME PATTERN");
                    sp.dirs.push(Dir::Regex { source: source.clone(), name: name.to_string(), lit: lit.trim().to_string() });
                }
                "trait" | "traitimpl" => {
                    flush(&mut sp, &mut cur);
                    curfn = None;
                    cur = Cur::Trait(cmd == "traitimpl", source.clone(), rest.to_string(), String::new());
                }
                "fn" => {
                    flush(&mut sp, &mut cur);
                    let mut parts = rest.split_whitespace();
                    let path = parts.next().unwrap().to_string();
                    let mut f = FnSpec { path: path.clone(), source: source.clone(), line: ln + 1, ..Default::default() };
                    while let Some(p) = parts.next() {
                        if p == "ret" {
                            f.ret = parts.next().map(String::from);
                        } else {
                            f.flags.push(p.to_string());
                        }
                    }
                    sp.order.push(path.clone());
                    sp.dirs.push(Dir::Fn(path.clone()));
                    sp.fns.insert(path.clone(), f);
                    curfn = Some(path.clone());
                    cur = Cur::FnSig(path);
                }
                "rewrite" => {
                    let r = split_arrow(rest);
                    match &curfn {
                        Some(p) => sp.fns.get_mut(p).unwrap().rewrites.push(r),
                        None => sp.rewrites.push(r),
                    }
                }
                "macro" => {
                    let r = split_arrow(rest);
                    match &curfn {
                        Some(p) => sp.fns.get_mut(p).unwrap().macros.push(r),
                        None => sp.macros.push(r),
                    }
                }
                "macro_rules" => sp.macro_rules.push((source.clone(), rest.to_string())),
                "collect" => {
                    let mut it = rest.splitn(2, char::is_whitespace);
                    let n: usize = it.next().unwrap().parse().unwrap();
                    let ty = it.next().unwrap().trim().to_string();
                    sp.fns.get_mut(curfn.as_ref().unwrap()).unwrap().collects.insert(n, ty);
                }
                "loop" | "entry" | "exit" => {
                    let p = curfn.clone().expect("loop outside fn");
                    cur = Cur::FnBlock(p, d.split_whitespace().collect::<Vec<_>>().join(" "));
                }
                "before" | "after" => {
                    let p = curfn.clone().expect("stmt outside fn");
                    let f = sp.fns.get_mut(&p).unwrap();
                    f.stmts.push((cmd == "before", rest.to_string(), String::new()));
                    let n = f.stmts.len() - 1;
                    cur = Cur::FnStmt(p, n);
                }
                other => panic!("line {}: unknown directive {}", ln + 1, other),
            }
            continue;
        }
        let mut push = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &mut cur {
            Cur::None => {}
            Cur::Raw(s) => push(s),
            Cur::Type { body, .. } => push(body),
            Cur::Trait(_, _, _, b) => push(b),
            Cur::FnSig(p) => push(&mut sp.fns.get_mut(p).unwrap().sig),
            Cur::FnBlock(p, k) => push(sp.fns.get_mut(p).unwrap().blocks.entry(k.clone()).or_default()),
            Cur::FnStmt(p, n) => push(&mut sp.fns.get_mut(p).unwrap().stmts[*n].2),
        }
    }
    flush(&mut sp, &mut cur);
    sp
}
