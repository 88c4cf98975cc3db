//! Token-level matching/rewriting and printing.
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

pub fn toks(s: &str) -> Vec<TokenTree> {
    s.parse::<TokenStream>().unwrap_or_else(|e| panic!("lex {:?}: {}", s, e)).into_iter().collect()
}

type Binds = HashMap<String, Vec<TokenTree>>;

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

/// `$x` matches one token tree, `$$x` matches any (possibly empty) run of token trees.
fn match_at(pat: &[TokenTree], ts: &[TokenTree], b: &mut Binds, anchored_end: bool) -> Option<usize> {
    if pat.is_empty() {
        return if anchored_end && !ts.is_empty() { None } else { Some(0) };
    }
    if let TokenTree::Punct(p) = &pat[0] {
        if p.as_char() == '$' {
            if let Some(TokenTree::Punct(p2)) = pat.get(1) {
                if p2.as_char() == '$' {
                    let name = pat[2].to_string();
                    for n in 0..=ts.len() {
                        let mut b2 = b.clone();
                        b2.insert(name.clone(), ts[..n].to_vec());
                        if let Some(k) = match_at(&pat[3..], &ts[n..], &mut b2, anchored_end) {
                            *b = b2;
                            return Some(n + k);
                        }
                    }
                    return None;
                }
            }
            let name = pat[1].to_string();
            if ts.is_empty() {
                return None;
            }
            if let Some(prev) = b.get(&name) {
                if prev.len() != 1 || prev[0].to_string() != ts[0].to_string() {
                    return None;
                }
            }
            b.insert(name, vec![ts[0].clone()]);
            return match_at(&pat[2..], &ts[1..], b, anchored_end).map(|k| k + 1);
        }
    }
    if ts.is_empty() {
        return None;
    }
    match (&pat[0], &ts[0]) {
        (TokenTree::Group(p), TokenTree::Group(t)) if p.delimiter() == t.delimiter() => {
            let pi: Vec<_> = p.stream().into_iter().collect();
            let ti: Vec<_> = t.stream().into_iter().collect();
            match_at(&pi, &ti, b, true)?;
        }
        (p, t) if same(p, t) => {}
        _ => return None,
    }
    match_at(&pat[1..], &ts[1..], b, anchored_end).map(|k| k + 1)
}

pub fn contains(pat: &[TokenTree], ts: &[TokenTree]) -> bool {
    for i in 0..ts.len() {
        if match_at(pat, &ts[i..], &mut Binds::new(), false).is_some() {
            return true;
        }
        if let TokenTree::Group(g) = &ts[i] {
            let inner: Vec<_> = g.stream().into_iter().collect();
            if contains(pat, &inner) {
                return true;
            }
        }
    }
    false
}

fn subst(rep: &[TokenTree], b: &Binds) -> Vec<TokenTree> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < rep.len() {
        match &rep[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let mut k = i + 1;
                if let TokenTree::Punct(p2) = &rep[k] {
                    if p2.as_char() == '$' {
                        k += 1;
                    }
                }
                let name = rep[k].to_string();
                out.extend(b.get(&name).cloned().unwrap_or_default());
                i = k + 1;
            }
            TokenTree::Group(g) => {
                let inner: Vec<_> = g.stream().into_iter().collect();
                let ts: TokenStream = subst(&inner, b).into_iter().collect();
                out.push(TokenTree::Group(Group::new(g.delimiter(), ts)));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    out
}

pub fn rewrite(pat: &[TokenTree], rep: &[TokenTree], ts: Vec<TokenTree>, count: &mut usize) -> Vec<TokenTree> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        let mut b = Binds::new();
        if let Some(n) = match_at(pat, &ts[i..], &mut b, false) {
            if n > 0 {
                *count += 1;
                let mut b2 = Binds::new();
                for (k, v) in b {
                    b2.insert(k, rewrite(pat, rep, v, count));
                }
                out.extend(subst(rep, &b2));
                i += n;
                continue;
            }
        }
        match &ts[i] {
            TokenTree::Group(g) => {
                let inner: Vec<_> = g.stream().into_iter().collect();
                let new: TokenStream = rewrite(pat, rep, inner, count).into_iter().collect();
                out.push(TokenTree::Group(Group::new(g.delimiter(), new)));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

pub struct Printer<'a> {
    pub out: String,
    pub texts: &'a [String],
    indent: usize,
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self {
        Printer { out: String::new(), texts, indent: 0 }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.indent {
            self.out.push_str("  ");
        }
    }
    /// marker macro `NAME ! ( n ) ;` at position i -> (n, next index)
    fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<(usize, usize)> {
        match (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
            (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
                if id == name && p.as_char() == '!' =>
            {
                let n: usize = g.stream().to_string().trim().parse().unwrap();
                let mut k = i + 3;
                if let Some(TokenTree::Punct(p)) = ts.get(k) {
                    if p.as_char() == ';' {
                        k += 1;
                    }
                }
                Some((n, k))
            }
            _ => None,
        }
    }
    pub fn print(&mut self, ts: TokenStream) {
        let v: Vec<_> = ts.into_iter().collect();
        self.seq(&v, false);
    }
    fn seq(&mut self, ts: &[TokenTree], in_brace: bool) {
        let mut i = 0;
        while i < ts.len() {
            if let Some((n, k)) = Self::marker(ts, i, "vx_mark") {
                let t = self.texts[n].clone();
                self.nl();
                for l in t.lines() {
                    self.out.push_str(l);
                    self.nl();
                }
                i = k;
                continue;
            }
            match &ts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<_> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut s = 0;
                            while let Some((n, k)) = Self::marker(&inner, s, "vx_spec") {
                                let t = self.texts[n].clone();
                                self.nl();
                                for l in t.lines() {
                                    self.out.push_str(l);
                                    self.nl();
                                }
                                s = k;
                            }
                            self.out.push_str("{ ");
                            self.indent += 1;
                            if inner.len() > s {
                                self.nl();
                            }
                            self.seq(&inner[s..], true);
                            self.indent -= 1;
                            self.nl();
                            self.out.push('}');
                            let next_simple = matches!(ts.get(i + 1), Some(TokenTree::Punct(_)))
                                || matches!(ts.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                            if in_brace && !next_simple {
                                self.nl();
                            } else {
                                self.out.push(' ');
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            self.out.push_str(o);
                            self.seq(&inner, false);
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                            self.out.push_str(c);
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' && in_brace {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && p.as_char() != '\'' {
                        self.out.push(' ');
                    }
                }
                TokenTree::Ident(x) => {
                    self.out.push_str(&x.to_string());
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
