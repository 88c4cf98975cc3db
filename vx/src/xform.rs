//! AST desugaring rules (each one is documented in DESIGN.md, section "Extraction rules").
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::spec::FnSpec;

pub struct Xf<'a> {
    pub spec: Option<&'a FnSpec>,
    pub texts: &'a mut Vec<String>,
    pub sources: &'a [String],
    pub arena: Option<&'a str>,
    pub loops: usize,
    pub fresh: usize,
    pub used: BTreeSet<String>,
    pub rules: BTreeSet<&'static str>,
    pub unsupported: Vec<String>,
}

const DEFAULT_SOURCES: &[&str] = &["iter", "chars", "into_iter", "bytes", "lines", "split_whitespace"];
const ADAPTERS: &[&str] = &["map", "filter", "filter_map", "take_while", "skip", "enumerate", "rev", "cloned", "copied"];
const TERMINALS: &[&str] =
    &["collect", "count", "nth", "next", "last", "position", "fold", "any", "all", "for_each", "find", "sum", "max", "min"];

struct Chain {
    src: Expr,
    adapters: Vec<(String, Vec<Expr>)>,
    terminal: Option<(String, Vec<Expr>, Option<Type>)>,
}

fn parse_e(ts: TokenStream) -> Expr {
    parse2(ts.clone()).unwrap_or_else(|e| panic!("gen expr {}: {}", ts, e))
}

impl<'a> Xf<'a> {
    pub fn text(&mut self, s: String) -> usize {
        self.texts.push(s);
        self.texts.len() - 1
    }
    fn block_text(&mut self, key: &str) -> Option<usize> {
        let s = self.spec?.blocks.get(key)?.clone();
        self.used.insert(key.to_string());
        Some(self.text(s))
    }
    fn mark(&mut self, key: &str) -> TokenStream {
        match self.block_text(key) {
            Some(n) => {
                let l = Literal_(n);
                quote!(vx_mark!(#l);)
            }
            None => quote!(),
        }
    }
    fn specmark(&mut self, key: &str) -> TokenStream {
        match self.block_text(key) {
            Some(n) => {
                let l = Literal_(n);
                quote!(vx_spec!(#l);)
            }
            None => quote!(),
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", p, self.fresh)
    }

    fn is_source(&self, m: &ExprMethodCall) -> bool {
        let name = m.method.to_string();
        if DEFAULT_SOURCES.contains(&name.as_str()) && m.args.is_empty() {
            return true;
        }
        for s in self.sources {
            if let Some((recv, meth)) = s.split_once('.') {
                if meth == name {
                    let last = match &*m.receiver {
                        Expr::Field(f) => f.member.to_token_stream().to_string(),
                        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        Expr::MethodCall(mc) => format!("{}()", mc.method),
                        _ => String::new(),
                    };
                    if last == recv {
                        return true;
                    }
                }
            } else if *s == name {
                return true;
            }
        }
        false
    }

    fn peel<'e>(e: &'e Expr) -> &'e Expr {
        match e {
            Expr::Paren(p) => Self::peel(&p.expr),
            Expr::Group(p) => Self::peel(&p.expr),
            e => e,
        }
    }

    /// Decompose `SRC.adapter*.terminal?`; None when `e` is not an iterator chain.
    fn chain(&self, e: &Expr) -> Option<Chain> {
        let m = match Self::peel(e) {
            Expr::MethodCall(m) => m,
            Expr::Reference(_) => return None,
            _ => return None,
        };
        let name = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        if TERMINALS.contains(&name.as_str()) {
            if let Some(mut c) = self.chain(&m.receiver) {
                if c.terminal.is_none() {
                    let ty = m.turbofish.as_ref().and_then(|t| {
                        t.args.first().and_then(|a| match a {
                            GenericArgument::Type(t) => Some(t.clone()),
                            _ => None,
                        })
                    });
                    c.terminal = Some((name, args, ty));
                    return Some(c);
                }
            }
        }
        if ADAPTERS.contains(&name.as_str()) {
            if let Some(mut c) = self.chain(&m.receiver) {
                if c.terminal.is_none() {
                    c.adapters.push((name, args));
                    return Some(c);
                }
            }
        }
        if self.is_source(m) {
            return Some(Chain { src: Expr::MethodCall(m.clone()), adapters: vec![], terminal: None });
        }
        None
    }

    /// Split ref patterns / `ref` bindings: returns a plain pattern plus `let` statements.
    pub fn adapt_pat(&mut self, p: &Pat) -> (Pat, Vec<TokenStream>) {
        match p {
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(id) if id.by_ref.is_none() => {
                    self.rules.insert("ref-pattern");
                    let v = self.fresh("r");
                    let m = &id.mutability;
                    let x = &id.ident;
                    (parse_pat(quote!(#v)), vec![quote!(let #m #x = *#v;)])
                }
                Pat::Wild(_) => (parse_pat(quote!(_)), vec![]),
                inner => {
                    self.rules.insert("ref-pattern");
                    let v = self.fresh("r");
                    let (ip, mut post) = self.adapt_pat(inner);
                    let mut stm = vec![quote!(let #ip = *#v;)];
                    stm.append(&mut post);
                    (parse_pat(quote!(#v)), stm)
                }
            },
            Pat::Ident(id) if id.by_ref.is_some() && id.subpat.is_none() => {
                self.rules.insert("ref-binding");
                let v = self.fresh("r");
                let x = &id.ident;
                if id.mutability.is_some() {
                    (parse_pat(quote!(mut #v)), vec![quote!(let #x = &mut #v;)])
                } else {
                    (parse_pat(quote!(#v)), vec![quote!(let #x = &#v;)])
                }
            }
            Pat::Tuple(t) => {
                let mut t = t.clone();
                let mut st = vec![];
                for e in t.elems.iter_mut() {
                    let (p2, s) = self.adapt_pat(e);
                    *e = p2;
                    st.extend(s);
                }
                (Pat::Tuple(t), st)
            }
            Pat::TupleStruct(t) => {
                let mut t = t.clone();
                let mut st = vec![];
                for e in t.elems.iter_mut() {
                    let (p2, s) = self.adapt_pat(e);
                    *e = p2;
                    st.extend(s);
                }
                (Pat::TupleStruct(t), st)
            }
            Pat::Struct(t) => {
                let mut t = t.clone();
                let mut st = vec![];
                for e in t.fields.iter_mut() {
                    let (p2, s) = self.adapt_pat(&e.pat);
                    if !s.is_empty() && e.colon_token.is_none() {
                        e.colon_token = Some(Default::default());
                    }
                    *e.pat = p2;
                    st.extend(s);
                }
                (Pat::Struct(t), st)
            }
            Pat::Paren(p) => self.adapt_pat(&p.pat),
            Pat::Type(pt) => {
                let (p2, s) = self.adapt_pat(&pt.pat);
                let ty = &pt.ty;
                (parse_pat(quote!(#p2)), {
                    let _ = ty;
                    s
                })
            }
            p => (p.clone(), vec![]),
        }
    }

    fn has_refbind(p: &Pat) -> bool {
        struct V(bool);
        impl<'ast> syn::visit::Visit<'ast> for V {
            fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                if i.by_ref.is_some() {
                    self.0 = true
                }
            }
        }
        let mut v = V(false);
        syn::visit::Visit::visit_pat(&mut v, p);
        v.0
    }
    fn drop_refbind(p: &mut Pat) {
        struct V;
        impl VisitMut for V {
            fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
                i.by_ref = None;
                i.mutability = None;
            }
        }
        V.visit_pat_mut(p);
    }

    fn is_place(e: &Expr) -> bool {
        match Self::peel(e) {
            Expr::Path(_) => true,
            Expr::Field(f) => Self::is_place(&f.base),
            Expr::Index(_) => true,
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)),
            _ => false,
        }
    }

    /// Apply a closure/path argument to already-evaluated expression tokens `cur`.
    fn apply_fn(&mut self, f: &Expr, cur: &[TokenStream]) -> TokenStream {
        match Self::peel(f) {
            Expr::Closure(c) => {
                self.check_closure(c);
                let mut lets = vec![];
                for (p, v) in c.inputs.iter().zip(cur) {
                    let (p2, st) = self.adapt_pat(p);
                    if let Pat::Ident(i) = &p2 {
                        if i.to_token_stream().to_string() == v.to_string() {
                            lets.extend(st);
                            continue;
                        }
                    }
                    lets.push(quote!(let #p2 = #v;));
                    lets.extend(st);
                }
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                if lets.is_empty() {
                    quote!({ #body })
                } else {
                    quote!({ #(#lets)* #body })
                }
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "ToOwned::to_owned" => quote!((#(#cur)*).to_owned()),
                    "String::to_owned" | "str::to_owned" => quote!((#(#cur)*).to_owned()),
                    "ToString::to_string" => quote!((#(#cur)*).to_string()),
                    "Clone::clone" => quote!((#(#cur)*).clone()),
                    _ => quote!(#p(#(#cur),*)),
                }
            }
            other => {
                self.unsupported.push(format!("closure argument {}", other.to_token_stream()));
                quote!(vx_unsupported())
            }
        }
    }

    fn check_closure(&mut self, c: &ExprClosure) {
        struct V(bool);
        impl<'ast> syn::visit::Visit<'ast> for V {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true
            }
            fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        }
        let mut v = V(false);
        syn::visit::Visit::visit_expr(&mut v, &c.body);
        if v.0 {
            self.unsupported.push("closure with return/?".into());
        }
    }

    /// Code for the element flowing through the adapters; `k` receives the final element tokens.
    fn adapters(&mut self, ads: &[(String, Vec<Expr>)], cur: TokenStream, k: &mut dyn FnMut(&mut Self, TokenStream) -> TokenStream) -> TokenStream {
        if ads.is_empty() {
            return k(self, cur);
        }
        let (name, args) = &ads[0];
        let rest = &ads[1..];
        match name.as_str() {
            "map" => {
                let v = self.fresh("e");
                let e = self.apply_fn(&args[0], &[cur]);
                let r = self.adapters(rest, quote!(#v), k);
                quote!(let #v = #e; #r)
            }
            "filter" => {
                let v = self.fresh("c");
                let e = self.apply_fn(&args[0], &[quote!(&#cur)]);
                let r = self.adapters(rest, cur, k);
                quote!(let #v = #e; if #v { #r })
            }
            "take_while" => {
                let v = self.fresh("c");
                let e = self.apply_fn(&args[0], &[quote!(&#cur)]);
                let r = self.adapters(rest, cur, k);
                quote!(let #v = #e; if !#v { break; } #r)
            }
            "filter_map" => {
                let o = self.fresh("o");
                let v = self.fresh("e");
                let e = self.apply_fn(&args[0], &[cur]);
                let r = self.adapters(rest, quote!(#v), k);
                quote!(let #o = #e; match #o { Some(#v) => { #r } None => {} })
            }
            "cloned" | "copied" => {
                let v = self.fresh("e");
                let r = self.adapters(rest, quote!(#v), k);
                quote!(let #v = (#cur).clone(); #r)
            }
            other => {
                self.unsupported.push(format!("adapter {}", other));
                quote!(vx_unsupported();)
            }
        }
    }

    /// Source expression -> trusted-iterator expression (`VxIter`), folding simple adapters into it.
    fn source(&mut self, src: &Expr, ads: &mut Vec<(String, Vec<Expr>)>) -> TokenStream {
        let mut s = src.clone();
        if let Expr::MethodCall(m) = &mut s {
            let n = m.method.to_string();
            m.method = Ident::new(&format!("vx_{}", n), m.method.span());
            self.visit_expr_mut(&mut m.receiver);
            for a in m.args.iter_mut() {
                self.visit_expr_mut(a);
            }
        }
        let mut ts = s.to_token_stream();
        while let Some((n, a)) = ads.first().cloned() {
            match n.as_str() {
                "skip" => {
                    let mut e = a[0].clone();
                    self.visit_expr_mut(&mut e);
                    ts = quote!(#ts.vx_skip(#e));
                }
                "rev" => ts = quote!(#ts.vx_rev()),
                "enumerate" => ts = quote!(#ts.vx_enumerate()),
                _ => break,
            }
            ads.remove(0);
        }
        ts
    }

    fn emit_chain(&mut self, c: Chain) -> Expr {
        self.rules.insert("iterator-chain");
        let mut ads = c.adapters.clone();
        let (term, targs, ty) = match c.terminal.clone() {
            None => {
                // bare source (possibly with folded adapters)
                let s = self.source(&c.src, &mut ads);
                if !ads.is_empty() {
                    self.unsupported.push("lazy iterator chain without terminal".into());
                }
                return parse_e(s);
            }
            Some(t) => t,
        };
        let probe_simple = ads.iter().all(|(n, _)| matches!(n.as_str(), "skip" | "rev" | "enumerate"));
        if probe_simple {
            match term.as_str() {
                "nth" | "next" | "last" | "count" => {
                    let s = self.source(&c.src, &mut ads);
                    let m = format_ident!("vx_{}", term);
                    let mut args = targs.clone();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return parse_e(quote!(#s.#m(#(#args),*)));
                }
                "collect" => {
                    let is_vec = match &ty {
                        Some(t) => t.to_token_stream().to_string().starts_with("Vec"),
                        None => false,
                    };
                    let idx = self.loops;
                    let hint = self.spec.and_then(|s| s.collects.get(&idx)).map_or(false, |h| h.starts_with("Vec"));
                    if is_vec && !hint {
                        let s = self.source(&c.src, &mut ads);
                        return parse_e(quote!(#s.vx_collect_vec()));
                    }
                }
                _ => {}
            }
        }
        let idx = self.loops;
        self.loops += 1;
        let it = format_ident!("vx_it{}", idx);
        let acc = format_ident!("vx_acc{}", idx);
        // what a call returns has to outlive the loop over it
        let mut hold = quote!();
        let mut c = c;
        if let Expr::MethodCall(m) = &mut c.src {
            if m.method == "iter" && matches!(&*m.receiver, Expr::MethodCall(_)) {
                self.visit_expr_mut(&mut m.receiver);
                let r = m.receiver.clone();
                let v = format_ident!("vx_src{}", idx);
                hold = quote!(let #v = #r;);
                *m.receiver = parse_e(quote!(#v));
            }
        }
        let src = self.source(&c.src, &mut ads);
        let e = format_ident!("vx_el{}", idx);
        let pre = self.mark(&format!("loop {} before", idx));
        let entry = self.mark(&format!("loop {} entry", idx));
        let end = self.mark(&format!("loop {} end", idx));
        let after = self.mark(&format!("loop {} after", idx));
        let spec = self.specmark(&format!("loop {}", idx));
        let head = quote!(let #e = match #it.next() { Some(vx_e) => vx_e, None => break, };);
        let wrap = |init: TokenStream, body: TokenStream, res: TokenStream| -> Expr {
            parse_e(quote!({
                #hold
                let mut #it = #src;
                #init
                #pre
                loop { #spec #entry #head #body #end }
                #after
                #res
            }))
        };
        match term.as_str() {
            "collect" => {
                let hint = self.spec.and_then(|s| s.collects.get(&idx)).cloned();
                if hint.is_some() {
                    self.used.insert(format!("collect {}", idx));
                }
                let tys = hint.unwrap_or_else(|| ty.map(|t| t.to_token_stream().to_string()).unwrap_or_else(|| "Vec<_>".into()));
                let (init, method) = if tys.starts_with("BTreeSet") {
                    (quote!(let mut #acc = BTreeSet::new();), format_ident!("insert"))
                } else if tys.starts_with("HashMap") || tys.starts_with("BTreeMap") {
                    let t: Type = parse_str(&tys).unwrap();
                    let acc2 = acc.clone();
                    let body = self.adapters(&ads, quote!(#e), &mut |_, cur| quote!(#acc2.vx_insert_pair(#cur);));
                    return wrap(quote!(let mut #acc: #t = vx_new_map();), body, quote!(#acc));
                } else if tys == "String" {
                    (quote!(let mut #acc = String::new();), format_ident!("push"))
                } else if tys.starts_with("Vec<_") || tys == "Vec" {
                    (quote!(let mut #acc = Vec::new();), format_ident!("push"))
                } else {
                    let t: Type = parse_str(&tys).unwrap();
                    (quote!(let mut #acc: #t = Vec::new();), format_ident!("push"))
                };
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| quote!(#acc2.#method(#cur);));
                wrap(init, body, quote!(#acc))
            }
            "count" => {
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, _| quote!(#acc2 += 1;));
                wrap(quote!(let mut #acc: usize = 0;), body, quote!(#acc))
            }
            "fold" => {
                let mut init = targs[0].clone();
                self.visit_expr_mut(&mut init);
                let acc2 = acc.clone();
                let f = targs[1].clone();
                let body = self.adapters(&ads, quote!(#e), &mut |s, cur| {
                    let b = s.apply_fn(&f, &[quote!(#acc2), cur]);
                    quote!(#acc2 = #b;)
                });
                wrap(quote!(let mut #acc = #init;), body, quote!(#acc))
            }
            "for_each" => {
                let f = targs[0].clone();
                let body = self.adapters(&ads, quote!(#e), &mut |s, cur| {
                    let b = s.apply_fn(&f, &[cur]);
                    quote!(#b;)
                });
                wrap(quote!(), body, quote!())
            }
            "any" | "all" => {
                let f = targs[0].clone();
                let acc2 = acc.clone();
                let is_any = term == "any";
                let body = self.adapters(&ads, quote!(#e), &mut |s, cur| {
                    let b = s.apply_fn(&f, &[cur]);
                    if is_any {
                        quote!(let vx_c = #b; if vx_c { #acc2 = true; break; })
                    } else {
                        quote!(let vx_c = #b; if !vx_c { #acc2 = false; break; })
                    }
                });
                let init = if is_any { quote!(false) } else { quote!(true) };
                wrap(quote!(let mut #acc = #init;), body, quote!(#acc))
            }
            "position" => {
                let f = targs[0].clone();
                let acc2 = acc.clone();
                let n = format_ident!("vx_n{}", idx);
                let n2 = n.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |s, cur| {
                    let b = s.apply_fn(&f, &[cur]);
                    quote!(let vx_c = #b; if vx_c { #acc2 = Some(#n2); break; } #n2 += 1;)
                });
                wrap(quote!(let mut #acc: Option<usize> = None; let mut #n: usize = 0;), body, quote!(#acc))
            }
            "find" => {
                let f = targs[0].clone();
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |s, cur| {
                    let b = s.apply_fn(&f, &[quote!(&#cur)]);
                    quote!(let vx_c = #b; if vx_c { #acc2 = Some(#cur); break; })
                });
                wrap(quote!(let mut #acc = None;), body, quote!(#acc))
            }
            "next" => {
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| quote!(#acc2 = Some(#cur); break;));
                wrap(quote!(let mut #acc = None;), body, quote!(#acc))
            }
            "nth" => {
                let mut n = targs[0].clone();
                self.visit_expr_mut(&mut n);
                let acc2 = acc.clone();
                let cnt = format_ident!("vx_n{}", idx);
                let cnt2 = cnt.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| {
                    quote!(if #cnt2 == 0 { #acc2 = Some(#cur); break; } #cnt2 -= 1;)
                });
                wrap(quote!(let mut #acc = None; let mut #cnt: usize = #n;), body, quote!(#acc))
            }
            "last" => {
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| quote!(#acc2 = Some(#cur);));
                wrap(quote!(let mut #acc = None;), body, quote!(#acc))
            }
            "max" | "min" => {
                let acc2 = acc.clone();
                let is_max = term == "max";
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| {
                    let op = if is_max { quote!(vx_ge) } else { quote!(vx_lt) };
                    quote!(match #acc2 { None => { #acc2 = Some(#cur); } Some(vx_b) => { if #op(&#cur, &vx_b) { #acc2 = Some(#cur); } } })
                });
                wrap(quote!(let mut #acc = None;), body, quote!(#acc))
            }
            "sum" => {
                let acc2 = acc.clone();
                let body = self.adapters(&ads, quote!(#e), &mut |_, cur| quote!(#acc2 += #cur;));
                wrap(quote!(let mut #acc: usize = 0;), body, quote!(#acc))
            }
            other => {
                self.unsupported.push(format!("terminal {}", other));
                parse_e(quote!(vx_unsupported()))
            }
        }
    }

    /// Option/Result combinators taking closures -> match.
    fn option_combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let known = matches!(
            name.as_str(),
            "map" | "and_then" | "map_or" | "map_or_else" | "unwrap_or_else" | "ok_or_else" | "or_else" | "map_err"
        );
        if !known {
            return None;
        }
        self.rules.insert("option-combinator");
        let mut r = (*m.receiver).clone();
        self.visit_expr_mut(&mut r);
        let v = self.fresh("v");
        let call0 = |s: &mut Self, f: &Expr| -> TokenStream { s.apply_fn(f, &[]) };
        Some(match name.as_str() {
            "map" => {
                let b = self.apply_fn(&a[0], &[quote!(#v)]);
                parse_e(quote!(match #r { Some(#v) => Some(#b), None => None }))
            }
            "and_then" => {
                let b = self.apply_fn(&a[0], &[quote!(#v)]);
                parse_e(quote!(match #r { Some(#v) => #b, None => None }))
            }
            "map_or" => {
                let mut d = a[0].clone();
                self.visit_expr_mut(&mut d);
                let b = self.apply_fn(&a[1], &[quote!(#v)]);
                // `d` is evaluated eagerly by map_or
                parse_e(quote!({ let vx_d = #d; match #r { Some(#v) => #b, None => vx_d } }))
            }
            "map_or_else" => {
                let d = call0(self, &a[0]);
                let b = self.apply_fn(&a[1], &[quote!(#v)]);
                parse_e(quote!(match #r { Some(#v) => #b, None => #d }))
            }
            "unwrap_or_else" => {
                if let Expr::Closure(c) = Self::peel(&a[0]) {
                    if !c.inputs.is_empty() {
                        let d = self.apply_fn(&a[0], &[quote!(vx_err)]);
                        return Some(parse_e(quote!(match #r { Ok(#v) => #v, Err(vx_err) => #d })));
                    }
                }
                let d = call0(self, &a[0]);
                parse_e(quote!(match #r { Some(#v) => #v, None => #d }))
            }
            "ok_or_else" => {
                let d = call0(self, &a[0]);
                parse_e(quote!(match #r { Some(#v) => Ok(#v), None => Err(#d) }))
            }
            "or_else" => {
                let d = call0(self, &a[0]);
                parse_e(quote!(match #r { Some(#v) => Some(#v), None => #d }))
            }
            "map_err" => {
                let b = self.apply_fn(&a[0], &[quote!(#v)]);
                parse_e(quote!(match #r { Ok(vx_ok) => Ok(vx_ok), Err(#v) => Err(#b) }))
            }
            _ => unreachable!(),
        })
    }

    fn fmt_pieces(&mut self, toks: TokenStream) -> Option<(Vec<std::result::Result<String, TokenStream>>, usize)> {
        let args: punctuated::Punctuated<Expr, Token![,]> =
            syn::parse::Parser::parse2(punctuated::Punctuated::parse_terminated, toks).ok()?;
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut pos = vec![];
        let mut named = std::collections::HashMap::new();
        for a in it {
            if let Expr::Assign(asg) = &a {
                let mut e = (*asg.right).clone();
                self.visit_expr_mut(&mut e);
                named.insert(asg.left.to_token_stream().to_string(), e);
            } else {
                let mut e = a.clone();
                self.visit_expr_mut(&mut e);
                pos.push(e);
            }
        }
        let mut out = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut next = 0;
        while i < cs.len() {
            if cs[i] == '{' {
                if cs.get(i + 1) == Some(&'{') {
                    cur.push('{');
                    i += 2;
                    continue;
                }
                let j = cs[i..].iter().position(|c| *c == '}')? + i;
                let inner: String = cs[i + 1..j].iter().collect();
                let e = if inner.is_empty() {
                    next += 1;
                    pos.get(next - 1)?.clone()
                } else if inner.chars().all(|c| c.is_ascii_digit()) {
                    pos.get(inner.parse::<usize>().unwrap())?.clone()
                } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    match named.get(&inner) {
                        Some(e) => e.clone(),
                        None => parse_str(&inner).ok()?,
                    }
                } else {
                    return None;
                };
                if !cur.is_empty() {
                    out.push(Ok(std::mem::take(&mut cur)));
                }
                out.push(Err(e.to_token_stream()));
                i = j + 1;
            } else if cs[i] == '}' {
                cur.push('}');
                i += 2;
            } else {
                cur.push(cs[i]);
                i += 1;
            }
        }
        if !cur.is_empty() {
            out.push(Ok(cur));
        }
        let n = out.len();
        Some((out, n))
    }

    fn expand_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let path = mac.path.to_token_stream().to_string().replace(' ', "");
        let base = path.rsplit("::").next().unwrap().to_string();
        match base.as_str() {
            "vx_mark" | "vx_spec" => None,
            "assert" | "debug_assert" => {
                self.rules.insert("assert-macro");
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::parse_terminated, mac.tokens.clone()).ok()?;
                let mut c = args.first()?.clone();
                self.visit_expr_mut(&mut c);
                Some(parse_e(quote!(vx_assert(#c))))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::parse_terminated, mac.tokens.clone()).ok()?;
                let mut a = args[0].clone();
                let mut b = args[1].clone();
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                Some(parse_e(quote!(vx_assert(#a == #b))))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rules.insert("panic-macro");
                Some(parse_e(quote!(vx_panic())))
            }
            "trace" | "debug" | "info" | "warn" | "error" | "println" | "print" | "eprintln" | "dbg" => {
                self.rules.insert("log-macro-dropped");
                Some(parse_e(quote!(())))
            }
            "format" => {
                self.rules.insert("format-macro");
                match self.fmt_pieces(mac.tokens.clone()) {
                    Some((ps, _)) => {
                        let st = ps.into_iter().map(|p| match p {
                            Ok(s) => quote!(vx_s.push_str(#s);),
                            Err(e) => quote!(vx_s.push_str(vx_display(&#e).as_str());),
                        });
                        Some(parse_e(quote!({ let mut vx_s = String::new(); #(#st)* vx_s })))
                    }
                    None => {
                        self.unsupported.push(format!("format! {}", mac.tokens));
                        None
                    }
                }
            }
            "write" => {
                self.rules.insert("write-macro");
                let v: Vec<_> = mac.tokens.clone().into_iter().collect();
                let comma = v.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char()==','))?;
                let f: TokenStream = v[..comma].iter().cloned().collect();
                let rest: TokenStream = v[comma + 1..].iter().cloned().collect();
                match self.fmt_pieces(rest) {
                    Some((ps, _)) => {
                        let st = ps.into_iter().map(|p| match p {
                            Ok(s) => quote!(#f.vx_lit(#s);),
                            Err(e) => quote!(vx_show(&#e, #f);),
                        });
                        Some(parse_e(quote!({ #(#st)* vx_fmt_ok() })))
                    }
                    None => {
                        self.unsupported.push(format!("write! {}", mac.tokens));
                        None
                    }
                }
            }
            "matches" => {
                let v: Vec<_> = mac.tokens.clone().into_iter().collect();
                let comma = v.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char()==','))?;
                let e: TokenStream = v[..comma].iter().cloned().collect();
                let p: TokenStream = v[comma + 1..].iter().cloned().collect();
                let mut x = parse_e(quote!(match #e { #p => true, _ => false }));
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            "vec" => {
                let args: std::result::Result<punctuated::Punctuated<Expr, Token![,]>, _> =
                    syn::parse::Parser::parse2(punctuated::Punctuated::parse_terminated, mac.tokens.clone());
                if let Ok(args) = args {
                    let mut args: Vec<Expr> = args.into_iter().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return Some(parse_e(quote!(vec![#(#args),*])));
                }
                None
            }
            // put there by a rewrite, to annotate a closure
            "verus_exec_expr" => None,
            _ => {
                self.unsupported.push(format!("macro {}!", path));
                None
            }
        }
    }

    fn loopify(&mut self, idx: usize, head: TokenStream, body: TokenStream, pre: TokenStream, attrs_label: TokenStream) -> Expr {
        let before = self.mark(&format!("loop {} before", idx));
        let entry = self.mark(&format!("loop {} entry", idx));
        let end = self.mark(&format!("loop {} end", idx));
        let after = self.mark(&format!("loop {} after", idx));
        let spec = self.specmark(&format!("loop {}", idx));
        parse_e(quote!({ #pre #before #attrs_label loop { #spec #entry #head #body #end } #after }))
    }

    fn let_else_match(&mut self, el: &ExprLet) -> (Expr, Pat, Vec<TokenStream>) {
        let mut scrut = (*el.expr).clone();
        let mut pat = (*el.pat).clone();
        if Self::has_refbind(&pat) && Self::is_place(&scrut) {
            self.rules.insert("ref-binding");
            let m = {
                struct V(bool);
                impl<'ast> syn::visit::Visit<'ast> for V {
                    fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
                        if i.by_ref.is_some() && i.mutability.is_some() {
                            self.0 = true
                        }
                    }
                }
                let mut v = V(false);
                syn::visit::Visit::visit_pat(&mut v, &pat);
                v.0
            };
            Self::drop_refbind(&mut pat);
            let s = scrut;
            scrut = if m { parse_e(quote!(&mut #s)) } else { parse_e(quote!(&#s)) };
        }
        let (p2, st) = self.adapt_pat(&pat);
        (scrut, p2, st)
    }
}

#[allow(non_snake_case)]
fn Literal_(n: usize) -> proc_macro2::Literal {
    proc_macro2::Literal::usize_unsuffixed(n)
}

pub fn parse_pat(ts: TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_multi, ts).unwrap()
}

impl<'a> VisitMut for Xf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // arena rule: node-handle methods are routed through the owning tree
        if let (Some(ar), Expr::MethodCall(m)) = (self.arena, &*e) {
            let name = m.method.to_string();
            let arena: Expr = parse_str(ar).unwrap();
            if (name == "data" || name == "clone_data") && m.args.is_empty() {
                self.rules.insert("arena-node");
                let r = m.receiver.clone();
                *e = parse_e(quote!(#arena.vx_data(&#r)));
                return;
            }
            if name == "apply" {
                self.rules.insert("arena-node");
                if let Expr::Closure(c) = &m.args[0] {
                    let r = m.receiver.clone();
                    let p = c.inputs[0].clone();
                    let mut body = (*c.body).clone();
                    self.visit_expr_mut(&mut body);
                    *e = parse_e(quote!({
                        let mut vx_d = #arena.vx_take(&#r);
                        { let #p = &mut vx_d; #body; }
                        #arena.vx_put(&#r, vx_d);
                    }));
                    return;
                }
            }
        }
        if let Some(c) = self.chain(e) {
            // lone `.iter()`/`.chars()` etc. also become trusted iterators
            *e = self.emit_chain(c);
            return;
        }
        match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(x) = self.expand_macro(&mac) {
                    *e = x;
                }
                return;
            }
            Expr::MethodCall(m) => {
                if m.method == "extend" && m.args.len() == 1 {
                    let recv = (*m.receiver).clone();
                    if let Some(c) = self.chain(&m.args[0]) {
                        if c.terminal.is_none() {
                            self.rules.insert("extend-chain");
                            let idx = self.loops;
                            self.loops += 1;
                            let mut ads = c.adapters.clone();
                            let src = self.source(&c.src, &mut ads);
                            let it = format_ident!("vx_it{}", idx);
                            let el = format_ident!("vx_el{}", idx);
                            let head = quote!(let #el = match #it.next() { Some(vx_e) => vx_e, None => break, };);
                            let body = self.adapters(&ads, quote!(#el), &mut |_, cur| quote!(#recv.vx_extend_one(#cur);));
                            *e = self.loopify(idx, head, body, quote!(let mut #it = #src;), quote!());
                            return;
                        }
                    }
                    m.method = format_ident!("vx_extend");
                    visit_mut::visit_expr_method_call_mut(self, m);
                    return;
                }
                let mc = m.clone();
                if let Some(x) = self.option_combinator(&mc) {
                    *e = x;
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let idx = self.loops;
                self.loops += 1;
                let label = f.label.as_ref().map(|l| l.to_token_stream()).unwrap_or_default();
                let (pat, st) = self.adapt_pat(&f.pat);
                let it = format_ident!("vx_it{}", idx);
                let el = format_ident!("vx_el{}", idx);
                if let Some(c) = self.chain(&f.expr) {
                    if c.terminal.is_none() {
                        self.rules.insert("for-desugar");
                        let mut ads = c.adapters.clone();
                        let src = self.source(&c.src, &mut ads);
                        self.visit_block_mut(&mut f.body);
                        let b = f.body.stmts.clone();
                        let head = quote!(let #el = match #it.next() { Some(vx_e) => vx_e, None => break, };);
                        let body = self.adapters(&ads, quote!(#el), &mut |_, cur| quote!(let #pat = #cur; #(#st)* #(#b)*));
                        *e = self.loopify(idx, head, body, quote!(let mut #it = #src;), label);
                        return;
                    }
                }
                let mut ex = (*f.expr).clone();
                self.rules.insert("for-desugar");
                let src = if let Expr::Range(r) = Self::peel(&ex).clone() {
                    let mut s = *r.start.clone().unwrap();
                    let mut n = *r.end.clone().unwrap();
                    self.visit_expr_mut(&mut s);
                    self.visit_expr_mut(&mut n);
                    if matches!(r.limits, RangeLimits::Closed(_)) {
                        quote!(vx_range_incl(#s, #n))
                    } else {
                        quote!(vx_range(#s, #n))
                    }
                } else {
                    self.visit_expr_mut(&mut ex);
                    quote!((#ex).vx_into_iter())
                };
                self.visit_block_mut(&mut f.body);
                let b = f.body.stmts.clone();
                let head = quote!(let #pat = match #it.next() { Some(vx_e) => vx_e, None => break, };);
                *e = self.loopify(idx, head, quote!(#(#st)* #(#b)*), quote!(let mut #it = #src;), label);
                return;
            }
            Expr::While(w) => {
                let idx = self.loops;
                self.loops += 1;
                let label = w.label.as_ref().map(|l| l.to_token_stream()).unwrap_or_default();
                if let Expr::Let(el) = Self::peel(&w.cond).clone() {
                    self.rules.insert("while-let");
                    let (mut scrut, p2, st) = self.let_else_match(&el);
                    self.visit_expr_mut(&mut scrut);
                    self.visit_block_mut(&mut w.body);
                    let b = w.body.stmts.clone();
                    let spec = self.specmark(&format!("loop {}", idx));
                    let before = self.mark(&format!("loop {} before", idx));
                    let entry = self.mark(&format!("loop {} entry", idx));
                    let end = self.mark(&format!("loop {} end", idx));
                    let after = self.mark(&format!("loop {} after", idx));
                    *e = parse_e(quote!({ #before #label loop { #spec #entry match #scrut { #p2 => { #(#st)* #(#b)* #end } _ => { break; } } } #after }));
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let spec = self.specmark(&format!("loop {}", idx));
                let before = self.mark(&format!("loop {} before", idx));
                let entry = self.mark(&format!("loop {} entry", idx));
                let end = self.mark(&format!("loop {} end", idx));
                let after = self.mark(&format!("loop {} after", idx));
                let c = &w.cond;
                let b = &w.body.stmts;
                *e = parse_e(quote!({ #before #label while #c { #spec #entry #(#b)* #end } #after }));
                return;
            }
            Expr::Loop(l) => {
                let idx = self.loops;
                self.loops += 1;
                let label = l.label.as_ref().map(|l| l.to_token_stream()).unwrap_or_default();
                self.visit_block_mut(&mut l.body);
                let b = l.body.stmts.clone();
                *e = self.loopify(idx, quote!(), quote!(#(#b)*), quote!(), label);
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(el) = Self::peel(&i.cond).clone() {
                    let (mut scrut, p2, st) = self.let_else_match(&el);
                    self.visit_expr_mut(&mut scrut);
                    self.visit_block_mut(&mut i.then_branch);
                    let b = i.then_branch.stmts.clone();
                    i.then_branch = parse2(quote!({ #(#st)* #(#b)* })).unwrap();
                    *i.cond = parse_e_let(quote!(let #p2 = #scrut));
                    if let Some((_, els)) = &mut i.else_branch {
                        self.visit_expr_mut(els);
                    }
                    return;
                }
            }
            // a closure called where it stands
            Expr::Call(c) if matches!(Self::peel(&c.func), Expr::Closure(_)) => {
                self.rules.insert("called-closure");
                let f = Self::peel(&c.func).clone();
                let mut args = vec![];
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                    args.push(a.to_token_stream());
                }
                let b = self.apply_fn(&f, &args);
                *e = parse_e(b);
                return;
            }
            Expr::Match(m) => {
                let anyref = m.arms.iter().any(|a| Self::has_refbind(&a.pat));
                if anyref && Self::is_place(&m.expr) {
                    self.rules.insert("ref-binding");
                    let s = m.expr.clone();
                    m.expr = Box::new(parse_e(quote!(&#s)));
                    // `match *x { A(ref y) .. }` -> `match &*x { A(y) .. }`
                    for a in m.arms.iter_mut() {
                        Self::drop_refbind(&mut a.pat);
                    }
                }
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let (p2, st) = self.adapt_pat(&a.pat);
                    a.pat = p2;
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.visit_expr_mut(&mut a.body);
                    if !st.is_empty() {
                        if a.guard.is_some() {
                            self.unsupported.push("ref pattern with match guard".into());
                        }
                        let b = &a.body;
                        a.body = Box::new(parse_e(quote!({ #(#st)* #b })));
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            if let Some(x) = self.expand_macro(&mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(x, semi.or_else(|| Some(Default::default())));
                if m_is_tail(&mac) {
                    if let Stmt::Expr(_, se) = s {
                        *se = semi;
                    }
                }
            }
            return;
        }
        if let Stmt::Local(l) = s {
            // chain-adjacent ref patterns in let
            if Self::has_refbind(&l.pat) {
                self.unsupported.push("ref binding in let".into());
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_item_mut(&mut self, i: &mut Item) {
        // nested `use` inside fn bodies is kept
        visit_mut::visit_item_mut(self, i);
    }
}

fn m_is_tail(m: &Macro) -> bool {
    let _ = m;
    true
}

fn parse_e_let(ts: TokenStream) -> Expr {
    // `let` expressions only parse inside `if`; go through an ExprIf.
    let e: Expr = parse2(quote!(if #ts {})).unwrap();
    match e {
        Expr::If(i) => *i.cond,
        _ => unreachable!(),
    }
}

pub fn span() -> Span {
    Span::call_site()
}
