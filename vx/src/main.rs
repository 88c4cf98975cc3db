//! vx: mechanical extraction of functions of /repo into a Verus file.
mod spec;
mod tok;
mod xform;

use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use spec::{Dir, FnSpec, Spec};
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;

struct Args {
    spec: String,
    repo: String,
    out: String,
    map: String,
    vacuity: bool,
    /// functions whose contract is taken as it is although this unit names them as its own
    assume: Vec<String>,
}

fn args() -> Args {
    let mut a = Args { spec: String::new(), repo: "/repo".into(), out: "out.rs".into(), map: "out.json".into(), vacuity: false, assume: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--repo" => a.repo = it.next().unwrap(),
            "-o" => a.out = it.next().unwrap(),
            "--map" => a.map = it.next().unwrap(),
            "--vacuity" => a.vacuity = true,
            "--assume" => a.assume.push(it.next().unwrap()),
            s => a.spec = s.to_string(),
        }
    }
    a
}

struct Found {
    generics: TokenStream,
    selfty: Option<TokenStream>,
    where_: TokenStream,
    sig: Signature,
    block: Block,
    line: (usize, usize),
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn find_fn(items: &[Item], path: &str) -> Option<Found> {
    use syn::spanned::Spanned;
    let (tr, rest) = match path.split_once('@') {
        Some((t, r)) => (Some(t), r),
        None => (None, path),
    };
    let (ty, name) = match rest.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, rest),
    };
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some(Found {
                    generics: quote!(),
                    selfty: None,
                    where_: quote!(),
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    line: (f.span().start().line, f.span().end().line),
                })
            }
            Item::Impl(im) if ty.is_some() => {
                let tn = match &im.trait_ {
                    Some((_, p, _)) => Some(p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")),
                    None => None,
                };
                let tr_ok = match (&tn, tr) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a == b || a.split('<').next() == Some(b),
                    _ => false,
                };
                if !tr_ok || ty_name(&im.self_ty) != ty.unwrap() {
                    continue;
                }
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if f.sig.ident == name {
                            let g = &im.generics.params;
                            let w = &im.generics.where_clause;
                            return Some(Found {
                                generics: if g.is_empty() { quote!() } else { quote!(<#g>) },
                                selfty: Some(im.self_ty.to_token_stream()),
                                where_: quote!(#w),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                line: (f.span().start().line, f.span().end().line),
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if ty.is_some() && tr.is_none() && t.ident == ty.unwrap() => {
                for it in &t.items {
                    if let TraitItem::Fn(f) = it {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(Found {
                                    generics: quote!(),
                                    selfty: None,
                                    where_: quote!(),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    line: (f.span().start().line, f.span().end().line),
                                });
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if m.ident == "test" || m.ident == "tests" {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    if let Some(f) = find_fn(its, path) {
                        return Some(f);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// The closure that a function registers under a name, `methods.add_method("name", |lua, this, args| ...)`, as a function
/// of its own: parameters `this: &mut T` and `vx_args: ARGS` (types and result from the spec), body untouched.
fn find_handler(items: &[Item], path: &str, key: &str, args: &str, gives: &str) -> Option<Found> {
    use syn::spanned::Spanned;
    use syn::visit::Visit;
    struct V<'a> {
        key: &'a str,
        got: Option<(String, ExprClosure, (usize, usize))>,
        n: usize,
    }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            if let (Some(Expr::Lit(l)), Some(Expr::Closure(c))) = (m.args.first(), m.args.iter().nth(1)) {
                if let Lit::Str(s) = &l.lit {
                    if s.value() == self.key {
                        self.n += 1;
                        self.got = Some((m.method.to_string(), c.clone(), (m.span().start().line, m.span().end().line)));
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let f = find_fn(items, path)?;
    let mut v = V { key, got: None, n: 0 };
    v.visit_block(&f.block);
    let (method, c, line) = v.got?;
    if v.n != 1 || c.inputs.len() != 3 {
        return None;
    }
    let by_mut = match method.as_str() {
        "add_method" => false,
        "add_method_mut" => true,
        _ => return None,
    };
    let pat = |p: &Pat| -> Pat {
        match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        }
    };
    let at: Type = parse_str(args).ok()?;
    let rt: Type = parse_str(gives).ok()?;
    let st = f.selfty.clone()?;
    let mut lets = vec![];
    let (lua, this, ap) = (pat(&c.inputs[0]), pat(&c.inputs[1]), pat(&c.inputs[2]));
    if this.to_token_stream().to_string() != "this" {
        lets.push(quote!(let #this = this;));
    }
    if !matches!(lua, Pat::Wild(_)) {
        lets.push(quote!(let #lua = vx_lua;));
    }
    lets.push(quote!(let #ap = vx_args;));
    let m = if by_mut { quote!(mut) } else { quote!() };
    let name = format_ident!("lua_{}", key);
    let body = &c.body;
    let rest = match &**body {
        Expr::Block(b) => {
            let s = &b.block.stmts;
            quote!(#(#s)*)
        }
        e => quote!(#e),
    };
    Some(Found {
        generics: quote!(),
        selfty: Some(st.clone()),
        where_: quote!(),
        sig: parse2(quote!(fn #name(vx_lua: LuaContext, this: &#m #st, vx_args: #at) -> #rt)).ok()?,
        block: parse2(quote!({ #(#lets)* #rest })).ok()?,
        line,
    })
}

/// The first text literal of an expression, or nothing.
fn literal(e: &Expr) -> Option<String> {
    fn go(ts: TokenStream) -> Option<String> {
        for t in ts {
            match t {
                TokenTree::Literal(l) => {
                    if let Ok(Lit::Str(s)) = parse_str::<Lit>(&l.to_string()) {
                        return Some(s.value());
                    }
                }
                TokenTree::Group(g) => {
                    if let Some(s) = go(g.stream()) {
                        return Some(s);
                    }
                }
                _ => {}
            }
        }
        None
    }
    go(e.to_token_stream())
}

/// Closures that a table of menus is made of become tokens that name them: the last argument of `Menu::new("m", ..)` is
/// `vx_provider("m")`, that of `Menu::prompt("m", ..)` is `vx_action("m")`, and `action: |..| ..` in a struct literal below
/// is `vx_action("m/k")`, where k is the text literal of its field `key`, or empty. The closures are kept by these names.
struct NameClosures {
    menu: String,
    got: Vec<(String, ExprClosure, (usize, usize))>,
}

impl VisitMut for NameClosures {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        use syn::spanned::Spanned;
        let f = c.func.to_token_stream().to_string();
        let maker = match f.as_str() {
            "Menu :: new" => "vx_provider",
            "Menu :: prompt" => "vx_action",
            _ => return visit_mut::visit_expr_call_mut(self, c),
        };
        let name = match c.args.first() {
            Some(Expr::Lit(l)) => literal(&Expr::Lit(l.clone())),
            _ => None,
        };
        let name = match name {
            Some(n) => n,
            None => return visit_mut::visit_expr_call_mut(self, c),
        };
        let outer = std::mem::replace(&mut self.menu, name.clone());
        visit_mut::visit_expr_call_mut(self, c);
        self.menu = outer;
        if let Some(a) = c.args.last_mut() {
            if let Expr::Closure(k) = a {
                let span = k.span();
                self.got.push((name.clone(), k.clone(), (span.start().line, span.end().line)));
                let m = format_ident!("{}", maker);
                *a = parse2(quote!(#m(#name))).unwrap();
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        use syn::spanned::Spanned;
        let key = s.fields.iter().find(|f| f.member.to_token_stream().to_string() == "key").and_then(|f| literal(&f.expr)).unwrap_or_default();
        for f in s.fields.iter_mut() {
            if f.member.to_token_stream().to_string() == "action" {
                if let Expr::Closure(k) = &f.expr {
                    let name = format!("{}/{}", self.menu, key);
                    let span = k.span();
                    self.got.push((name.clone(), k.clone(), (span.start().line, span.end().line)));
                    f.expr = parse2(quote!(vx_action(#name))).unwrap();
                }
            }
        }
        visit_mut::visit_expr_struct_mut(self, s);
    }
}

/// A closure of a table of menus, by its name, as a function with the given parameter names and types.
fn find_closure(items: &[Item], path: &str, name: &str, closure: &str, args: &str, gives: &str) -> Option<Found> {
    let mut f = find_fn(items, path)?;
    let mut v = NameClosures { menu: String::new(), got: vec![] };
    v.visit_block_mut(&mut f.block);
    let mut it = v.got.into_iter().filter(|g| g.0 == closure);
    let (_, c, line) = it.next()?;
    if it.next().is_some() {
        return None;
    }
    let args: Vec<(&str, Type)> = args.split(',').filter_map(|a| a.split_once(':')).filter_map(|(n, t)| Some((n, parse_str(&t.replace("mut_", "mut ")).ok()?))).collect();
    if args.len() != c.inputs.len() {
        return None;
    }
    let mut params = vec![];
    let mut lets = vec![];
    for ((n, t), p) in args.iter().zip(c.inputs.iter()) {
        let id = format_ident!("{}", n);
        params.push(quote!(#id: #t));
        let p = match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if !matches!(p, Pat::Wild(_)) && p.to_token_stream().to_string() != *n {
            lets.push(quote!(let #p = #id;));
        }
    }
    let rt: Type = parse_str(gives).ok()?;
    let rest = match &*c.body {
        Expr::Block(b) => {
            let s = &b.block.stmts;
            quote!(#(#s)*)
        }
        e => quote!(#e),
    };
    let name = format_ident!("{}", name);
    Some(Found {
        generics: quote!(),
        selfty: None,
        where_: quote!(),
        sig: parse2(quote!(fn #name(#(#params),*) -> #rt)).ok()?,
        block: parse2(quote!({ #(#lets)* #rest })).ok()?,
        line,
    })
}

fn found_of(items: &[Item], fs: &FnSpec, path: &str) -> Option<Found> {
    let flag = |k: &str| fs.flags.iter().find_map(|f| f.strip_prefix(k).map(String::from));
    match flag("handler:") {
        Some(h) => {
            // handler:KEY in:FUNCTION args:TYPE gives:TYPE
            find_handler(items, &flag("in:")?, &h, &flag("args:").unwrap_or("()".into()), &flag("gives:").unwrap_or("Result<(),LuaError>".into()))
        }
        None => match flag("closure:") {
            // closure:NAME in:FUNCTION args:a:T,b:U gives:TYPE
            Some(c) => find_closure(items, &flag("in:")?, path, &c, &flag("args:")?, &flag("gives:")?),
            None => {
                let mut f = find_fn(items, path)?;
                if fs.flags.iter().any(|f| f == "named") {
                    NameClosures { menu: String::new(), got: vec![] }.visit_block_mut(&mut f.block);
                }
                Some(f)
            }
        },
    }
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}

fn find_item<'a>(items: &'a [Item], name: &str, pred: &dyn Fn(&Item) -> bool) -> Option<&'a Item> {
    // a name of the form module::Name is looked up in that module only
    if let Some((m, rest)) = name.split_once("::") {
        return items.iter().find_map(|i| match i {
            Item::Mod(x) if x.ident == m => x.content.as_ref().and_then(|(_, its)| find_item(its, rest, pred)),
            _ => None,
        });
    }
    for i in items {
        if pred(i) {
            let id = match i {
                Item::Struct(s) => s.ident.to_string(),
                Item::Enum(s) => s.ident.to_string(),
                Item::Const(s) => s.ident.to_string(),
                Item::Static(s) => s.ident.to_string(),
                Item::Trait(s) => s.ident.to_string(),
                _ => continue,
            };
            if id == name {
                return Some(i);
            }
        }
        if let Item::Mod(m) = i {
            if cfg_test(&m.attrs) {
                continue;
            }
            if let Some((_, its)) = &m.content {
                if let Some(f) = find_item(its, name, pred) {
                    return Some(f);
                }
            }
        }
    }
    None
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.clone() {
                    if let TokenTree::Ident(i) = t {
                        out.insert(i.to_string());
                    }
                }
            }
        }
    }
    out
}

struct InsertMark<'a> {
    pat: &'a [TokenTree],
    before: bool,
    skip: usize,
    n: usize,
    done: bool,
}

impl<'a> VisitMut for InsertMark<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            if self.done {
                return;
            }
            let ts: Vec<TokenTree> = b.stmts[i].to_token_stream().into_iter().collect();
            let has = tok::contains(self.pat, &ts);
            if has {
                if self.skip > 0 {
                    self.skip -= 1;
                    i += 1;
                    continue;
                }
                let l = proc_macro2::Literal::usize_unsuffixed(self.n);
                let st: Stmt = parse2(quote!(vx_mark!(#l);)).unwrap();
                if self.before {
                    b.stmts.insert(i, st);
                } else {
                    b.stmts.insert(i + 1, st);
                }
                self.done = true;
                return;
            }
            i += 1;
        }
    }
}

struct StripVis;
impl VisitMut for StripVis {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Inherited;
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

struct DynParam {
    n: usize,
    generics: Vec<TokenStream>,
}
impl VisitMut for DynParam {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if let Type::TraitObject(o) = &*r.elem {
                let g = format_ident!("VxD{}", self.n);
                self.n += 1;
                let b = &o.bounds;
                self.generics.push(quote!(#g: #b));
                *r.elem = parse2(quote!(#g)).unwrap();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn apply_rw(ts: TokenStream, pat: &str, rep: &str) -> (TokenStream, usize) {
    let mut n = 0usize;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let out = tok::rewrite(&tok::toks(pat), &tok::toks(rep), v, &mut n);
    (out.into_iter().collect(), n)
}

/// The rewrite `name ! ( pattern ) => body` of a single-armed macro_rules! definition.
fn macro_rule(items: &[Item], name: &str) -> Option<(String, String)> {
    for i in items {
        match i {
            Item::Macro(m) if m.ident.as_ref().map_or(false, |i| i == name) => {
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let (pat, body, rest) = match &ts[..] {
                    [TokenTree::Group(p), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b), rest @ ..] => (p, b, rest),
                    _ => return None,
                };
                if rest.iter().any(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                    return None;
                }
                let (mut runs, mut out) = (BTreeSet::new(), String::new());
                let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
                let mut k = 0;
                while k < pt.len() {
                    match &pt[k..] {
                        [TokenTree::Punct(d), TokenTree::Ident(v), TokenTree::Punct(c), TokenTree::Ident(frag), ..]
                            if d.as_char() == '$' && c.as_char() == ':' =>
                        {
                            if matches!(frag.to_string().as_str(), "ident" | "tt" | "lifetime") {
                                out += &format!("${} ", v);
                            } else {
                                out += &format!("$${} ", v);
                                runs.insert(v.to_string());
                            }
                            k += 4;
                        }
                        [TokenTree::Punct(d), ..] if d.as_char() == '$' => return None,
                        [t, ..] => {
                            out += &format!("{} ", t);
                            k += 1;
                        }
                        [] => unreachable!(),
                    }
                }
                fn body_text(ts: TokenStream, runs: &BTreeSet<String>) -> String {
                    let mut out = String::new();
                    let v: Vec<TokenTree> = ts.into_iter().collect();
                    let mut k = 0;
                    while k < v.len() {
                        match &v[k..] {
                            [TokenTree::Punct(d), TokenTree::Ident(x), ..] if d.as_char() == '$' => {
                                if runs.contains(&x.to_string()) {
                                    out += &format!("( $${} ) ", x);
                                } else {
                                    out += &format!("${} ", x);
                                }
                                k += 2;
                            }
                            [TokenTree::Group(g), ..] => {
                                let (a, b) = match g.delimiter() {
                                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                                    proc_macro2::Delimiter::Brace => ("{", "}"),
                                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                                    proc_macro2::Delimiter::None => ("", ""),
                                };
                                out += &format!("{} {} {} ", a, body_text(g.stream(), runs), b);
                                k += 1;
                            }
                            [TokenTree::Punct(p), ..] => {
                                out += &p.to_string();
                                if p.spacing() == proc_macro2::Spacing::Alone {
                                    out.push(' ');
                                }
                                k += 1;
                            }
                            [t, ..] => {
                                out += &format!("{} ", t);
                                k += 1;
                            }
                            [] => unreachable!(),
                        }
                    }
                    out
                }
                return Some((format!("{} ! ( {} )", name, out), body_text(body.stream(), &runs)));
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(r) = macro_rule(its, name) {
                        return Some(r);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct FnOut {
    text: String,
    info: Value,
}

/// The contract of a function, without its body.
fn assumed_fn(fs: &FnSpec, generics: TokenStream, selfty: Option<TokenStream>, where_: TokenStream, mut f: ItemFn, line: (usize, usize)) -> FnOut {
    let mut n = 0usize;
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = a {
            match &*pt.pat {
                Pat::Ident(i) => {
                    let i = &i.ident;
                    *pt.pat = xform::parse_pat(quote!(#i));
                }
                Pat::Wild(_) => {}
                _ => {
                    let v = format_ident!("vx_p{}", n);
                    *pt.pat = xform::parse_pat(quote!(#v));
                    n += 1;
                }
            }
        }
    }
    let mut dp = DynParam { n: 0, generics: vec![] };
    for a in f.sig.inputs.iter_mut() {
        dp.visit_fn_arg_mut(a);
    }
    for g in &dp.generics {
        f.sig.generics.params.push(parse2(g.clone()).unwrap());
    }
    let renamed = fs.flags.iter().find_map(|x| x.strip_prefix("as:")).map(|n| format_ident!("{}", n));
    let name = renamed.as_ref().unwrap_or(&f.sig.ident);
    let fg = &f.sig.generics.params;
    let fg = if fg.is_empty() { quote!() } else { quote!(<#fg>) };
    let inputs = &f.sig.inputs;
    let ret = match (&f.sig.output, &fs.ret) {
        (ReturnType::Type(_, t), Some(r)) => {
            let r: TokenStream = r.parse().unwrap();
            quote!(-> (#r : #t))
        }
        (ReturnType::Type(_, t), None) => quote!(-> (result : #t)),
        _ => quote!(),
    };
    let texts = vec![fs.sig.clone()];
    let mut pr = tok::Printer::new(&texts);
    pr.print(quote!(fn #name #fg (#inputs) #ret { vx_spec!(0); unimplemented!() }));
    let ftxt = format!("#[verifier::external_body] // vx-assumed\n{}", pr.out);
    let text = match &selfty {
        Some(s) => format!("impl{} {} {} {{\n{}\n}}\n", generics, s, where_, ftxt),
        _ => format!("{}\n", ftxt),
    };
    FnOut {
        text,
        info: json!({"path": fs.path, "vname": fs.path, "source": fs.source, "lines": [line.0, line.1], "lost": [],
            "unsupported": [], "rules": [], "loops": 0, "hash": "", "assumed": true}),
    }
}

fn emit_fn(sp: &Spec, fs: &FnSpec, found: Found, vacuity: bool) -> FnOut {
    let mut lost: Vec<String> = vec![];
    let mut texts: Vec<String> = vec![];
    let mut rules: BTreeSet<String> = BTreeSet::new();
    let Found { generics, selfty, where_, sig, block, line } = found;
    let orig_src: String = quote!(#sig #block).to_string();

    // 1. token rewrites
    // of an assumed function only the signature is of use
    let mut ts = if fs.flags.iter().any(|x| x == "assumed") { quote!(#sig {}) } else { quote!(#sig #block) };
    for (p, r) in &fs.rewrites {
        let (t2, n) = apply_rw(ts, p, r);
        ts = t2;
        if n == 0 {
            lost.push(format!("rewrite `{}` matches nothing", p));
        } else {
            rules.insert(format!("rewrite: {} => {}", p, r));
        }
    }
    for (p, r) in fs.macros.iter().chain(sp.macros.iter()).chain(sp.rewrites.iter()) {
        let (t2, n) = apply_rw(ts, p, r);
        ts = t2;
        if n > 0 {
            rules.insert(format!("rewrite: {} => {}", p, r));
        }
    }
    let mut f: ItemFn = match parse2(ts.clone()) {
        Ok(f) => f,
        Err(e) => {
            // keep the first statement of the problem visible
            return FnOut {
                text: String::new(),
                info: json!({"path": fs.path, "source": fs.source, "lines": [line.0, line.1], "lost": [format!("does not parse after rewrites: {} in {}", e, ts)], "unsupported": [], "rules": []}),
            };
        }
    };

    if fs.flags.iter().any(|x| x == "assumed") {
        return assumed_fn(fs, generics, selfty, where_, f, line);
    }

    // 2. statement markers
    for (before, pat, text) in &fs.stmts {
        texts.push(text.clone());
        let n = texts.len() - 1;
        let (pat_s, skip) = match pat.rsplit_once("##") {
            Some((a, b)) => (a.trim().to_string(), b.trim().parse().unwrap()),
            None => (pat.clone(), 0),
        };
        let p = tok::toks(&pat_s);
        let mut v = InsertMark { pat: &p, before: *before, n, done: false, skip };
        v.visit_block_mut(&mut f.block);
        if !v.done {
            lost.push(format!("anchor `{}`", pat));
        }
    }

    // 3. desugar
    let mut xf = xform::Xf {
        spec: Some(fs),
        texts: &mut texts,
        sources: &sp.sources,
        arena: sp.arena.as_deref(),
        loops: 0,
        fresh: 0,
        used: BTreeSet::new(),
        rules: BTreeSet::new(),
        unsupported: vec![],
    };
    // parameters with patterns
    let mut param_lets: Vec<TokenStream> = vec![];
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = a {
            if !matches!(&*pt.pat, Pat::Ident(_)) {
                let (p2, st) = xf.adapt_pat(&pt.pat);
                if matches!(p2, Pat::Ident(_)) || matches!(p2, Pat::Wild(_)) {
                    *pt.pat = p2;
                    param_lets.extend(st);
                } else {
                    let v = format_ident!("vx_p{}", param_lets.len());
                    *pt.pat = xform::parse_pat(quote!(#v));
                    param_lets.push(quote!(let #p2 = #v;));
                    param_lets.extend(st);
                }
            }
        }
    }
    xf.visit_block_mut(&mut f.block);
    let nloops = xf.loops;
    let used = xf.used.clone();
    let unsupported = xf.unsupported.clone();
    rules.extend(xf.rules.iter().map(|s| s.to_string()));

    let mut annotated = BTreeSet::new();
    for k in fs.blocks.keys() {
        if let Some(r) = k.strip_prefix("loop ") {
            let n: usize = r.split_whitespace().next().unwrap().parse().unwrap();
            if k == &format!("loop {}", n) {
                annotated.insert(n);
            }
            if !used.contains(k) {
                lost.push(format!("anchor `{}`", k));
            }
        }
    }
    if annotated.len() != nloops && !fs.flags.iter().any(|x| x == "anyloops") {
        lost.push(format!("{} loops in the code, {} annotated", nloops, annotated.len()));
    }

    // 4. assemble
    let mut body: Vec<TokenStream> = vec![];
    texts.push(fs.sig.clone());
    let l = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
    body.push(quote!(vx_spec!(#l);));
    if vacuity {
        texts.push("proof { assert(false); }".into());
        let l = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
        body.push(quote!(vx_mark!(#l); vx_diverge()));
    } else {
        if let Some(t) = fs.blocks.get("entry") {
            texts.push(t.clone());
            let l = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
            body.push(quote!(vx_mark!(#l);));
        }
        body.extend(param_lets);
        let mut stmts = f.block.stmts.clone();
        if let Some(t) = fs.blocks.get("exit") {
            texts.push(t.clone());
            let l = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
            let has_tail = matches!(stmts.last(), Some(Stmt::Expr(_, None)));
            let unit_ret = matches!(f.sig.output, ReturnType::Default);
            if has_tail && unit_ret {
                if let Some(Stmt::Expr(_, s)) = stmts.last_mut() {
                    *s = Some(Default::default());
                }
                body.push(quote!(#(#stmts)* vx_mark!(#l);));
            } else if has_tail {
                let tail = stmts.pop().unwrap();
                body.push(quote!(#(#stmts)* let vx_ret = #tail; vx_mark!(#l); vx_ret));
            } else {
                body.push(quote!(#(#stmts)* vx_mark!(#l);));
            }
        } else {
            body.push(quote!(#(#stmts)*));
        }
    }

    let mut dp = DynParam { n: 0, generics: vec![] };
    for a in f.sig.inputs.iter_mut() {
        dp.visit_fn_arg_mut(a);
    }
    if !dp.generics.is_empty() {
        rules.insert("dyn-param-to-generic".into());
    }
    for g in &dp.generics {
        f.sig.generics.params.push(parse2(g.clone()).unwrap());
    }
    // `impl Trait` stays as is.
    // several trait implementations of one type may hold a method of the same name
    let renamed = fs.flags.iter().find_map(|x| x.strip_prefix("as:")).map(|n| format_ident!("{}", n));
    let name = renamed.as_ref().unwrap_or(&f.sig.ident);
    // the name by which the verifier reports the emitted function
    let vname = match fs.path.rsplit('@').next().unwrap().rsplit_once("::") {
        Some((t, _)) => format!("{}::{}", t, name),
        None => name.to_string(),
    };
    let fg = &f.sig.generics.params;
    let fg = if fg.is_empty() { quote!() } else { quote!(<#fg>) };
    let fw = &f.sig.generics.where_clause;
    let inputs = &f.sig.inputs;
    let ret = match (&f.sig.output, &fs.ret) {
        (ReturnType::Type(_, t), Some(r)) => {
            let r: TokenStream = r.parse().unwrap();
            quote!(-> (#r : #t))
        }
        (ReturnType::Type(_, t), None) => quote!(-> (result : #t)),
        _ => quote!(),
    };
    let fn_ts = quote!(fn #name #fg (#inputs) #ret #fw { #(#body)* });
    let flags: String = fs.flags.iter().filter(|f| f.starts_with("#[")).map(|s| format!("{}\n", s)).collect();
    let mut pr = tok::Printer::new(&texts);
    pr.print(fn_ts);
    let ftxt = format!("{}{}", flags, pr.out);
    let text = match (&selfty, fs.flags.iter().any(|x| x == "intrait")) {
        (Some(s), false) => format!("impl{} {} {} {{\n{}\n}}\n", generics, s, where_, ftxt),
        _ => format!("{}\n", ftxt),
    };
    let mut h = 0xcbf29ce484222325u64;
    for b in orig_src.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    FnOut {
        text,
        info: json!({"path": fs.path, "vname": vname, "source": fs.source, "lines": [line.0, line.1], "lost": lost,
            "unsupported": unsupported, "rules": rules.into_iter().collect::<Vec<_>>(), "loops": nloops, "hash": format!("{:016x}", h)}),
    }
}

/// LIT in `NAME : Regex = Regex::new(LIT).unwrap();`
fn pattern_of(ts: TokenStream, name: &str) -> Option<String> {
    use proc_macro2::TokenTree;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let want = format!("{} : Regex = Regex :: new", name).replace(' ', "");
    for i in 0..v.len() {
        if v[i].to_string() == name {
            let mut s = String::new();
            let mut j = i;
            while j < v.len() && s.len() < want.len() {
                s.push_str(&v[j].to_string());
                j += 1;
            }
            let rest: String = v[j.min(v.len())..].iter().skip(1).take(4).map(|t| t.to_string().replace(' ', "")).collect();
            if s == want && rest == ".unwrap();" {
                if let Some(TokenTree::Group(g)) = v.get(j) {
                    return parse2::<LitStr>(g.stream()).ok().map(|l| l.value());
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            if let Some(r) = pattern_of(g.stream(), name) {
                return Some(r);
            }
        }
    }
    None
}

struct Ctx {
    repo: String,
    files: HashMap<String, Option<File>>,
}

impl Ctx {
    fn file(&mut self, s: &str) -> Option<&File> {
        if !self.files.contains_key(s) {
            let f = std::fs::read_to_string(format!("{}/{}", self.repo, s)).ok().and_then(|t| parse_file(&t).ok());
            self.files.insert(s.to_string(), f);
        }
        self.files[s].as_ref()
    }
}

/// `assumed`: the contracts are taken as they are; another unit discharges them.
/// `//@ set F` (in the unit) makes the text between `//@ if F` and `//@ end` count, here and in
/// all it includes from there on; `//@ if !F` is the opposite. Lines left out stay as empty lines.
fn conditions(text: &str, flags: &mut BTreeSet<String>) -> String {
    let mut out = String::new();
    let mut stack: Vec<bool> = vec![];
    for line in text.lines() {
        let d: Vec<&str> = match line.trim_start().strip_prefix("//@") {
            Some(d) => d.split_whitespace().collect(),
            None => vec![],
        };
        match d.as_slice() {
            ["set", f] => {
                flags.insert(f.to_string());
            }
            ["if", f] => stack.push(match f.strip_prefix('!') {
                Some(f) => !flags.contains(f),
                None => flags.contains(*f),
            }),
            ["end"] => {
                stack.pop().expect("//@ end without //@ if");
            }
            _ if stack.iter().all(|x| *x) => out.push_str(line),
            _ => {}
        }
        out.push('\n');
    }
    assert!(stack.is_empty(), "//@ if without //@ end");
    out
}

fn load(path: &str, assumed: bool, seen: &mut BTreeSet<std::path::PathBuf>, flags: &mut BTreeSet<String>) -> Spec {
    let pb = std::path::PathBuf::from(path);
    if !seen.insert(pb.canonicalize().unwrap_or(pb)) {
        return Spec::default();
    }
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let text = conditions(&text, flags);
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut sp = spec::parse(&text);
    if assumed {
        for f in sp.fns.values_mut() {
            if !f.flags.iter().any(|x| x == "intrait") {
                f.flags.push("assumed".to_string());
            }
        }
    }
    // splice includes
    let mut dirs = vec![];
    let mut order = vec![];
    for d in std::mem::take(&mut sp.dirs) {
        match d {
            Dir::Include(f) => {
                let (f, a) = match f.strip_suffix(" assumed") {
                    Some(f) => (f.trim().to_string(), true),
                    None => (f, false),
                };
                let sub = load(dir.join(&f).to_str().unwrap(), assumed || a, seen, flags);
                dirs.extend(sub.dirs);
                order.extend(sub.order);
                for (k, v) in sub.fns {
                    sp.fns.entry(k).or_insert(v);
                }
                sp.sources.extend(sub.sources);
                sp.macros.extend(sub.macros);
                sp.macro_rules.extend(sub.macro_rules);
                sp.rewrites.extend(sub.rewrites);
                if sp.arena.is_none() {
                    sp.arena = sub.arena;
                }
            }
            d => dirs.push(d),
        }
    }
    order.extend(std::mem::take(&mut sp.order));
    sp.dirs = dirs;
    sp.order = order;
    sp
}

fn main() {
    let a = args();
    let mut sp = load(&a.spec, false, &mut BTreeSet::new(), &mut BTreeSet::new());
    for p in &a.assume {
        let f = sp.fns.get_mut(p).unwrap_or_else(|| panic!("{}: not in the unit", p));
        assert!(!f.flags.iter().any(|x| x == "intrait"), "{}: a method of a trait", p);
        f.flags.push("assumed".to_string());
    }
    let mut cx = Ctx { repo: a.repo.clone(), files: HashMap::new() };
    let mut out = String::from("// generated by vx; do not edit\n#![allow(unused)]\n#![allow(non_snake_case)]\nuse vstd::prelude::*;\n");
    let mut fns: Vec<Value> = vec![];
    let mut types: Vec<Value> = vec![];
    let mut glost: Vec<String> = vec![];
    out.push_str("verus! {\n");
    for (file, name) in std::mem::take(&mut sp.macro_rules) {
        match cx.file(&file).and_then(|f| macro_rule(&f.items, &name)) {
            Some(r) => sp.macros.push(r),
            None => glost.push(format!("macro_rules {} in {}", name, file)),
        }
    }
    let mut done: BTreeSet<String> = BTreeSet::new();
    for d in &sp.dirs {
        match d {
            Dir::Include(_) => unreachable!(),
            Dir::Raw(t) => {
                if let Some(k) = t.lines().find(|l| l.trim().starts_with("//once ")) {
                    if !done.insert(k.trim().to_string()) {
                        continue;
                    }
                }
                out.push_str(t)
            }
            Dir::Const { source, name } => {
                let ok = match cx.file(source) {
                    Some(f) => match find_item(&f.items, name, &|i| matches!(i, Item::Const(_) | Item::Static(_))) {
                        Some(i) => {
                            let mut i = i.clone();
                            StripVis.visit_item_mut(&mut i);
                            let mut ts = i.to_token_stream();
                            for (p, r) in sp.rewrites.iter() {
                                ts = apply_rw(ts, p, r).0;
                            }
                            // the lifetime that is left out of a constant's type
                            let ts = apply_rw(ts, ": & str =", ": & 'static str =").0;
                            let mut pr = tok::Printer::new(&[]);
                            pr.print(ts);
                            out.push_str(&pr.out);
                            out.push('\n');
                            true
                        }
                        None => false,
                    },
                    None => false,
                };
                if !ok {
                    glost.push(format!("const {} in {}", name, source));
                }
            }
            Dir::Regex { source, name, lit } => {
                cx.file(source);
                let txt = std::fs::read_to_string(format!("{}/{}", cx.repo, source)).unwrap_or_default();
                let ok = txt.parse::<TokenStream>().ok().and_then(|ts| pattern_of(ts, name)).map_or(false, |l| l == *lit);
                if !ok {
                    glost.push(format!("the pattern of {} in {}", name, source));
                }
            }
            Dir::Type { source, name, derive, body } => {
                if !done.insert(format!("type {}", name)) {
                    continue;
                }
                let want: Vec<String> = derive.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                let it = cx.file(source).and_then(|f| find_item(&f.items, name, &|i| matches!(i, Item::Struct(_) | Item::Enum(_))).cloned());
                match it {
                    Some(mut i) => {
                        let attrs = match &i {
                            Item::Struct(s) => s.attrs.clone(),
                            Item::Enum(s) => s.attrs.clone(),
                            _ => vec![],
                        };
                        let have = derives(&attrs);
                        for w in &want {
                            if !have.contains(w) && w != "Structural" && w != "Eq" {
                                glost.push(format!("derive({}) on {}", w, name));
                            }
                        }
                        StripVis.visit_item_mut(&mut i);
                        let mut ts = i.to_token_stream();
                        for (p, r) in sp.rewrites.iter() {
                            ts = apply_rw(ts, p, r).0;
                        }
                        let mut pr = tok::Printer::new(&[]);
                        pr.print(ts);
                        if !want.is_empty() {
                            out.push_str(&format!("#[derive({})]\n", want.join(", ")));
                        }
                        out.push_str(&pr.out);
                        out.push('\n');
                        out.push_str(body);
                        types.push(json!({"name": name, "source": source}));
                    }
                    None => glost.push(format!("type {} in {}", name, source)),
                }
            }
            Dir::Trait { source, name, body } => {
                let it = cx.file(source).and_then(|f| find_item(&f.items, name, &|i| matches!(i, Item::Trait(_))).cloned());
                match it {
                    Some(Item::Trait(t)) => {
                        out.push_str(&format!("trait {} {{\n{}", name, body));
                        for m in &t.items {
                            if let TraitItem::Fn(f) = m {
                                let key = format!("{}::{}", name, f.sig.ident);
                                if let Some(fs) = sp.fns.get(&key) {
                                    match find_fn(&[Item::Trait(t.clone())], &key) {
                                        Some(found) => {
                                            let st = out.lines().count() + 1;
                                            let r = emit_fn(&sp, fs, found, a.vacuity);
                                            out.push_str(&r.text);
                                            let mut info = r.info;
                                            info["gen"] = json!([st, out.lines().count()]);
                                            fns.push(info);
                                        }
                                        None => {
                                            let ident = &f.sig.ident;
                                            let inputs = &f.sig.inputs;
                                            let ret = match &f.sig.output {
                                                ReturnType::Type(_, t) => quote!(-> (result: #t)),
                                                _ => quote!(),
                                            };
                                            out.push_str(&format!("{}\n{};\n", quote!(fn #ident(#inputs) #ret), fs.sig));
                                        }
                                    }
                                }
                            }
                        }
                        out.push_str("}\n");
                    }
                    _ => glost.push(format!("trait {} in {}", name, source)),
                }
            }
            Dir::TraitImpl { source, name, body } => {
                // name = Trait@Type
                let (tr, ty) = name.split_once('@').unwrap();
                let mut txt = String::new();
                let mut head = None;
                let keys: Vec<String> = sp.order.iter().filter(|k| k.starts_with(&format!("{}::", name))).cloned().collect();
                let st0 = out.lines().count() + 1;
                let mut infos = vec![];
                for k in keys {
                    let fs = sp.fns[&k].clone();
                    let found = cx.file(source).and_then(|f| find_fn(&f.items, &k));
                    match found {
                        Some(found) => {
                            head = Some((found.generics.clone(), found.selfty.clone(), found.where_.clone()));
                            let r = emit_fn(&sp, &fs, found, a.vacuity);
                            txt.push_str(&r.text);
                            infos.push(r.info);
                        }
                        None => glost.push(format!("fn {} in {}", k, source)),
                    }
                }
                if let Some((g, s, w)) = head {
                    out.push_str(&format!("impl{} {} for {} {} {{\n{}{}}}\n", g, tr, s.map(|x| x.to_string()).unwrap_or(ty.to_string()), w, body, txt));
                }
                let en = out.lines().count();
                for mut i in infos {
                    i["gen"] = json!([st0, en]);
                    fns.push(i);
                }
            }
            Dir::Fn(path) => {
                let fs = sp.fns[path].clone();
                if fs.flags.iter().any(|x| x == "intrait") || !done.insert(format!("fn {}", path)) {
                    continue;
                }
                let found = cx.file(&fs.source).and_then(|f| found_of(&f.items, &fs, path));
                match found {
                    Some(found) => {
                        let st = out.lines().count() + 1;
                        out.push_str(&format!("// {} from {}:{}\n", path, fs.source, found.line.0));
                        let r = emit_fn(&sp, &fs, found, a.vacuity);
                        out.push_str(&r.text);
                        let mut info = r.info;
                        info["gen"] = json!([st, out.lines().count()]);
                        fns.push(info);
                    }
                    None => glost.push(format!("fn {} in {}", path, fs.source)),
                }
            }
        }
    }
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&a.out, &out).unwrap();
    let j = json!({"unit": sp.unit, "fns": fns, "types": types, "lost": glost});
    std::fs::write(&a.map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
