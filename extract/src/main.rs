//! Mechanical extractor: takes a Rust source file of the repository and a
//! sidecar of contracts, and writes the same source text with the contracts
//! spliced in at AST-determined byte positions.  Nothing of an executable body
//! is retyped by hand: every edit is an insertion of ghost text, or one of the
//! declared rewrites, and each is listed in the report.
//!
//! usage: extract SRC SIDECAR OUT.rs REPORT.json
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod expand;

#[derive(Debug, Clone)]
struct Dir { verb: String, arg: String, text: String, used: bool, target: String }

struct Sidecar { prelude: String, postlude: String, dirs: Vec<Dir>, split: Option<(String, Vec<String>, String)>, wrap: bool, expand: Vec<String>, full_names: bool }

/// `//@ for A,B: x,1 y,2` .. `//@ endfor`: the lines between, once per item,
/// with `@A@` and `@B@` replaced.
fn unroll(s: &str) -> String {
    let mut out = String::new();
    let mut lines = s.lines();
    while let Some(l) = lines.next() {
        if let Some(r) = l.trim_start().strip_prefix("//@ for ") {
            let (names, items) = r.split_once(':').expect("for NAMES: ITEMS");
            let names: Vec<&str> = names.split(',').map(|x| x.trim()).collect();
            let mut body = vec![];
            for b in lines.by_ref() { if b.trim() == "//@ endfor" { break; } body.push(b); }
            for it in items.split_whitespace() {
                let vals: Vec<&str> = it.split(',').collect();
                for b in &body {
                    let mut t = b.to_string();
                    for (n, v) in names.iter().zip(vals.iter()) { t = t.replace(&format!("@{}@", n), v); }
                    out.push_str(&t);
                    out.push('\n');
                }
            }
        } else { out.push_str(l); out.push('\n'); }
    }
    out
}

fn parse_sidecar(s: &str) -> Sidecar {
    let s = &unroll(s);
    let mut sc = Sidecar { prelude: String::new(), postlude: String::new(), dirs: vec![], split: None, wrap: true, expand: vec![], full_names: false };
    let mut target = String::new();
    let mut cur: Option<Dir> = None;
    for line in s.lines() {
        if let Some(rest) = line.trim_start().strip_prefix("//@") {
            if let Some(d) = cur.take() { sc.dirs.push(d); }
            let rest = rest.trim();
            let (verb, arg) = match rest.find(' ') { Some(i) => (&rest[..i], rest[i + 1..].trim()), None => (rest, "") };
            match verb {
                "fn" | "impl" | "trait" | "item" => {
                    target = format!("{} {}", verb, arg);
                    cur = None;
                }
                "end" => { target.clear(); }
                "#" => {}
                "expand" => sc.expand.push(arg.to_string()),
                "full-names" => sc.full_names = true,
                "split-trait" => {
                    // Trait method[,method] => NewTrait
                    let parts: Vec<&str> = arg.split("=>").collect();
                    let lhs: Vec<&str> = parts[0].split_whitespace().collect();
                    sc.split = Some((lhs[0].to_string(), lhs[1].split(',').map(|x| x.to_string()).collect(), parts[1].trim().to_string()));
                }
                _ => cur = Some(Dir { verb: verb.to_string(), arg: arg.to_string(), text: String::new(), used: false, target: target.clone() }),
            }
        } else if let Some(d) = cur.as_mut() {
            d.text.push_str(line);
            d.text.push('\n');
        }
    }
    if let Some(d) = cur.take() { sc.dirs.push(d); }
    let mut rest = vec![];
    for d in sc.dirs.drain(..) {
        match d.verb.as_str() {
            "prelude" => sc.prelude.push_str(&d.text),
            "postlude" => sc.postlude.push_str(&d.text),
            _ => rest.push(d),
        }
    }
    sc.dirs = rest;
    sc
}

struct LineIndex { starts: Vec<usize>, text: String }
impl LineIndex {
    fn new(t: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in t.bytes().enumerate() { if b == b'\n' { starts.push(i + 1); } }
        LineIndex { starts, text: t.to_string() }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.starts[lc.line - 1];
        // column counts chars
        let line = &self.text[ls..];
        let mut o = ls;
        for (n, (i, _)) in line.char_indices().enumerate() {
            if n == lc.column { o = ls + i; return o; }
        }
        let _ = o;
        self.text.len()
    }
    fn start(&self, s: Span) -> usize { self.off(s.start()) }
    fn end(&self, s: Span) -> usize { self.off(s.end()) }
}

#[derive(Debug, Clone)]
struct Edit { start: usize, end: usize, text: String, prio: i32, kind: &'static str }

struct FnInfo { key: String, start: usize, end: usize, sig_only: bool, nloops: usize, nclosures: usize, annotated: bool, assumed: bool }

struct Ctx<'a> {
    src: &'a str,
    li: LineIndex,
    sc: Sidecar,
    edits: Vec<Edit>,
    fns: Vec<FnInfo>,
    items: Vec<(String, usize, usize)>,
    seen: BTreeMap<String, usize>,
    rewrites: Vec<String>,
    dropped: Vec<String>,
    missing_anchor: Vec<String>,
}

/// A condition made of comparisons over names, fields, literals, casts, lengths and sums.
fn condition(e: &syn::Expr) -> bool {
    use syn::{BinOp::*, Expr::*};
    fn value(e: &syn::Expr) -> bool {
        match e {
            Path(_) | Lit(_) => true,
            Field(f) => value(&f.base),
            Cast(c) => value(&c.expr),
            Paren(p) => value(&p.expr),
            Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && value(&u.expr),
            MethodCall(m) => m.method == "len" && m.args.is_empty() && value(&m.receiver),
            Binary(b) => matches!(b.op, Add(_) | Sub(_)) && value(&b.left) && value(&b.right),
            _ => false,
        }
    }
    match e {
        Paren(p) => condition(&p.expr),
        Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && condition(&u.expr),
        Binary(b) => match b.op {
            And(_) | Or(_) => condition(&b.left) && condition(&b.right),
            Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_) => value(&b.left) && value(&b.right),
            _ => false,
        },
        _ => false,
    }
}

fn norm(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

fn type_name(t: &syn::Type, full: bool) -> String {
    let type_name = |t: &syn::Type| type_name(t, full);
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| {
            let mut n = s.ident.to_string();
            if let (true, syn::PathArguments::AngleBracketed(ab)) = (full, &s.arguments) {
                let a: Vec<String> = ab.args.iter().filter_map(|g| match g { syn::GenericArgument::Type(t) => Some(type_name(t)), _ => None }).collect();
                if !a.is_empty() { n = format!("{}<{}>", n, a.join(",")); }
            }
            n
        }).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        syn::Type::Array(a) => {
            let len = match &a.len { syn::Expr::Lit(l) => match &l.lit { syn::Lit::Int(i) => i.base10_digits().to_string(), _ => "?".into() }, _ => "?".into() };
            format!("[{};{}]", type_name(&a.elem), len)
        }
        syn::Type::Slice(a) => format!("[{}]", type_name(&a.elem)),
        syn::Type::Tuple(t) => format!("({})", t.elems.iter().map(type_name).collect::<Vec<_>>().join(",")),
        _ => "?".to_string(),
    }
}

/// A pattern of `subst`: literal text (any whitespace matches any whitespace)
/// and «name» holes, which match the shortest balanced text.
enum Pat { Lit(char), Space, Hole(String) }
fn subst_pattern(from: &str) -> Vec<Pat> {
    let mut r: Vec<Pat> = vec![];
    let mut it = from.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{ab}' {
            let mut n = String::new();
            for d in it.by_ref() { if d == '\u{bb}' { break; } n.push(d); }
            r.push(Pat::Hole(n));
        } else if c.is_whitespace() {
            if !matches!(r.last(), Some(Pat::Space)) { r.push(Pat::Space); }
        } else { r.push(Pat::Lit(c)); }
    }
    r
}
fn subst_match(p: &[Pat], t: &str, caps: &mut Vec<(String, String)>) -> Option<usize> {
    if p.is_empty() { return Some(0); }
    match &p[0] {
        Pat::Lit(c) => {
            let d = t.chars().next()?;
            if d != *c { return None; }
            Some(d.len_utf8() + subst_match(&p[1..], &t[d.len_utf8()..], caps)?)
        }
        Pat::Space => {
            let n = t.len() - t.trim_start().len();
            if n == 0 { return None; }
            Some(n + subst_match(&p[1..], &t[n..], caps)?)
        }
        Pat::Hole(name) => {
            if let Some((_, v)) = caps.iter().find(|(k, _)| k == name) {
                let v = v.clone();
                if !t.starts_with(&v) { return None; }
                return Some(v.len() + subst_match(&p[1..], &t[v.len()..], caps)?);
            }
            let mut depth = 0i32;
            for (i, c) in t.char_indices() {
                if i > 0 && depth == 0 {
                    caps.push((name.clone(), t[..i].to_string()));
                    if let Some(n) = subst_match(&p[1..], &t[i..], caps) { return Some(i + n); }
                    caps.pop();
                }
                match c { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => { depth -= 1; if depth < 0 { return None; } } _ => {} }
            }
            None
        }
    }
}

struct BodyScan { loops: Vec<(Span, Span, Option<(Span, Span)>, usize)>, closures: Vec<syn::ExprClosure>, stmts: Vec<(Span, usize)> }
impl<'ast> Visit<'ast> for BodyScan {
    fn visit_expr_while(&mut self, i: &'ast syn::ExprWhile) {
        self.loops.push((i.span(), i.body.span(), None, 0));
        visit::visit_expr_while(self, i);
    }
    fn visit_expr_for_loop(&mut self, i: &'ast syn::ExprForLoop) {
        self.loops.push((i.span(), i.body.span(), Some((i.in_token.span, i.expr.span())), 0));
        visit::visit_expr_for_loop(self, i);
    }
    fn visit_expr_loop(&mut self, i: &'ast syn::ExprLoop) {
        self.loops.push((i.span(), i.body.span(), None, 0));
        visit::visit_expr_loop(self, i);
    }
    fn visit_expr_closure(&mut self, i: &'ast syn::ExprClosure) {
        self.closures.push(i.clone());
        visit::visit_expr_closure(self, i);
    }
    fn visit_stmt(&mut self, i: &'ast syn::Stmt) {
        let value = matches!(i, syn::Stmt::Expr(syn::Expr::Call(_) | syn::Expr::MethodCall(_) | syn::Expr::Try(_) | syn::Expr::Macro(_), None));
        self.stmts.push((i.span(), value as usize));
        visit::visit_stmt(self, i);
    }
    fn visit_item(&mut self, _i: &'ast syn::Item) {}
}

impl<'a> Ctx<'a> {
    fn ins(&mut self, pos: usize, text: String, prio: i32, kind: &'static str) {
        self.edits.push(Edit { start: pos, end: pos, text, prio, kind });
    }
    fn rep(&mut self, s: usize, e: usize, text: String, kind: &'static str) {
        self.edits.push(Edit { start: s, end: e, text, prio: 0, kind });
    }
    fn dirs_for(&mut self, target: &str) -> Vec<Dir> {
        let mut r = vec![];
        for d in self.sc.dirs.iter_mut() {
            if d.target == target { d.used = true; r.push(d.clone()); }
        }
        r
    }
    fn item_dirs(&mut self, key: &str, s: usize, e: usize) -> bool {
        // returns true when the item is dropped
        let n = self.seen.entry(format!("item {}", key)).or_insert(0);
        *n += 1;
        let key = if *n > 1 { format!("{}#{}", key, n) } else { key.to_string() };
        self.items.push((key.clone(), s, e));
        let ds = self.dirs_for(&format!("item {}", key));
        for d in ds {
            match d.verb.as_str() {
                "drop" => { self.rep(s, e, String::new(), "drop"); self.dropped.push(key.clone()); return true; }
                "external" => { self.ins(s, "#[verifier::external] ".into(), 0, "external"); self.dropped.push(format!("{} (external)", key)); return true; }
                "attr" => { self.ins(s, d.text.clone(), 0, "ghost"); }
                "before" => { self.ins(s, d.text.clone(), -1, "ghost"); }
                "after" => { self.ins(e, d.text.clone(), 1, "ghost"); }
                "replace" => { self.rep(s, e, d.text.clone(), "rewrite"); self.rewrites.push(format!("{}: item replaced by: {}", key, norm(&d.text))); return true; }
                "subst" => self.subst(&key, s, e, &d),
                v => panic!("unknown item directive {} for {}", v, key),
            }
        }
        false
    }
    fn subst(&mut self, key: &str, s: usize, e: usize, d: &Dir) {
        let t = d.text.clone();
        let parts: Vec<&str> = t.split("\n=====>\n").collect();
        let from = parts[0].trim();
        let to = parts[1].trim_end();
        let body = self.src[s..e].to_string();
        let mut found = false;
        let mut base = 0;
        let pat = subst_pattern(from);
        while base < body.len() {
            if !body.is_char_boundary(base) { base += 1; continue; }
            let mut caps: Vec<(String, String)> = vec![];
            if let Some(n) = subst_match(&pat, &body[base..], &mut caps) {
                let a = s + base;
                let mut out = to.trim().to_string();
                for (k, v) in caps.iter() { out = out.replace(&format!("\u{ab}{}\u{bb}", k), v); }
                self.rep(a, a + n, out, "rewrite");
                found = true;
                base += n.max(1);
            } else { base += 1; }
        }
        if found { self.rewrites.push(format!("{}: `{}` => `{}` ({})", key, norm(from), norm(to), d.arg)); }
        else { self.missing_anchor.push(format!("{}: subst {}", key, norm(from))); }
    }
    fn do_fn(&mut self, key: &str, sig: &syn::Signature, block: Option<&syn::Block>, whole: Span, semi: Option<Span>, attrs: &[syn::Attribute]) {
        let n = self.seen.entry(format!("fn {}", key)).or_insert(0);
        *n += 1;
        let key = if *n > 1 { format!("{}#{}", key, n) } else { key.to_string() };
        let start = self.li.start(whole);
        let end = self.li.end(whole);
        let ds = self.dirs_for(&format!("fn {}", key));
        let mut scan = BodyScan { loops: vec![], closures: vec![], stmts: vec![] };
        if let Some(b) = block { scan.visit_block(b); }
        for c in scan.closures.iter() {
            for (n, p) in c.inputs.iter().enumerate() {
                if matches!(p, syn::Pat::Wild(_)) {
                    let (a, b) = (self.li.start(p.span()), self.li.end(p.span()));
                    self.rep(a, b, format!("_w{}", n), "rewrite");
                    self.rewrites.push(format!("{}: closure parameter `_` named `_w{}`", key, n));
                }
            }
        }
        // which closure each `closure` directive means: `~TEXT` names it by what its body says,
        // its number is what is left where no body says that
        let mut contracted: Vec<(usize, usize)> = vec![];
        {
            let body = |c: &syn::ExprClosure| norm(&self.src[self.li.start(c.body.span())..self.li.end(c.body.span())]);
            for by_text in [true, false] {
                for (di, d) in ds.iter().enumerate() {
                    if d.verb != "closure" || contracted.iter().any(|x| x.0 == di) { continue; }
                    let ci = if by_text {
                        d.arg.split_once('~').and_then(|(_, t)| {
                            let t = norm(t);
                            scan.closures.iter().enumerate().filter(|(i, c)| body(c).contains(&t) && !contracted.iter().any(|x| x.1 == *i)).min_by_key(|(_, c)| body(c).len()).map(|x| x.0)
                        })
                    } else {
                        d.arg.split_whitespace().next().and_then(|n| n.parse::<usize>().ok()).filter(|i| *i < scan.closures.len() && !contracted.iter().any(|x| x.1 == *i))
                    };
                    if let Some(ci) = ci { contracted.push((di, ci)); }
                }
            }
        }
        // a closure without a contract whose body is a plain condition is given that condition
        for (ci, c) in scan.closures.iter().enumerate() {
            if contracted.iter().any(|x| x.1 == ci) || !matches!(c.output, syn::ReturnType::Default) || !condition(&c.body) || c.inputs.iter().any(|p| !matches!(p, syn::Pat::Ident(_))) { continue; }
            let (bs, be, or2) = (self.li.start(c.body.span()), self.li.end(c.body.span()), self.li.end(c.or2_token.span));
            let b = norm(&self.src[bs..be]);
            self.ins(or2, format!(" -> (b_: bool) ensures b_ == ({}) ", b), -1, "ghost");
            self.ins(bs, " { ".into(), 1, "ghost");
            self.ins(be, " }".into(), -3, "ghost");
        }
        // destructured closure parameters: bound by a `let` in the body (contracted closures only)
        for (ci, c) in scan.closures.iter().enumerate() {
            if !contracted.iter().any(|x| x.1 == ci) { continue; }
            for (n, p) in c.inputs.iter().enumerate() {
                if matches!(p, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_)) {
                    let (a, b) = (self.li.start(p.span()), self.li.end(p.span()));
                    let pat = self.src[a..b].to_string();
                    self.rep(a, b, format!("_c{}", n), "rewrite");
                    let bs = self.li.start(c.body.span());
                    let isblock = matches!(&*c.body, syn::Expr::Block(_));
                    self.ins(if isblock { bs + 1 } else { bs }, format!(" let {} = _c{}; ", pat, n), if isblock { -4 } else { 2 }, "rewrite");
                    self.rewrites.push(format!("{}: closure parameter pattern `{}` bound by a let in the body", key, norm(&pat)));
                }
            }
        }
        if let Some(b) = block {
            for (n, a) in sig.inputs.iter().enumerate() {
                if let syn::FnArg::Typed(t) = a {
                    if matches!(&*t.pat, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_) | syn::Pat::Wild(_)) {
                        let (x, y) = (self.li.start(t.pat.span()), self.li.end(t.pat.span()));
                        let pat = self.src[x..y].to_string();
                        self.rep(x, y, format!("_p{}", n), "rewrite");
                        let q = self.li.end(b.brace_token.span.open());
                        if pat != "_" { self.ins(q, format!(" let {} = _p{}; ", pat, n), -4, "rewrite"); }
                        self.rewrites.push(format!("{}: parameter pattern `{}` bound by a let in the body", key, norm(&pat)));
                    }
                }
            }
        }
        let mut info = FnInfo { key: key.clone(), start, end, sig_only: block.is_none(), nloops: scan.loops.len(), nclosures: scan.closures.len(), annotated: block.is_some(), assumed: false };
        if std::env::var("VACUITY").is_ok() {
            if let Some(b) = block {
                let p = self.li.end(b.brace_token.span.open());
                self.ins(p, "\nproof { assert(false); } // vacuity probe\n".into(), -5, "ghost");
            }
        }
        // position of the signature start (after attributes / doc comments)
        let after_attrs = attrs.last().map(|a| self.li.end(a.span())).unwrap_or(start);
        let sig_pos = match block { Some(b) => self.li.start(b.span()), None => semi.map(|s| self.li.start(s)).unwrap_or(end) };
        let ids: Vec<(String, usize)> = scan.loops.iter().enumerate().map(|(i, _)| (format!("{}", i), i)).collect();
        let _ = ids;
        for d in ds.iter() {
            match d.verb.as_str() {
                "drop" => { self.rep(start, end, String::new(), "drop"); self.dropped.push(format!("fn {}", key)); return; }
                "external_body" => {
                    self.ins(if attrs.is_empty() { start } else { after_attrs }, "\n#[verifier::external_body] ".into(), 0, "assumed");
                    info.assumed = true;
                }
                "attr" => { self.ins(if attrs.is_empty() { start } else { after_attrs }, format!("\n{} ", d.text.trim()), 0, "ghost"); }
                "ret" => {
                    if let syn::ReturnType::Type(_, t) = &sig.output {
                        let (a, b) = (self.li.start(t.span()), self.li.end(t.span()));
                        self.ins(a, format!("({}: ", d.arg), 0, "ghost");
                        self.ins(b, ")".into(), -2, "ghost");
                    } else {
                        let p = self.li.end(sig.paren_token.span.close());
                        self.ins(p, format!(" -> ({}: ()) ", d.arg), -2, "ghost");
                    }
                }
                "params" => {
                    // extra ghost parameters
                    let p = self.li.start(sig.paren_token.span.close());
                    self.ins(p, d.text.trim().to_string(), 0, "ghost");
                }
                "where" => {
                    let t = d.text.trim().to_string();
                    match &sig.generics.where_clause {
                        Some(w) if !w.predicates.is_empty() => {
                            let p = self.li.end(w.span());
                            self.ins(p, format!("{} {} ", if w.predicates.trailing_punct() { "" } else { "," }, t), -1, "ghost");
                        }
                        _ => { self.ins(sig_pos, format!(" where {} ", t), -1, "ghost"); }
                    }
                    self.rewrites.push(format!("{}: bound added: {}", key, t));
                }
                "spec" => { self.ins(sig_pos, format!("\n{}", d.text), 0, "ghost"); }
                "start" => { if let Some(b) = block { let p = self.li.end(b.brace_token.span.open()); let pr = if d.text.trim_start().starts_with("hide(") { -6 } else { 0 }; self.ins(p, format!("\n{}", d.text), pr, "ghost"); } }
                "end-of-body" => { if let Some(b) = block { let p = self.li.start(b.brace_token.span.close()); self.ins(p, format!("\n{}", d.text), 0, "ghost"); } }
                "tail" => {
                    if let Some(b) = block {
                        if let Some(l) = b.stmts.last() {
                            let p = self.li.start(l.span());
                            // `tail ok`: the ghost text speaks of the state the function leaves
                            // when it succeeds; where the result comes from a call, that is
                            // the state after the call
                            if d.arg == "ok" {
                                if let syn::Stmt::Expr(e, None) = l {
                                    let plain = match e {
                                        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(f) if f.path.segments.last().map(|s| s.ident == "Ok" || s.ident == "Err").unwrap_or(false)),
                                        syn::Expr::MethodCall(_) | syn::Expr::Try(_) => false,
                                        _ => true,
                                    };
                                    if !plain {
                                        let q = self.li.end(l.span());
                                        self.ins(p, "let r_ = ".to_string(), 1, "ghost");
                                        self.ins(q, format!(";\nproof {{ if r_ is Ok {{\n{}\n}} }}\nr_", d.text.trim().strip_prefix("proof {").and_then(|t| t.strip_suffix('}')).unwrap_or(&d.text)), -3, "ghost");
                                        self.rewrites.push(format!("{}: tail expression named `r_`", key));
                                        continue;
                                    }
                                }
                            }
                            self.ins(p, format!("{}\n", d.text), 0, "ghost");
                        }
                    }
                }
                "tail-let" => {
                    // the result named, so that ghost code can follow it
                    if let Some(b) = block {
                        if let Some(syn::Stmt::Expr(l, None)) = b.stmts.last() {
                            let (p, q) = (self.li.start(l.span()), self.li.end(l.span()));
                            let n = if d.arg.is_empty() { "r_".to_string() } else { d.arg.clone() };
                            self.ins(p, format!("let {} = ", n), 1, "ghost");
                            self.ins(q, format!(";\n{}\n{}", d.text, n), -3, "ghost");
                            self.rewrites.push(format!("{}: tail expression named `{}`", key, n));
                        } else { self.missing_anchor.push(format!("{}: no tail expression", key)); }
                    }
                }
                "loop" => {
                    let mut w = d.arg.split_whitespace();
                    let i: usize = w.next().unwrap().parse().unwrap();
                    let place = w.next().unwrap_or("spec");
                    if let Some((ls, bs, for_in, _)) = scan.loops.get(i).cloned() {
                        let bstart = self.li.start(bs);
                        match place {
                            "spec" => self.ins(bstart, format!("\n{}", d.text), 0, "ghost"),
                            "start" => self.ins(bstart + 1, format!("\n{}", d.text), 0, "ghost"),
                            "end" => { let p = self.li.end(bs) - 1; self.ins(p, format!("\n{}", d.text), 0, "ghost") }
                            "before" => { let p = self.li.start(ls); self.ins(p, format!("{}\n", d.text), -1, "ghost") }
                            "after" => {
                                // a loop used as a statement: insert after it
                                let mut p = self.li.end(ls);
                                // nothing follows a `loop` that is the result of the function
                                let tail = block.and_then(|b| b.stmts.last()).map(|l| match l { syn::Stmt::Expr(syn::Expr::Loop(l), None) => self.li.end(l.span()) == p, _ => false }).unwrap_or(false);
                                if tail { continue; }
                                if self.src[p..].starts_with(';') { p += 1; }
                                self.ins(p, format!("\n{}", d.text), 1, "ghost")
                            }
                            "iter" => {
                                if let Some((it, _)) = for_in {
                                    let p = self.li.end(it);
                                    self.ins(p, format!(" {}: ", d.text.trim()), 0, "ghost");
                                } else { self.missing_anchor.push(format!("{}: loop {} is not a for loop", key, i)); }
                            }
                            "wrap-iter" => {
                                if let Some((_, ex)) = for_in {
                                    let parts: Vec<&str> = d.text.trim().split("$").collect();
                                    let (a, b) = (self.li.start(ex), self.li.end(ex));
                                    self.ins(a, parts[0].to_string(), 1, "rewrite");
                                    self.ins(b, parts[1].to_string(), -1, "rewrite");
                                    self.rewrites.push(format!("{}: for-loop iterator wrapped: {}", key, d.text.trim()));
                                }
                            }
                            x => panic!("loop place {}", x),
                        }
                    } else { self.missing_anchor.push(format!("{}: loop {}", key, i)); }
                }
                "hoist" => {
                    // `PRE closure POST` as the tail expression becomes
                    // `let F = closure; let R = PRE F POST; <text> R`
                    let w: Vec<&str> = d.arg.split_whitespace().collect();
                    let i: usize = w[0].parse().unwrap();
                    let mut done = false;
                    if let (Some(b), Some(c)) = (block, scan.closures.get(i).cloned()) {
                        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                            let (ts, te) = (self.li.start(e.span()), self.li.end(e.span()));
                            let (cs, ce) = (self.li.start(c.span()), self.li.end(c.span()));
                            if ts <= cs && ce <= te {
                                let pre = self.src[ts..cs].to_string();
                                let post = self.src[ce..te].to_string();
                                self.rep(ts, cs, format!("let {} = ", w[1]), "rewrite");
                                self.rep(ce, te, format!("; let {} = {}{}{}; ", w[2], pre, w[1], post), "rewrite");
                                self.ins(te, format!("\n{}\n{} ", d.text, w[2]), 0, "ghost");
                                self.rewrites.push(format!("{}: closure {} of the tail expression named `{}`", key, i, w[1]));
                                done = true;
                            }
                        }
                    }
                    if !done { self.missing_anchor.push(format!("{}: hoist {}", key, d.arg)); }
                }
                "closure" => {
                    let i = d.arg.clone();
                    let said = contracted.iter().find(|x| std::ptr::eq(&ds[x.0], d)).map(|x| scan.closures[x.1].clone());
                    if let Some(c) = said {
                        // text: first line "(params) -> (r: T)" optional; rest spec
                        let bs = self.li.start(c.body.span());
                        let be = self.li.end(c.body.span());
                        let or2 = self.li.end(c.or2_token.span);
                        let isblock = matches!(&*c.body, syn::Expr::Block(_));
                        let mut text = d.text.clone();
                        // typed parameters: lines starting with "param N: T"
                        let mut newtext = String::new();
                        for l in text.lines() {
                            if let Some(r) = l.trim().strip_prefix("param ") {
                                let (n, t) = r.split_once(' ').unwrap();
                                let n: usize = n.parse().unwrap();
                                if let Some(p) = c.inputs.iter().nth(n) {
                                    if !matches!(p, syn::Pat::Type(_)) {
                                        let pe = self.li.end(p.span());
                                        self.ins(pe, format!(": {}", t), 0, "ghost");
                                    }
                                }
                            } else if let Some(r) = l.trim().strip_prefix("bodystart ") {
                                if isblock { self.ins(bs + 1, format!(" {} ", r), 0, "ghost"); }
                                else { self.ins(bs, format!(" {} ", r), 2, "ghost"); }
                            } else { newtext.push_str(l); newtext.push('\n'); }
                        }
                        text = newtext;
                        let has_ret = !matches!(c.output, syn::ReturnType::Default);
                        let _ = has_ret;
                        self.ins(or2, format!(" {} ", text.trim()), -1, "ghost");
                        if !isblock {
                            self.ins(bs, " { ".into(), 1, "ghost");
                            self.ins(be, " }".into(), -3, "ghost");
                        }
                    } else { self.missing_anchor.push(format!("{}: closure {}", key, i)); }
                }
                "before-stmt" | "after-stmt" => {
                    let mut pat = norm(&d.arg);
                    let mut which = 0usize;
                    if let Some(p) = pat.strip_prefix('#') {
                        let (a, b) = p.split_once(' ').unwrap();
                        which = a.parse().unwrap();
                        pat = b.to_string();
                    }
                    let mut hit: Vec<(usize, usize, usize)> = vec![];
                    for (sp, value) in scan.stmts.iter() {
                        let (a, b) = (self.li.start(*sp), self.li.end(*sp));
                        if norm(&self.src[a..b]).starts_with(&pat) { hit.push((a, b, *value)); }
                    }
                    // first hit that is the innermost of its chain
                    if let Some((a, b, value)) = hit.get(which).cloned() {
                        if d.verb == "after-stmt" && value == 1 {
                            // the statement has become the value of its block
                            let result = match &sig.output { syn::ReturnType::Type(_, t) => self.src[self.li.start(t.span())..self.li.end(t.span())].contains("Result"), _ => false };
                            let body = d.text.trim();
                            let text = match body.strip_prefix("proof {").and_then(|t| t.strip_suffix('}')) {
                                Some(t) if result => format!("proof {{ if s_ is Ok {{\n{}\n}} }}", t),
                                _ => body.to_string(),
                            };
                            self.ins(a, "{ let s_ = ".to_string(), 2, "ghost");
                            self.ins(b, format!(";\n{}\ns_ }}", text), -4, "ghost");
                            self.rewrites.push(format!("{}: tail expression named `s_`", key));
                        } else if d.verb == "before-stmt" { self.ins(a, format!("{}\n", d.text), -1, "ghost"); }
                        else { self.ins(b, format!("\n{}", d.text), 1, "ghost"); }
                    } else { self.missing_anchor.push(format!("{}: stmt `{}`", key, pat)); }
                }
                "subst" => self.subst(&key, start, end, d),
                "replace-body" => {
                    if let Some(b) = block {
                        let (a, e) = (self.li.start(b.span()), self.li.end(b.span()));
                        self.rep(a, e, d.text.clone(), "rewrite");
                        self.rewrites.push(format!("{}: body replaced", key));
                    }
                }
                v => panic!("unknown fn directive {} for {}", v, key),
            }
        }
        self.fns.push(info);
    }
}

struct SplitBounds { from: String, methods: Vec<String>, hits: Vec<(Span, &'static str)>, skip_assoc: bool }
impl<'ast> Visit<'ast> for SplitBounds {
    fn visit_item_trait(&mut self, i: &'ast syn::ItemTrait) {
        // the associated type that closes the cycle keeps the weaker bound
        let old = self.skip_assoc;
        self.skip_assoc = i.ident == "Backend";
        visit::visit_item_trait(self, i);
        self.skip_assoc = old;
    }
    fn visit_trait_item_type(&mut self, i: &'ast syn::TraitItemType) {
        if !self.skip_assoc { visit::visit_trait_item_type(self, i); }
    }
    fn visit_trait_bound(&mut self, i: &'ast syn::TraitBound) {
        if let Some(s) = i.path.segments.last() {
            if s.ident == self.from { self.hits.push((s.ident.span(), "bound")); }
        }
        visit::visit_trait_bound(self, i);
    }
    fn visit_expr_path(&mut self, i: &'ast syn::ExprPath) {
        if let Some(_q) = &i.qself {
            let segs: Vec<_> = i.path.segments.iter().collect();
            if segs.len() >= 2 && self.methods.iter().any(|m| segs[segs.len() - 1].ident == m.as_str()) && segs[segs.len() - 2].ident == self.from.as_str() {
                self.hits.push((segs[segs.len() - 2].ident.span(), "path"));
            }
        } else {
            let segs: Vec<_> = i.path.segments.iter().collect();
            if segs.len() == 2 && segs[0].ident == self.from.as_str() && self.methods.iter().any(|m| segs[1].ident == m.as_str()) {
                self.hits.push((segs[0].ident.span(), "path"));
            }
        }
        visit::visit_expr_path(self, i);
    }
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
        if is_test(&i.attrs) { return; }
        visit::visit_item_mod(self, i);
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta { return l.tokens.to_string().replace(' ', "") == "test"; }
        }
        a.path().is_ident("test")
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("source");
    let sct = std::fs::read_to_string(&a[2]).expect("sidecar");
    let sc = parse_sidecar(&sct);
    let mut expanded = vec![];
    let src = if sc.expand.is_empty() { src } else {
        let li = LineIndex::new(&src);
        match expand::expand(&src, &sc.expand, &|lc| li.off(lc)) {
            Ok((s, l)) => { expanded = l; s }
            Err(e) => { eprintln!("{}: {}", a[1], e); std::process::exit(3) }
        }
    };
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => { eprintln!("parse error in {}: {}", a[1], e); std::process::exit(3) }
    };
    let mut cx = Ctx { src: &src, li: LineIndex::new(&src), sc, edits: vec![], fns: vec![], items: vec![], seen: BTreeMap::new(), rewrites: expanded, dropped: vec![], missing_anchor: vec![] };
    for at in &file.attrs {
        let (s, e) = (cx.li.start(at.span()), cx.li.end(at.span()));
        cx.rep(s, e, String::new(), "drop");
    }
    if let Some((t, ms, new)) = cx.sc.split.clone() {
        let mut v = SplitBounds { from: t.clone(), methods: ms.clone(), hits: vec![], skip_assoc: false };
        v.visit_file(&file);
        let mut n = 0;
        let mut done = BTreeSet::new();
        for (sp, _) in v.hits {
            let (s, e) = (cx.li.start(sp), cx.li.end(sp));
            if done.insert(s) { cx.rep(s, e, new.clone(), "rewrite"); n += 1; }
        }
        if n > 0 { cx.rewrites.push(format!("{} generic bounds/paths `{}` => `{}` (trait split: the method(s) {} of trait {} move to the sub-trait {})", n, t, new, ms.join(","), t, new)); }
    }
    for it in &file.items { do_item(&mut cx, it); }
    // unused directives
    let unused: Vec<String> = cx.sc.dirs.iter().filter(|d| !d.used).map(|d| format!("{} / {} {}", d.target, d.verb, d.arg)).collect();
    for u in unused { cx.missing_anchor.push(u); }
    // a dropped range removes the edits inside it
    let drops: Vec<(usize, usize)> = cx.edits.iter().filter(|e| e.kind == "drop" || (e.kind == "rewrite" && e.end > e.start)).map(|e| (e.start, e.end)).collect();
    let mut edits: Vec<Edit> = cx.edits.iter().filter(|e| !drops.iter().any(|(s, t)| (e.start > *s && e.end < *t) || (e.start >= *s && e.end <= *t && (e.start, e.end) != (*s, *t) && !(e.start == e.end && (e.start == *s || e.end == *t))))).cloned().collect();
    edits.sort_by_key(|e| (e.start, if e.start == e.end { e.prio } else { 1000 }));
    let mut out = String::new();
    out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_shorthand_field_patterns)]\nuse vstd::prelude::*;\n");
    if cx.sc.wrap { out.push_str("verus! {\n"); }
    out.push_str(&cx.sc.prelude);
    let mut pos = 0;
    let mut map: Vec<(usize, usize)> = vec![];
    for e in &edits {
        if e.start < pos { continue; }
        map.push((pos, out.len()));
        out.push_str(&src[pos..e.start]);
        map.push((e.start, out.len()));
        out.push_str(&e.text);
        pos = e.end;
    }
    map.push((pos, out.len()));
    out.push_str(&src[pos..]);
    out.push_str("\n");
    out.push_str(&cx.sc.postlude);
    if cx.sc.wrap { out.push_str("\n} // verus!\n"); }
    let oli = LineIndex::new(&out);
    let to_out = |p: usize| -> usize {
        let mut best = 0;
        for (s, o) in &map { if *s <= p { best = (*o) + (p - *s); } }
        match oli.starts.binary_search(&best) { Ok(i) => i + 1, Err(i) => i }
    };
    let sli = LineIndex::new(&src);
    let sline = |p: usize| match sli.starts.binary_search(&p) { Ok(i) => i + 1, Err(i) => i };
    let fns: Vec<serde_json::Value> = cx.fns.iter().map(|f| serde_json::json!({
        "fn": f.key, "out_start": to_out(f.start), "out_end": to_out(f.end), "src_start": sline(f.start), "src_end": sline(f.end),
        "loops": f.nloops, "closures": f.nclosures, "annotated": f.annotated, "assumed": f.assumed, "sig_only": f.sig_only,
    })).collect();
    let inserted: usize = edits.iter().filter(|e| e.start == e.end).count();
    let rep = serde_json::json!({
        "src": a[1], "fns": fns, "dropped": cx.dropped, "rewrites": cx.rewrites, "missing_anchors": cx.missing_anchor, "insertions": inserted,
    });
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

fn do_item(cx: &mut Ctx, it: &syn::Item) {
    let (s, e) = (cx.li.start(it.span()), cx.li.end(it.span()));
    match it {
        syn::Item::Mod(m) => {
            if is_test(&m.attrs) { cx.rep(s, e, String::new(), "drop"); return; }
            if cx.item_dirs(&format!("mod {}", m.ident), s, e) { return; }
            if let Some((_, items)) = &m.content { for i in items { do_item(cx, i); } }
        }
        syn::Item::Fn(f) => {
            if is_test(&f.attrs) { cx.rep(s, e, String::new(), "drop"); return; }
            let key = f.sig.ident.to_string();
            if cx.item_dirs(&format!("fn {}", key), s, e) { return; }
            cx.do_fn(&key, &f.sig, Some(&f.block), f.span(), None, &f.attrs);
        }
        syn::Item::Impl(im) => {
            let ty = type_name(&im.self_ty, cx.sc.full_names);
            let prefix = match &im.trait_ {
                Some((_, p, _)) => {
                    let seg = p.segments.last().unwrap();
                    let args = match &seg.arguments {
                        syn::PathArguments::AngleBracketed(ab) => {
                            let (x, y) = (cx.li.start(ab.span()), cx.li.end(ab.span()));
                            cx.src[x..y].split_whitespace().collect::<String>()
                        }
                        _ => String::new(),
                    };
                    format!("{}{} for {}", seg.ident, args, ty)
                }
                None => ty.clone(),
            };
            let mut ikey = prefix.clone();
            if im.trait_.is_some() {
                // for wrapper types such as Compact<..>, disambiguate on demand
                let n = cx.seen.entry(format!("impl {}", prefix)).or_insert(0);
                *n += 1;
                if *n > 1 { ikey = format!("{}#{}", prefix, n); }
            }
            if cx.item_dirs(&format!("impl {}", prefix), s, e) { return; }
            let ds = cx.dirs_for(&format!("impl {}", ikey));
            for d in ds {
                match d.verb.as_str() {
                    "drop" => { cx.rep(s, e, String::new(), "drop"); cx.dropped.push(format!("impl {}", ikey)); return; }
                    "ghost" => { let p = cx.li.end(im.brace_token.span.open()); cx.ins(p, format!("\n{}", d.text), 0, "ghost"); }
                    "where" => { let p = cx.li.start(im.brace_token.span.open()); cx.ins(p, format!(" {} ", d.text.trim()), 0, "ghost"); }
                    "before" => { cx.ins(s, d.text.clone(), -1, "ghost"); }
                    "after" => { cx.ins(e, format!("\n{}", d.text), 1, "ghost"); }
                    "subst" => cx.subst(&ikey, s, e, &d),
                    "split-ghost" => {} // handled below
                    v => panic!("unknown impl directive {} for {}", v, ikey),
                }
            }
            let split = cx.sc.split.clone();
            let is_split = match (&split, &im.trait_) { (Some((t, _, _)), Some((_, p, _))) => p.segments.last().unwrap().ident == t.as_str(), _ => false };
            for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    let key = format!("{}::{}", ikey, f.sig.ident);
                    let is_moved = is_split && split.as_ref().map(|(_, ms, _)| ms.iter().any(|m| f.sig.ident == m.as_str())).unwrap_or(false);
                    if is_moved {
                        let (_, _, new) = split.clone().unwrap();
                        // close the impl here and open `impl NewTrait for T`
                        let tpath = im.trait_.as_ref().unwrap().1.segments.last().unwrap().ident.span();
                        let (hs, he) = (cx.li.start(im.impl_token.span), cx.li.start(im.brace_token.span.open()));
                        let (ts, te) = (cx.li.start(tpath), cx.li.end(tpath));
                        let mut header = String::new();
                        header.push_str(&cx.src[hs..ts]);
                        header.push_str(&new);
                        header.push_str(&cx.src[te..he]);
                        // bounds inside the header that use the split trait
                        if let Some((t, _, n)) = &split { header = header.replace(&format!(": {}", t), &format!(": {}", n)); }
                        let g: String = cx.sc.dirs.iter_mut().filter(|d| d.target == format!("impl {}", ikey) && d.verb == "split-ghost").map(|d| { d.used = true; d.text.clone() }).collect();
                        let fs = cx.li.start(f.span());
                        cx.ins(fs, format!("}}\n{} {{\n{}", header, g), -5, "rewrite");
                        cx.rewrites.push(format!("impl {}: method {} moved to impl {}", ikey, f.sig.ident, new));
                    }
                    cx.do_fn(&key, &f.sig, Some(&f.block), f.span(), None, &f.attrs);
                }
            }
        }
        syn::Item::Trait(t) => {
            let key = t.ident.to_string();
            if cx.item_dirs(&format!("trait {}", key), s, e) { return; }
            let ds = cx.dirs_for(&format!("trait {}", key));
            for d in ds {
                match d.verb.as_str() {
                    "ghost" => { let p = cx.li.end(t.brace_token.span.open()); cx.ins(p, format!("\n{}", d.text), 0, "ghost"); }
                    "supertrait" => {
                        let p = if let Some(c) = &t.colon_token { cx.li.end(c.span) } else { cx.li.end(t.ident.span()) };
                        let txt = if t.colon_token.is_some() { format!(" {} +", d.text.trim()) } else { format!(": {} ", d.text.trim()) };
                        cx.ins(p, txt, 0, "ghost");
                    }
                    "subst" => cx.subst(&key, s, e, &d),
                    "drop" => { cx.rep(s, e, String::new(), "drop"); cx.dropped.push(format!("trait {}", key)); return; }
                    "split-ghost" => {}
                    v => panic!("unknown trait directive {} for {}", v, key),
                }
            }
            let split = cx.sc.split.clone();
            for ii in &t.items {
                if let syn::TraitItem::Fn(f) = ii {
                    let fk = format!("{}::{}", key, f.sig.ident);
                    if let Some((tn, ms, new)) = &split {
                        if t.ident == tn.as_str() && ms.iter().any(|m| f.sig.ident == m.as_str()) {
                            let g: String = cx.sc.dirs.iter_mut().filter(|d| d.target == format!("trait {}", key) && d.verb == "split-ghost").map(|d| { d.used = true; d.text.clone() }).collect();
                            let fs = cx.li.start(f.span());
                            cx.ins(fs, format!("}}\n/// split from {}\npub trait {}: {} {{\n{}", tn, new, tn, g), -5, "rewrite");
                            cx.rewrites.push(format!("trait {}: method {} moved to sub-trait {}", key, f.sig.ident, new));
                        }
                    }
                    cx.do_fn(&fk, &f.sig, f.default.as_ref(), f.span(), f.semi_token.map(|x| x.span), &f.attrs);
                }
            }
        }
        syn::Item::Struct(x) => {
            if cx.item_dirs(&format!("struct {}", x.ident), s, e) { return; }
            let mut n = 0;
            for f in x.fields.iter() {
                if matches!(f.vis, syn::Visibility::Inherited) {
                    let p = match &f.ident { Some(i) => cx.li.start(i.span()), None => cx.li.start(f.ty.span()) };
                    cx.ins(p, "pub ".into(), 0, "rewrite");
                    n += 1;
                }
            }
            if n > 0 { cx.rewrites.push(format!("struct {}: {} private fields made pub (visibility only)", x.ident, n)); }
        }
        syn::Item::Enum(x) => { cx.item_dirs(&format!("enum {}", x.ident), s, e); }
        syn::Item::Const(x) => {
            let key = format!("const {}", x.ident);
            let ds = cx.dirs_for(&format!("item {}", key));
            for d in ds {
                if d.verb == "const-spec" {
                    let cs = cx.li.start(x.const_token.span);
                    cx.ins(cs, "exec ".into(), 0, "ghost");
                    let (a, b) = (cx.li.start(x.eq_token.span), cx.li.end(x.eq_token.span));
                    cx.rep(a, b, format!("{} {{", d.text.trim()), "rewrite");
                    let (a, b) = (cx.li.start(x.semi_token.span), cx.li.end(x.semi_token.span));
                    cx.rep(a, b, " }".into(), "rewrite");
                    cx.rewrites.push(format!("{}: `const X: T = E;` written as `exec const X: T ensures .. {{ E }}`", key));
                } else { panic!("const directive {}", d.verb); }
            }
        }
        syn::Item::Static(x) => { cx.item_dirs(&format!("static {}", x.ident), s, e); }
        syn::Item::Type(x) => { cx.item_dirs(&format!("type {}", x.ident), s, e); }
        syn::Item::Macro(x) => { let k = x.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| x.mac.path.segments.last().unwrap().ident.to_string()); cx.item_dirs(&format!("macro {}", k), s, e); }
        syn::Item::Use(_) => { let t = norm(&cx.src[s..e]); cx.item_dirs(&t, s, e); }
        syn::Item::ExternCrate(_) => { cx.rep(s, e, String::new(), "drop"); }
        _ => {}
    }
}
