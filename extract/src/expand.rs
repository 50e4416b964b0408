//! A small `macro_rules!` expander, so that the functions a declarative macro
//! of the source produces can be put under contract: for each macro named by
//! `//@ expand NAME` its invocations at item level are replaced by what the
//! (single) rule produces from their arguments, as text, and the definition is
//! dropped.  Fragments: ident, ty, expr, tt, literal; repetitions nest.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::spanned::Spanned;

#[derive(Debug, Clone)]
enum Bind { One(String), Many(Vec<BTreeMap<String, Bind>>) }
type Binds = BTreeMap<String, Bind>;

fn punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }

struct Rep { inner: Vec<TokenTree>, sep: Option<char>, next: usize }

/// `$( .. ) sep op` at `i` (the `$`).
fn rep_at(m: &[TokenTree], i: usize) -> Option<Rep> {
    if !punct(m.get(i)?, '$') { return None; }
    let g = match m.get(i + 1)? { TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => g, _ => return None };
    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
    let op = |t: Option<&TokenTree>| t.map(|t| punct(t, '*') || punct(t, '+') || punct(t, '?')).unwrap_or(false);
    if op(m.get(i + 2)) { return Some(Rep { inner, sep: None, next: i + 3 }); }
    match m.get(i + 2)? { TokenTree::Punct(p) if op(m.get(i + 3)) => Some(Rep { inner, sep: Some(p.as_char()), next: i + 4 }), _ => None }
}

fn text(ts: &[TokenTree]) -> String { ts.iter().cloned().collect::<TokenStream>().to_string().replace(" :: ", "::") }

/// Matches the pattern `m` against `a` from `p`; the position after it.
fn matches(m: &[TokenTree], a: &[TokenTree], mut p: usize, b: &mut Binds) -> Option<usize> {
    let mut i = 0;
    while i < m.len() {
        if let Some(r) = rep_at(m, i) {
            let mut many = vec![];
            loop {
                if p >= a.len() { break; }
                let mut q = p;
                if !many.is_empty() {
                    if let Some(c) = r.sep { if !punct(&a[q], c) { break; } q += 1; }
                }
                let mut nb = Binds::new();
                match matches(&r.inner, a, q, &mut nb) { Some(e) if e > q => { p = e; many.push(nb); } _ => break }
            }
            let mut names = vec![];
            let mut k = 0;
            while k + 1 < r.inner.len() { if punct(&r.inner[k], '$') { if let TokenTree::Ident(x) = &r.inner[k + 1] { names.push(x.to_string()); } } k += 1; }
            for n in names { b.insert(n, Bind::Many(many.clone())); }
            i = r.next;
            continue;
        }
        if punct(&m[i], '$') {
            if let (Some(TokenTree::Ident(n)), Some(c), Some(TokenTree::Ident(f))) = (m.get(i + 1), m.get(i + 2), m.get(i + 3)) {
                if punct(c, ':') {
                    if p >= a.len() { return None; }
                    let mut e = p + 1;
                    if f == "ty" || f == "expr" {
                        // up to a top-level `,` (outside `<..>`) or `=>`
                        let mut depth = 0i32;
                        e = p;
                        while e < a.len() {
                            if punct(&a[e], '<') { depth += 1; }
                            if punct(&a[e], '>') { depth -= 1; }
                            if depth <= 0 && (punct(&a[e], ',') || punct(&a[e], ';')) { break; }
                            if punct(&a[e], '=') && a.get(e + 1).map(|t| punct(t, '>')).unwrap_or(false) { break; }
                            e += 1;
                        }
                        if e == p { return None; }
                    } else if f == "ident" {
                        if !matches!(a[p], TokenTree::Ident(_)) { return None; }
                    } else if f != "tt" && f != "literal" { return None; }
                    b.insert(n.to_string(), Bind::One(text(&a[p..e])));
                    p = e;
                    i += 4;
                    continue;
                }
            }
            return None;
        }
        if p >= a.len() { return None; }
        match (&m[i], &a[p]) {
            (TokenTree::Ident(x), TokenTree::Ident(y)) if x == y => {}
            (TokenTree::Punct(x), TokenTree::Punct(y)) if x.as_char() == y.as_char() => {}
            (TokenTree::Literal(x), TokenTree::Literal(y)) if x.to_string() == y.to_string() => {}
            (TokenTree::Group(x), TokenTree::Group(y)) if x.delimiter() == y.delimiter() => {
                let (mm, aa): (Vec<_>, Vec<_>) = (x.stream().into_iter().collect(), y.stream().into_iter().collect());
                if matches(&mm, &aa, 0, b)? != aa.len() { return None; }
            }
            _ => return None,
        }
        p += 1;
        i += 1;
    }
    Some(p)
}

struct Tr<'a> { src: &'a str, off: &'a dyn Fn(proc_macro2::LineColumn) -> usize }
impl<'a> Tr<'a> {
    fn go(&self, t: &[TokenTree], mut last: usize, b: &Binds, out: &mut String) -> Option<usize> {
        let st = |x: &TokenTree| (self.off)(x.span().start());
        let en = |x: &TokenTree| (self.off)(x.span().end());
        let mut i = 0;
        while i < t.len() {
            out.push_str(&self.src[last..st(&t[i])]);
            if let Some(r) = rep_at(t, i) {
                let g = match &t[i + 1] { TokenTree::Group(g) => g, _ => return None };
                let mut used = vec![];
                vars(&r.inner, &mut used);
                let many = used.iter().find_map(|n| match b.get(n) { Some(Bind::Many(m)) => Some(m.clone()), _ => None })?;
                for (k, nb) in many.iter().enumerate() {
                    if k > 0 { if let Some(c) = r.sep { out.push(c); out.push(' '); } }
                    let mut all = b.clone();
                    for (x, y) in nb { all.insert(x.clone(), y.clone()); }
                    let e = self.go(&r.inner, (self.off)(g.span_open().end()), &all, out)?;
                    out.push_str(&self.src[e..(self.off)(g.span_close().start())]);
                }
                last = en(&t[r.next - 1]);
                i = r.next;
                continue;
            }
            if punct(&t[i], '$') {
                let n = match t.get(i + 1)? { TokenTree::Ident(n) => n.to_string(), _ => return None };
                match b.get(&n)? { Bind::One(x) => out.push_str(x), _ => return None }
                last = en(&t[i + 1]);
                i += 2;
                continue;
            }
            match &t[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let o = (self.off)(g.span_open().end());
                    out.push_str(&self.src[st(&t[i])..o]);
                    let e = self.go(&inner, o, b, out)?;
                    out.push_str(&self.src[e..en(&t[i])]);
                }
                x => out.push_str(&self.src[st(x)..en(x)]),
            }
            last = en(&t[i]);
            i += 1;
        }
        Some(last)
    }
}
fn vars(t: &[TokenTree], out: &mut Vec<String>) {
    for i in 0..t.len() {
        if punct(&t[i], '$') { if let Some(TokenTree::Ident(n)) = t.get(i + 1) { out.push(n.to_string()); } }
        if let TokenTree::Group(g) = &t[i] { vars(&g.stream().into_iter().collect::<Vec<_>>(), out); }
    }
}

/// The source with the named macros expanded, and what was done.
pub fn expand(src: &str, names: &[String], off: &dyn Fn(proc_macro2::LineColumn) -> usize) -> Result<(String, Vec<String>), String> {
    let file = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut edits: Vec<(usize, usize, String)> = vec![];
    let mut log = vec![];
    for n in names {
        let mut def: Option<(Vec<TokenTree>, Vec<TokenTree>, usize)> = None;
        let mut uses = 0;
        for it in &file.items {
            let m = match it { syn::Item::Macro(m) => m, _ => continue };
            if m.ident.as_ref().map(|i| i == n.as_str()).unwrap_or(false) {
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let gs: Vec<&proc_macro2::Group> = ts.iter().filter_map(|t| match t { TokenTree::Group(g) => Some(g), _ => None }).collect();
                if gs.len() != 2 { return Err(format!("macro {} does not have exactly one rule", n)); }
                def = Some((gs[0].stream().into_iter().collect(), gs[1].stream().into_iter().collect(), off(gs[1].span_open().end())));
                edits.push((off(it.span().start()), off(it.span().end()), String::new()));
            } else if m.ident.is_none() && m.mac.path.is_ident(n.as_str()) {
                let (pat, body, from) = def.clone().ok_or(format!("macro {} used before its definition", n))?;
                let args: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let mut b = Binds::new();
                if matches(&pat, &args, 0, &mut b) != Some(args.len()) { return Err(format!("cannot match the arguments of {}!", n)); }
                let mut out = String::new();
                let tr = Tr { src, off };
                tr.go(&body, from, &b, &mut out).ok_or(format!("cannot expand {}!", n))?;
                uses += 1;
                edits.push((off(it.span().start()), off(it.span().end()), out));
            }
        }
        if def.is_none() { return Err(format!("no macro {}", n)); }
        log.push(format!("macro_rules! {} expanded at its {} invocations", n, uses));
    }
    edits.sort();
    let mut out = String::new();
    let mut p = 0;
    for (s, e, t) in edits { out.push_str(&src[p..s]); out.push_str(&t); p = e; }
    out.push_str(&src[p..]);
    Ok((out, log))
}
