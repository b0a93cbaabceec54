//! R24: a regular expression becomes the program of the matcher in the contracts. The pattern is parsed by
//! the library that the repository's `regex` uses itself; what has no counterpart there is left alone.
use crate::source::norm;
use quote::{quote, ToTokens};
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Lit, Stmt};

/// The value of an expression made of string literals, constants and `format!`.
fn fold(e: &Expr, consts: &BTreeMap<String, String>) -> Option<String> {
    match e {
        Expr::Lit(l) => match &l.lit { Lit::Str(s) => Some(s.value()), _ => None },
        Expr::Reference(r) => fold(&r.expr, consts),
        Expr::Paren(p) => fold(&p.expr, consts),
        Expr::Group(p) => fold(&p.expr, consts),
        Expr::Path(p) => consts.get(&p.path.segments.last()?.ident.to_string()).cloned(),
        Expr::MethodCall(m) if m.args.is_empty() && ["as_str", "as_ref", "to_string", "to_owned", "into"].contains(&m.method.to_string().as_str()) => fold(&m.receiver, consts),
        Expr::Macro(m) if m.mac.path.is_ident("concat") => {
            let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
            a.iter().map(|x| fold(x, consts)).collect::<Option<Vec<_>>>().map(|v| v.concat())
        }
        Expr::Macro(m) if m.mac.path.is_ident("format") => {
            let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
            let lit = match a.first()? { Expr::Lit(l) => match &l.lit { Lit::Str(s) => s.value(), _ => return None }, _ => return None };
            let (mut named, mut plain) = (consts.clone(), vec![]);
            for x in a.iter().skip(1) {
                match x {
                    Expr::Assign(s) => { named.insert(norm(&s.left), fold(&s.right, consts)?); }
                    x => plain.push(fold(x, consts)?),
                }
            }
            let (mut out, mut k, mut cs) = (String::new(), 0, lit.chars().peekable());
            while let Some(c) = cs.next() {
                match c {
                    '{' if cs.peek() == Some(&'{') => { cs.next(); out.push('{'); }
                    '}' if cs.peek() == Some(&'}') => { cs.next(); out.push('}'); }
                    '{' => {
                        let mut n = String::new();
                        loop { match cs.next()? { '}' => break, c => n.push(c) } }
                        if n.is_empty() { out.push_str(plain.get(k)?); k += 1; }
                        else if let Ok(i) = n.parse::<usize>() { out.push_str(plain.get(i)?); }
                        else { out.push_str(named.get(&n)?); }
                    }
                    c => out.push(c),
                }
            }
            Some(out)
        }
        _ => None,
    }
}

fn class(h: &Hir) -> Option<Vec<(u8, u8)>> {
    match h.kind() {
        HirKind::Literal(l) if l.0.len() == 1 => Some(vec![(l.0[0], l.0[0])]),
        HirKind::Class(Class::Bytes(c)) => Some(c.ranges().iter().map(|r| (r.start(), r.end())).collect()),
        HirKind::Class(Class::Unicode(c)) if c.is_ascii() => Some(c.ranges().iter().map(|r| (r.start() as u8, r.end() as u8)).collect()),
        HirKind::Capture(_) => None,
        _ => None,
    }
}

fn seq(ty: &str, v: impl Iterator<Item = String>) -> String {
    v.fold(format!("Seq::<{}>::empty()", ty), |s, x| format!("{}.push({})", s, x))
}

fn item(kind: &str, c: &[(u8, u8)]) -> String {
    format!("crate::shim::regex::Item::{}({})", kind, seq("(u8, u8)", c.iter().map(|(a, b)| format!("({:#04x}u8, {:#04x}u8)", a, b))))
}

fn program(h: &Hir, out: &mut Vec<String>) -> Option<()> {
    match h.kind() {
        HirKind::Empty => Some(()),
        HirKind::Literal(l) => {
            out.extend(l.0.iter().map(|b| item("One", &[(*b, *b)])));
            Some(())
        }
        HirKind::Class(_) => Some(out.push(item("One", &class(h)?))),
        HirKind::Look(Look::Start) => Some(out.push("crate::shim::regex::Item::Begin".into())),
        HirKind::Look(Look::End) => Some(out.push("crate::shim::regex::Item::End".into())),
        HirKind::Capture(c) => {
            out.push(format!("crate::shim::regex::Item::Open({})", c.index));
            program(&c.sub, out)?;
            Some(out.push(format!("crate::shim::regex::Item::Close({})", c.index)))
        }
        HirKind::Concat(v) => v.iter().map(|x| program(x, out)).collect(),
        HirKind::Repetition(r) => {
            let c = class(&r.sub);
            if c.is_none() && !(r.min == 0 && r.max == Some(1)) || r.min > 8 || r.max.map_or(false, |m| m > 16) {
                return None;
            }
            for _ in 0..r.min {
                program(&r.sub, out)?;
            }
            match r.max {
                None => out.push(item(if r.greedy { "Star" } else { "Lazy" }, &c?)),
                Some(m) => {
                    // `x{0,2}` is `(?:x(?:x)?)?`
                    let mut body = vec![];
                    program(&r.sub, &mut body)?;
                    for i in r.min..m {
                        let n = (m - i) as usize * (body.len() + 1) - 1;
                        out.push(format!("crate::shim::regex::Item::{}({})", if r.greedy { "Opt" } else { "OptLazy" }, n));
                        out.extend(body.iter().cloned());
                    }
                }
            }
            Some(())
        }
        _ => None,
    }
}

fn compile(pattern: &str) -> Option<String> {
    let h = regex_syntax::ParserBuilder::new().utf8(false).build().parse(pattern).ok()?;
    let mut v = vec!["crate::shim::regex::Item::Open(0)".to_string()];
    program(&h, &mut v)?;
    v.push("crate::shim::regex::Item::Close(0)".into());
    Some(seq("crate::shim::regex::Item", v.into_iter()))
}

/// the strings known, and whether a pattern has been found
struct Pass(BTreeMap<String, String>, bool);

impl VisitMut for Pass {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let f = norm(&c.func);
            if (f == "Regex::new" || f.ends_with("::Regex::new")) && c.args.len() == 1 {
                if let Some(p) = fold(&c.args[0], &self.0).and_then(|s| compile(&s)) {
                    let t: proc_macro2::TokenStream = p.parse().unwrap();
                    self.1 = true;
                    *e = Expr::Verbatim(quote!(crate::shim::regex::Regex::of(Ghost(#t))));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let known = self.0.clone();
        let mut lets = vec![];
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    match fold(&i.expr, &self.0) {
                        Some(t) if p.mutability.is_none() => {
                            self.0.insert(p.ident.to_string(), t);
                            lets.push(p.ident.to_string());
                        }
                        _ => { self.0.remove(&p.ident.to_string()); }
                    }
                }
            }
            self.visit_stmt_mut(s);
        }
        self.0 = known;
        // what only went into patterns is not needed any more
        for n in lets.iter().rev() {
            if self.1 && idents(b.to_token_stream()).iter().filter(|x| *x == n).count() == 1 {
                b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(p) if p.ident == n.as_str())));
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Item(syn::Item::Static(i)) = s {
            if let Some(b) = lazy(&i.expr) {
                let n = &i.ident;
                *s = parse_quote!(let #n = crate::shim::regex::once(#b););
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// the body of `Lazy::new(|| body)`, for one that makes a regular expression
pub fn lazy(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if norm(&c.func).ends_with("Lazy::new") && c.args.len() == 1 {
            if let Expr::Closure(k) = &c.args[0] {
                let t = norm(&k.body);
                if k.inputs.is_empty() && t.contains("Regex") && !t.contains("return") {
                    return Some((*k.body).clone());
                }
            }
        }
    }
    None
}

fn text(ty: &syn::Type, e: &Expr, known: &BTreeMap<String, String>) -> Option<String> {
    if norm(ty).ends_with("str") { fold(e, known) } else { None }
}

pub fn patterns(b: &mut Block, file: &crate::source::SrcFile) {
    let mut known = BTreeMap::new();
    for _ in 0..3 {
        for (k, (t, e)) in &file.consts {
            if let Some(s) = text(t, e, &known) {
                known.insert(k.rsplit("::").next().unwrap().to_string(), s);
            }
        }
        for s in &b.stmts {
            if let Stmt::Item(syn::Item::Const(c)) = s {
                if let Some(s) = text(&c.ty, &c.expr, &known) {
                    known.insert(c.ident.to_string(), s);
                }
            }
        }
    }
    // what a `static` of the file holds is made here
    let names: Vec<String> = idents(b.to_token_stream());
    for (k, i) in &file.statics {
        if names.contains(k) && lazy(&i.expr).is_some() {
            b.stmts.insert(0, Stmt::Item(syn::Item::Static(i.clone())));
        }
    }
    Pass(known, false).visit_block_mut(b);
    let used = |b: &Block, n: &str| idents(b.to_token_stream()).iter().filter(|x| *x == n).count() > 1;
    let all = b.clone();
    b.stmts.retain(|s| match s { Stmt::Item(syn::Item::Const(c)) if norm(&c.ty).ends_with("str") => used(&all, &c.ident.to_string()), _ => true });
}

fn idents(t: proc_macro2::TokenStream) -> Vec<String> {
    t.into_iter().flat_map(|t| match t {
        proc_macro2::TokenTree::Ident(i) => vec![i.to_string()],
        proc_macro2::TokenTree::Group(g) => idents(g.stream()),
        _ => vec![],
    }).collect()
}
