//! Inlining of functions that have no contract (typically: helpers extracted by a refactoring).
//!
//! A call `f(a, b)` of a function of this crate without a contract becomes
//! `{ let (x, y) = (a, b); BODY }`. That is the meaning of the call as long as BODY does not leave
//! the function early; when it does (`?`, `return`), the call is only inlined where leaving BODY
//! and leaving the caller coincide: `f(..)?` when BODY's exits are errors, and calls in tail
//! position. Anything else is left alone and reported as an unknown callee.
use quote::quote;
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, FnArg, Pat, Stmt};

use crate::source::{norm, Source, SrcFn};

pub struct Inliner<'a> {
    pub src: &'a Source,
    pub file: String,
    pub self_ty: Option<String>,
    pub known: &'a BTreeSet<String>,
    pub known_names: &'a BTreeSet<String>,
    pub inlined: Vec<String>,
    pub unknown: Vec<String>,
    pub depth: usize,
    tail: bool,
    trying: bool,
}

const STD_METHODS: &[&str] = &[
    "len", "iter", "get", "push", "clone", "into", "is_empty", "unwrap", "expect", "map", "next", "read", "seek", "lock",
    "entry", "insert", "id", "kind", "parse", "open", "count", "fmt", "eq", "cmp", "as_ref", "as_bytes", "from", "index",
    "name", "data", "source", "advance", "resize", "truncate", "reserve", "clear", "freeze", "min", "max", "starts_with",
    "new", "with_capacity", "path", "drop", "default", "pos", "write", "finish", "reader",
];

impl<'a> Inliner<'a> {
    pub fn new(src: &'a Source, f: &SrcFn, known: &'a BTreeSet<String>, known_names: &'a BTreeSet<String>) -> Self {
        Inliner {
            src,
            file: f.file.clone(),
            self_ty: f.self_ty.clone(),
            known,
            known_names,
            inlined: vec![],
            unknown: vec![],
            depth: 0,
            tail: false,
            trying: false,
        }
    }

    fn lookup(&self, key: &str) -> Option<&'a SrcFn> {
        if self.known.contains(&format!("{}|{}", self.file, key)) {
            return None;
        }
        if let Some(f) = self.src.files.get(&self.file).and_then(|f| f.fns.get(key)) {
            return Some(f);
        }
        let mut found = None;
        for (p, f) in &self.src.files {
            if let Some(x) = f.fns.get(key) {
                if self.known.contains(&format!("{}|{}", p, key)) {
                    return None;
                }
                if found.is_some() {
                    return None;
                }
                found = Some(x);
            }
        }
        found
    }

    fn lookup_method(&self, name: &str) -> Option<&'a SrcFn> {
        if self.known_names.contains(name) || STD_METHODS.contains(&name) {
            return None;
        }
        let suffix = format!("::{}", name);
        let mut found = None;
        for f in self.src.files.values() {
            for (k, x) in &f.fns {
                if k.ends_with(&suffix) && !k.starts_with('<') {
                    if found.is_some() {
                        return None;
                    }
                    found = Some(x);
                }
            }
        }
        found
    }

    fn try_inline(&mut self, f: &'a SrcFn, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth >= 5 {
            return None;
        }
        let exits = block_exits(&f.block);
        if exits.0 && !(self.tail || self.trying) {
            return None;
        }
        // `return Ok(..)` only in tail position
        if exits.1 && !self.tail {
            return None;
        }
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut types: Vec<Option<syn::Type>> = vec![];
        let mut block = f.block.clone();
        let mut ai = args.into_iter();
        let generics: BTreeSet<String> = f.sig.generics.params.iter().filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            _ => None,
        }).collect();
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => {
                    let r = match &recv {
                        Some(r) => r.clone(),
                        None => ai.next()?,
                    };
                    if norm(&r) != "self" {
                        let simple = matches!(r, Expr::Path(_)) || matches!(&r, Expr::Field(_));
                        if !simple {
                            return None;
                        }
                        struct S(Expr);
                        impl VisitMut for S {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Path(p) = e {
                                    if p.path.is_ident("self") {
                                        *e = self.0.clone();
                                        return;
                                    }
                                }
                                visit_mut::visit_expr_mut(self, e);
                            }
                        }
                        S(r).visit_block_mut(&mut block);
                    }
                }
                FnArg::Typed(t) => {
                    pats.push((*t.pat).clone());
                    vals.push(ai.next()?);
                    let tn = norm(&t.ty);
                    let plain = !tn.contains("impl") && !tn.contains('\'') && !generics.iter().any(|g| tn.contains(g.as_str())) && !tn.contains("Self");
                    types.push(if plain { Some((*t.ty).clone()) } else { None });
                }
            }
        }
        // `Self` inside the helper means the helper's own type
        if let Some(t) = &f.self_ty {
            if self.self_ty.as_deref() != Some(t.as_str()) {
                struct S(String);
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut syn::Path) {
                        if p.segments.len() > 1 && p.segments[0].ident == "Self" {
                            p.segments[0].ident = quote::format_ident!("{}", self.0);
                        }
                        visit_mut::visit_path_mut(self, p);
                    }
                }
                S(t.clone()).visit_block_mut(&mut block);
            }
        }
        let stmts = &block.stmts;
        let mut pre: Vec<Stmt> = vec![];
        if pats.len() == 1 {
            let (p, v) = (&pats[0], &vals[0]);
            pre.push(match &types[0] {
                Some(t) => parse_quote!(let #p: #t = #v;),
                None => parse_quote!(let #p = #v;),
            });
        } else if pats.len() > 1 {
            // evaluate every argument before any parameter name is in scope
            for (i, v) in vals.iter().enumerate() {
                let id = quote::format_ident!("__a{}_{}", self.depth, i);
                pre.push(match &types[i] {
                    Some(t) => parse_quote!(let #id: #t = #v;),
                    None => parse_quote!(let #id = #v;),
                });
            }
            for (i, p) in pats.iter().enumerate() {
                let id = quote::format_ident!("__a{}_{}", self.depth, i);
                pre.push(parse_quote!(let #p = #id;));
            }
        }
        self.inlined.push(format!("{}|{}", f.file, f.key));
        // the type of the value, where what is around the call does not tell
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => {
                let tn = norm(t);
                let plain = !tn.contains("impl") && !tn.contains('\'') && !tn.contains("Self") && !generics.iter().any(|g| tn.contains(g.as_str()));
                if plain && self.trying { Some((**t).clone()) } else { None }
            }
            _ => None,
        };
        let mut out: Block = match (ret, stmts.split_last()) {
            (Some(t), Some((Stmt::Expr(e, None), rest))) => parse_quote!({ #(#pre)* #(#rest)* let __r: #t = #e; __r }),
            _ => parse_quote!({ #(#pre)* #(#stmts)* }),
        };
        let (file, ty) = (std::mem::replace(&mut self.file, f.file.clone()), std::mem::replace(&mut self.self_ty, f.self_ty.clone()));
        let (tail, trying) = (self.tail, self.trying);
        self.depth += 1;
        self.do_block(&mut out, tail);
        self.depth -= 1;
        self.tail = tail;
        self.trying = trying;
        self.file = file;
        self.self_ty = ty;
        Some(Expr::Block(parse_quote!(#out)))
    }

    /// Returns the inlined expression if `e` is a call that can be inlined here.
    fn call(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => p.path.clone(),
                    _ => return None,
                };
                let n = p.segments.len();
                let last = p.segments.last()?.ident.to_string();
                let key = if n >= 2 {
                    let t = p.segments[n - 2].ident.to_string();
                    let t = if t == "Self" { self.self_ty.clone()? } else { t };
                    if t.chars().next()?.is_uppercase() {
                        format!("{}::{}", t, last)
                    } else {
                        last.clone()
                    }
                } else {
                    last.clone()
                };
                let f = self.lookup(&key)?;
                let r = self.try_inline(f, None, c.args.iter().cloned().collect());
                if r.is_none() {
                    self.unknown.push(key);
                }
                r
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let f = self.lookup_method(&name)?;
                let r = self.try_inline(f, Some((*m.receiver).clone()), m.args.iter().cloned().collect());
                if r.is_none() {
                    self.unknown.push(f.key.clone());
                }
                r
            }
            _ => None,
        }
    }

    pub fn do_block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let is_tail = tail && i + 1 == n;
            match s {
                Stmt::Expr(e, None) => self.do_expr(e, is_tail),
                Stmt::Expr(e, Some(_)) => self.do_expr(e, false),
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        self.do_expr(&mut init.expr, false);
                        if let Some((_, d)) = &mut init.diverge {
                            self.do_expr(d, false);
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn do_expr(&mut self, e: &mut Expr, tail: bool) {
        match e {
            Expr::Try(t) => {
                // arguments first
                self.children(&mut t.expr);
                let (ot, oy) = (self.tail, self.trying);
                self.tail = false;
                self.trying = true;
                if let Some(n) = self.call(&t.expr) {
                    *t.expr = n;
                }
                self.tail = ot;
                self.trying = oy;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.do_expr(x, true);
                }
            }
            Expr::If(i) => {
                self.do_expr(&mut i.cond, false);
                self.do_block(&mut i.then_branch, tail);
                if let Some((_, b)) = &mut i.else_branch {
                    self.do_expr(b, tail);
                }
            }
            Expr::Match(m) => {
                self.do_expr(&mut m.expr, false);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.do_expr(g, false);
                    }
                    self.do_expr(&mut a.body, tail);
                }
            }
            Expr::Block(b) => self.do_block(&mut b.block, tail),
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.children(e);
                let (ot, oy) = (self.tail, self.trying);
                self.tail = tail;
                self.trying = false;
                if let Some(n) = self.call(e) {
                    *e = n;
                }
                self.tail = ot;
                self.trying = oy;
            }
            Expr::Closure(_) => {
                // exits inside a closure leave the closure: only exit-free helpers are inlined
                self.children(e);
            }
            e => self.children(e),
        }
    }

    fn children(&mut self, e: &mut Expr) {
        struct V<'b, 'a>(&'b mut Inliner<'a>);
        impl<'b, 'a> VisitMut for V<'b, 'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                self.0.do_expr(e, false);
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.0.do_block(b, false);
            }
        }
        visit_mut::visit_expr_mut(&mut V(self), e);
    }
}

/// (leaves early at all, leaves early other than by `?` or `return Err(..)`)
fn block_exits(b: &Block) -> (bool, bool) {
    use syn::visit::Visit;
    struct V(bool, bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) => self.0 = true,
                Expr::Return(r) => {
                    self.0 = true;
                    let err = match &r.expr {
                        Some(x) => norm(x).starts_with("Err("),
                        None => false,
                    };
                    if !err {
                        self.1 = true;
                    }
                }
                Expr::Closure(_) => return,
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
    }
    let mut v = V(false, false);
    v.visit_block(b);
    let _ = quote!();
    (v.0, v.1)
}
