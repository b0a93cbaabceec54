//! The rewrites applied to a function body. Every rewrite replaces an expression by one with the
//! same meaning, because Verus does not accept the original form:
//!
//!  R1  `e[i]`                      -> `(*e.idx(i))`, `&e[i]` -> `e.idx(i)`, `&mut e[i]` -> `e.idx_mut(i)`
//!  R2  `e?`                        -> `match e { Ok(v) => v, Err(e) => return Err(VFrom::vfrom(e)) }`
//!      (in a function that returns an `Option`, with `Some` and `None`)
//!  R3  `x.into()`, `T::from(x)`    -> `VFrom::vfrom(x)` (generated from the crate's From impls)
//!  R4  `.map_err/.ok_or/.ok_or_else/.or/.map/.and_then/.unwrap_or_else/.filter/.then/.then_with/..` with a closure or
//!      constructor argument        -> the `match` they are defined as
//!  R5  byte string literals        -> array literals; byte-string and `&[]` patterns -> guards
//!  R6  `for p in e {..}`           -> `loop { match it.next() { Some(p) => .., None => break } }`
//!      (integer ranges are left alone)
//!  R7  assert!/debug_assert!/assert_eq!/panic!/unreachable! -> calls that require the condition
//!  R8  `cfg!` -> its value on Linux, `matches!` -> `match`, `format!` -> shim call, `size_of::<T>()` -> its value
//!  R9  `s.iter().position(f)`, `.rposition(f)`, `.iter().take_while(f)`, `.iter().any/all(f)` -> one shim call each
//!      (`.position(|b| *b == C)`, `.any` of it and `.contains(&C)`, for a byte literal C, are what memchr does)
//!  R10 paths of std functions without a Verus specification -> shim functions of the same meaning
//!  R14 `.iter().map(closure)`, `.iter().cloned().map(closure)` -> a shim call that collects; what `.collect()`
//!      makes of that is again a shim call
//!  R15 `.get(i)` -> a shim call of the same meaning
//!  R12 `mut self` by value        -> `self` and a mutable local
//!  R13 unwrap/expect              -> a call that requires the value to be there
//!  R16 a statement S named by the contract -> `loop CONTRACT { S break; }`, which runs S once and
//!      makes the verifier check S on its own
//!  R17 `let mut g = m.lock().unwrap();` -> `let mut g = m.lock_now();`, which gives a value that
//!      satisfies the invariant of what `m` protects, and before every exit of the block that holds
//!      the guard, a call which requires that it does so again
//!  R18 `let mut m = Mutex::new(e);` -> `Owned::new(e)`, a mutex which nothing else has yet: what
//!      `m.get_mut().unwrap()` gives is then what was last left in it. Any other use of `m` ends
//!      this: `m.share()` makes it an ordinary mutex
//!  R19 `.clone()` -> `.vclone()`, with the meaning of `Clone` for the types of the crate that derive it
//!      and for the types of libraries
//!  R20 in a function whose contract says `world`: a parameter `world` more, a clock of the events in
//!      files and shared maps, which calls that observe or cause such events get as an argument more
//!      (the names of library functions are then those of shim functions ending in `_w`)
//!  R21 `==` of names of files, `<` of durations -> calls of the same meaning; `"..".as_ref()` -> the literal
//!      and its bytes; `.or_try_insert_with(closure)` -> the `match` it is defined as
//!  R22 `match e { A, P if g => b, C }` where `g` is told the clock (R20)
//!      -> `{ let m = e; match m { A, P => if g { b } else { match m { C } }, C } }`
//!  R23 `static X: T = e;` in a function -> `let X = shared();`, any value of its type; `.split_at(n)`, `.contains(x)`,
//!      `.to_owned()`, `.to_vec()`, `.strip_prefix(x)`, `.find(x)`, `.trim()` and the like -> a shim call
//!  R24 `Regex::new(text)` -> the program which the text stands for (pattern.rs); `static X: Lazy<T> = Lazy::new(|| e);`
//!      of a regular expression -> `let X = once(e);`
//!  R11 attributes and `use` statements are dropped
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Lit, Pat, Stmt};

use crate::contract::FnContract;
use crate::source::norm;

pub struct Ctx<'a> {
    pub contract: &'a FnContract,
    pub repo_types: &'a std::collections::BTreeSet<String>,
    pub sizes: &'a BTreeMap<String, usize>,
    pub lost: Vec<String>,
    pub used: std::collections::BTreeSet<String>,
    pub n: usize,
    /// R17: the locks held at this point: the mutex, and the local that holds the guard
    pub locks: Vec<(Expr, Ident)>,
    /// R2: the function returns an `Option`
    pub option: bool,
    /// R3: the parameters of a type that is only known to be `Into<T>`, and that `T`
    pub intos: BTreeMap<String, syn::Type>,
}

/// As `parse_quote!`, for tokens which may hold Verus syntax.
macro_rules! pq {
    ($($t:tt)*) => {{
        let t = quote!($($t)*);
        syn::parse2::<Expr>(t.clone()).unwrap_or_else(|_| verb(t))
    }};
}

/// `x.iter()` and `x.iter().cloned()`: the receiver, and whether the items are cloned.
fn iter_chain(e: &Expr) -> Option<(Expr, bool)> {
    if let Expr::MethodCall(m) = e {
        if !m.args.is_empty() {
            return None;
        }
        if m.method == "iter" {
            return Some(((*m.receiver).clone(), false));
        }
        if m.method == "cloned" || m.method == "copied" {
            return iter_chain(&m.receiver).filter(|r| !r.1).map(|r| (r.0, true));
        }
    }
    None
}

/// As `is_call`, also for what is no longer an expression of Rust.
fn ends_in_call(e: &Expr, names: &[&str]) -> bool {
    let t: Vec<_> = e.to_token_stream().into_iter().collect();
    is_call(e, names) || t.len() > 2 && matches!((&t[t.len() - 2], &t[t.len() - 1]), (proc_macro2::TokenTree::Ident(i), proc_macro2::TokenTree::Group(_)) if names.iter().any(|n| i == n))
}

/// R18
pub fn own_mutexes(b: &mut Block) {
    struct Find(Vec<Ident>);
    impl VisitMut for Find {
        fn visit_local_mut(&mut self, l: &mut syn::Local) {
            if let (Pat::Ident(p), Some(init)) = (&l.pat, &mut l.init) {
                if let Expr::Call(c) = &mut *init.expr {
                    if let Expr::Path(f) = &*c.func {
                        let s: Vec<String> = f.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if s.ends_with(&["Mutex".to_string(), "new".to_string()]) && p.by_ref.is_none() {
                            *c.func = parse_quote!(crate::shim::lock::Owned::new);
                            self.0.push(p.ident.clone());
                        }
                    }
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    struct Use(Vec<Ident>);
    impl VisitMut for Use {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::MethodCall(m) if m.method == "get_mut" && matches!(&*m.receiver, Expr::Path(p) if self.0.iter().any(|n| p.path.is_ident(n))) => return,
                Expr::Path(p) if self.0.iter().any(|n| p.path.is_ident(n)) => {
                    let p = p.clone();
                    *e = parse_quote!(#p.share());
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
            visit_mut::visit_field_value_mut(self, f);
            if !matches!(&f.expr, Expr::Path(_)) {
                f.colon_token.get_or_insert_with(Default::default);
            }
        }
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    let mut f = Find(vec![]);
    f.visit_block_mut(b);
    if !f.0.is_empty() {
        Use(f.0).visit_block_mut(b);
    }
}

fn is_call(e: &Expr, names: &[&str]) -> bool {
    match e {
        Expr::MethodCall(m) => names.iter().any(|n| m.method == n),
        Expr::Paren(p) => is_call(&p.expr, names),
        _ => false,
    }
}

/// R20
pub struct World<'a>(pub &'a BTreeMap<String, bool>, pub &'a str);
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                if let Some(&lib) = self.0.get(&format!(".{}", m.method)).or_else(|| self.0.get(&format!("{} .{}", self.1, m.method))).or_else(|| self.0.get(&format!("{}/{}", m.method, m.args.len()))) {
                    if lib {
                        m.method = format_ident!("{}_w", m.method);
                    }
                    m.args.push(parse_quote!(world));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let names: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = names.len();
                    let full = if n >= 2 { format!("{}::{}", names[n - 2], names[n - 1]) } else { names[0].clone() };
                    let last = &names[n - 1];
                    // a path of another type is another function
                    let typed = n >= 2 && names[n - 2] != "Self" && names[n - 2].starts_with(|c: char| c.is_uppercase());
                    let own = if typed { format!("{}/{}", full, c.args.len()) } else { format!("{}/{}", last, c.args.len()) };
                    if let Some(&lib) = self.0.get(&full).or_else(|| self.0.get(&own)) {
                        if lib {
                            let l = p.path.segments.last_mut().unwrap();
                            l.ident = format_ident!("{}_w", l.ident);
                        }
                        c.args.push(parse_quote!(world));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------- numbering pass ----------
#[derive(Default)]
pub struct Numbering {
    pub loops: Vec<String>,
    pub closures: usize,
    /// whether the functions of the crate, by name, return a `Result`
    pub kinds: BTreeMap<String, Option<bool>>,
    pub rets: usize,
    pub maps: Vec<bool>,
}

pub fn mark(name: &str, n: usize) -> syn::Attribute {
    let id = Ident::new(name, Span::call_site());
    let l = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(#[#id(#l)])
}

/// Takes out the marks of closures: nothing is known of a closure without a contract.
pub fn bare_closures(ts: TokenStream, found: &mut Vec<String>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Group(g) = &t {
            let mut it = g.stream().into_iter();
            if let (Some(TokenTree::Ident(i)), Some(TokenTree::Group(n))) = (it.next(), it.next()) {
                if i == "vclosure" {
                    found.push(n.stream().to_string());
                    out.pop();
                    continue;
                }
            }
            let mut h = Group::new(g.delimiter(), bare_closures(g.stream(), found));
            h.set_span(g.span());
            out.push(TokenTree::Group(h));
        } else {
            out.push(t);
        }
    }
    out.into_iter().collect()
}

pub fn get_mark(attrs: &[syn::Attribute], name: &str) -> Option<usize> {
    for a in attrs {
        if a.path().is_ident(name) {
            if let syn::Meta::List(l) = &a.meta {
                return l.tokens.to_string().parse().ok();
            }
        }
    }
    None
}

impl VisitMut for Numbering {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                w.attrs = vec![mark("vloop", self.loops.len())];
                self.loops.push("while".into());
            }
            Expr::Loop(w) => {
                w.attrs = vec![mark("vloop", self.loops.len())];
                self.loops.push("loop".into());
            }
            Expr::ForLoop(w) => {
                w.attrs = vec![mark("vloop", self.loops.len())];
                self.loops.push("for".into());
            }
            Expr::Closure(c) => {
                c.attrs = vec![mark("vclosure", self.closures)];
                self.closures += 1;
            }
            Expr::Return(r) => {
                r.attrs = vec![mark("vret", self.rets)];
                self.rets += 1;
            }
            Expr::MethodCall(m) => {
                // `.map(f).map_err(g)`: the map is Result::map
                if m.method == "map_err" {
                    if let Expr::MethodCall(r) = &mut *m.receiver {
                        if r.method == "map" || r.method == "and_then" {
                            r.attrs = vec![mark("vresult", 1)];
                        }
                    }
                }
                if ["map", "and_then", "or", "or_else", "unwrap_or", "unwrap_or_else", "map_or", "map_or_else"].iter().any(|n| m.method == n) {
                    match is_result(&m.receiver, &self.kinds) {
                        Some(true) => m.attrs = vec![mark("vresult", 1)],
                        Some(false) if m.method == "or" => m.attrs = vec![mark("voption", 1)],
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        let (p, t) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            p => (p, None),
        };
        if let Pat::Ident(i) = p {
            let k = match (t, &l.init) {
                (Some(t), _) => kind_of_type(t),
                (None, Some(init)) => is_result(&init.expr, &self.kinds),
                _ => None,
            };
            self.kinds.insert(format!("let {}", i.ident), k);
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// Whether an expression is a `Result` (and not an `Option`), as far as its form tells.
/// `kinds`: what the functions of the crate return, by name.
pub fn kind_of_type(t: &syn::Type) -> Option<bool> {
    match t {
        syn::Type::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
            Some("Result") => Some(true),
            Some("Option") => Some(false),
            _ => None,
        },
        _ => None,
    }
}

fn is_result(e: &Expr, kinds: &BTreeMap<String, Option<bool>>) -> Option<bool> {
    match e {
        Expr::Paren(p) => is_result(&p.expr, kinds),
        Expr::Path(p) if p.path.get_ident().is_some() => match p.path.get_ident().unwrap().to_string().as_str() {
            "None" => Some(false),
            i => kinds.get(&format!("let {}", i)).cloned().flatten(),
        },
        Expr::If(i) => match (i.then_branch.stmts.last(), &i.else_branch) {
            (Some(Stmt::Expr(t, None)), e) => is_result(t, kinds).or_else(|| e.as_ref().and_then(|e| is_result(&e.1, kinds))),
            _ => None,
        },
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(t, None)) => is_result(t, kinds),
            _ => None,
        },
        Expr::Match(m) => m.arms.iter().find_map(|a| is_result(&a.body, kinds)),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "map" | "and_then" | "or" | "or_else" => is_result(&m.receiver, kinds),
            "ok" | "err" | "get" | "get_mut" | "first" | "last" | "next" | "pop" | "filter" | "file_name" | "extension" | "position" | "find"
            | "strip_prefix" | "peek" | "file_stem" | "parent" => Some(false),
            n if n.starts_with("checked_") => Some(false),
            "map_err" | "ok_or" | "ok_or_else" | "finish" | "write_all" | "read_to_end" | "read_exact" | "flush" | "seek" | "metadata"
            | "file_type" | "try_into" => Some(true),
            n => kinds.get(n).cloned().flatten(),
        },
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() > 1 && (s[0] == "fs" || s[0] == "fs_err") {
                    return Some(true);
                }
                match s.last().unwrap().as_str() {
                    "Ok" | "Err" | "try_from" | "from_utf8" | "set_file_mtime" => Some(true),
                    "Some" => Some(false),
                    n => kinds.get(n).cloned().flatten(),
                }
            }
            _ => None,
        },
        _ => None,
    }
}

fn has_ident(t: TokenStream, name: &str) -> bool {
    t.into_iter().any(|x| match x {
        proc_macro2::TokenTree::Ident(i) => i == name,
        proc_macro2::TokenTree::Group(g) => has_ident(g.stream(), name),
        _ => false,
    })
}

/// Does a closure body contain `?` or `return` (outside nested closures)?
pub fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn is_pure_ctor(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Call(c) => matches!(&*c.func, Expr::Path(_)) && c.args.iter().all(is_pure_ctor),
        Expr::Reference(r) => is_pure_ctor(&r.expr),
        Expr::Paren(p) => is_pure_ctor(&p.expr),
        _ => false,
    }
}

pub fn tokens(s: &str) -> TokenStream {
    s.parse::<TokenStream>().unwrap_or_else(|e| panic!("contract text does not lex: {}\n{}", e, s))
}

fn verb(ts: TokenStream) -> Expr {
    Expr::Verbatim(ts)
}

pub fn stmt_verb(ts: TokenStream) -> Stmt {
    Stmt::Expr(Expr::Verbatim(ts), None)
}

fn bytes_array(b: &[u8]) -> TokenStream {
    let xs = b.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x));
    quote!([#(#xs),*])
}

impl<'a> Ctx<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("{}_{}", p, self.n)
    }

    /// The function argument `f` applied to the identifier `v`, as (pattern to bind, body)
    fn apply(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if has_exit(&c.body) || c.inputs.len() > 1 {
                    return None;
                }
                let p = match c.inputs.first() {
                    Some(Pat::Type(t)) => (*t.pat).clone(),
                    Some(p) => p.clone(),
                    None => parse_quote!(_),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(_) => {
                let v = self.fresh("__v");
                let mut call: Expr = pq!(#f(#v));
                self.rewrite_call(&mut call);
                Some((parse_quote!(#v), call))
            }
            _ => None,
        }
    }

    /// R22
    fn guarded_match(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        let i = m.arms.iter().position(|a| a.guard.as_ref().map_or(false, |(_, g)| has_ident(g.to_token_stream(), "world")))?;
        let place = matches!(&*m.expr, Expr::Path(_) | Expr::Field(_)) || matches!(&*m.expr, Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_) | Expr::Field(_)));
        let x = if place { m.expr.to_token_stream() } else { self.fresh("__m").to_token_stream() };
        let (before, a, after) = (&m.arms[..i], &m.arms[i], &m.arms[i + 1..]);
        let arms = |l: &[syn::Arm]| l.iter().map(|a| { let (p, g, b) = (&a.pat, a.guard.as_ref().map(|(_, g)| quote!(if #g)), &a.body); quote!(#p #g => { #b }) }).collect::<TokenStream>();
        let rest = syn::parse2::<Expr>(quote!(match #x { #(#after)* })).ok();
        let rest = match rest {
            Some(Expr::Match(r)) => match self.guarded_match(&r) { Some(e) => e.to_token_stream(), None => { let t = arms(after); quote!(match #x { #t }) } },
            _ => { let t = arms(after); quote!(match #x { #t }) }
        };
        let (b, t, p, g, body) = (arms(before), arms(after), &a.pat, a.guard.as_ref().map(|(_, g)| g).unwrap(), &a.body);
        let r = quote!(match #x { #b #p => { if #g { #body } else { #rest } } #t });
        let e = &m.expr;
        Some(if place { verb(r) } else { verb(quote!({ let #x = #e; #r })) })
    }

    fn rewrite_call(&mut self, e: &mut Expr) {
        let c = match e {
            Expr::Call(c) => c,
            _ => return,
        };
        let p = match &*c.func {
            Expr::Path(p) => p.clone(),
            _ => return,
        };
        let s = norm(&p);
        let args = c.args.clone();
        if p.path.segments.len() >= 2 {
            let last = p.path.segments.last().unwrap().ident.to_string();
            let ty = p.path.segments[p.path.segments.len() - 2].ident.to_string();
            if last == "from" && p.qself.is_none() && (self.repo_types.contains(&ty) || ["PathBuf", "Bytes", "Vec", "String", "Arc", "usize", "u64", "u32", "u16", "i64", "u128"].contains(&ty.as_str())) {
                let mut tp = p.path.clone();
                tp.segments.pop();
                let tp = tp.segments.into_iter().collect::<Vec<_>>();
                *e = if ["Arc", "Vec"].contains(&ty.as_str()) {
                    pq!(crate::shim::VFrom::vfrom(#args))
                } else {
                    pq!(<#(#tp)::* as crate::shim::VFrom<_>>::vfrom(#args))
                };
                return;
            }
            if last == "try_from" && p.qself.is_none() {
                let mut tp = p.path.clone();
                tp.segments.pop();
                let tp = tp.segments.into_iter().collect::<Vec<_>>();
                *e = pq!(<#(#tp)::* as crate::shim::VTryFrom<_>>::vtry_from(#args));
                return;
            }
        }
        let m: Option<TokenStream> = match s.as_str() {
            "usize::min" | "std::cmp::min" | "cmp::min" | "min" | "core::cmp::min" => Some(quote!(crate::shim::min_usize)),
            "usize::max" | "std::cmp::max" | "cmp::max" => Some(quote!(crate::shim::max_usize)),
            "u16::from_str_radix" => Some(quote!(crate::shim::u16_from_str_radix)),
            "u32::from_str_radix" => Some(quote!(crate::shim::u32_from_str_radix)),
            "usize::from_str" | "<usizeasFromStr>::from_str" => Some(quote!(crate::shim::usize_from_str)),
            "drop" | "mem::drop" | "std::mem::drop" => Some(quote!(crate::shim::drop_value)),
            "NetworkEndian::read_u32" | "BigEndian::read_u32" => Some(quote!(crate::shim::be_read_u32)),
            "u32::from_be_bytes" => Some(quote!(crate::shim::u32_from_be_bytes)),
            "Vec::with_capacity" => Some(quote!(crate::shim::vec_with_capacity)),
            "String::from_utf8_lossy" => Some(quote!(crate::shim::from_utf8_lossy)),
            _ => None,
        };
        if let Some(m) = m {
            *e = verb(quote!(#m(#args)));
            return;
        }
        // size_of::<T>()
        if let Some(seg) = p.path.segments.last() {
            if seg.ident == "size_of" && args.is_empty() {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    let t = norm(&a.args);
                    match self.sizes.get(&t) {
                        Some(n) => {
                            let l = proc_macro2::Literal::usize_suffixed(*n);
                            *e = pq!(#l);
                        }
                        None => {
                            let at = &a.args;
                            *e = verb(quote!(crate::shim::vsize_of::<#at>()));
                        }
                    }
                } 
            } else if seg.ident == "align_of" && args.is_empty() {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    let at = &a.args;
                    *e = verb(quote!(crate::shim::valign_of::<#at>()));
                }
            }
        }
    }

    fn rewrite_method(&mut self, e: &mut Expr) {
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return,
        };
        let name = m.method.to_string();
        let recv = &m.receiver;
        let isres = get_mark(&m.attrs, "vresult").is_some();
        let kinds = self.contract.opts.get(&name).cloned().unwrap_or_default();
        let isres = isres || kinds == "Result";
        if kinds == "native" {
            return;
        }
        let a0 = m.args.first().cloned();
        match (name.as_str(), m.args.len()) {
            ("clone", 0) => {
                *e = pq!((#recv).vclone());
            }
            ("into", 0) => {
                *e = match self.intos.get(&norm(&recv)) {
                    Some(t) => pq!(<_ as crate::shim::VInto<#t>>::vinto(#recv)),
                    None => pq!(crate::shim::VFrom::vfrom(#recv)),
                };
            }
            ("try_into", 0) => {
                *e = pq!(crate::shim::VTryFrom::vtry_from(#recv));
            }
            ("unwrap", 0) | ("expect", 1) => {
                if let Expr::MethodCall(i) = &**recv {
                    let r = &i.receiver;
                    if i.method == "lock" && i.args.is_empty() {
                        *e = pq!((#r).lock_now());
                        return;
                    }
                    if i.method == "get_mut" && i.args.is_empty() {
                        *e = pq!((#r).get_now());
                        return;
                    }
                }
                *e = pq!(crate::shim::VUnwrap::vunwrap(#recv));
            }
            ("get", 1) => {
                let a = a0.unwrap();
                *e = pq!((#recv).vget(#a));
            }
            ("collect", 0) if ends_in_call(recv, &["iter_map", "iter_cloned_map"]) => {
                *e = pq!(crate::shim::sync::FromItems::from_items(#recv));
            }
            ("split_at", 1) => {
                let a = a0.unwrap();
                *e = pq!((#recv).vsplit_at(#a));
            }
            ("contains", 1) if matches!(&m.args[0], Expr::Reference(r) if byte_lit(&r.expr)) && !matches!(strip_parens(recv), Expr::Range(_)) => {
                let c = match a0 { Some(Expr::Reference(r)) => r.expr, _ => return };
                let x = reborrow(recv);
                *e = pq!(crate::shim::memchr::memchr(#c, #x).is_some());
            }
            ("contains", 1) => {
                let a = a0.unwrap();
                *e = pq!((#recv).vcontains(#a));
            }
            ("strip_prefix" | "strip_suffix" | "rfind" | "trim_end_matches" | "trim_start_matches", 1) if !matches!(m.args[0], Expr::Closure(_)) => {
                let (f, a) = (format_ident!("v{}", name), a0.unwrap());
                *e = pq!((#recv).#f(#a));
            }
            ("find", 1) if matches!(m.args[0], Expr::Lit(_) | Expr::Reference(_)) => {
                let a = a0.unwrap();
                *e = pq!((#recv).vfind(#a));
            }
            ("starts_with" | "ends_with", 1) if matches!(&m.args[0], Expr::Lit(l) if matches!(l.lit, Lit::Str(_) | Lit::Char(_))) => {
                let (f, a) = (format_ident!("v{}", name), a0.unwrap());
                *e = pq!((#recv).#f(#a));
            }
            ("trim" | "trim_start" | "trim_end" | "trim_ascii" | "trim_ascii_start" | "trim_ascii_end" | "to_vec", 0) => {
                let f = format_ident!("v{}", name);
                *e = pq!((#recv).#f());
            }
            ("then", 1) if matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                if let Some((_, b)) = self.apply(&a0.unwrap()) {
                    *e = pq!(if #recv { Some(#b) } else { None });
                }
            }
            ("then_with", 1) => {
                if let Some((_, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__v");
                    *e = pq!(match #recv { core::cmp::Ordering::Equal => #b, #v => #v });
                }
            }
            ("to_owned", 0) => *e = pq!((#recv).vto_owned()),
            ("binary_search_by", 1) => {
                let (a, r) = (a0.unwrap(), reborrow(recv));
                *e = pq!(crate::shim::slice_binary_search_by(#r, #a));
            }
            ("cmp", 1) => {
                let a = a0.unwrap();
                *e = pq!((#recv).vcmp(#a));
            }
            ("as_ref", 0) => {
                if let Expr::Lit(l) = &**recv {
                    if let Lit::Str(v) = &l.lit {
                        let b = bytes_array(v.value().as_bytes());
                        *e = verb(quote!(crate::shim::path::lit(#l, &#b)));
                    }
                }
            }
            ("with_extension", 1) | ("join", 1) | ("push", 1) => {
                if let Some(Expr::Lit(l)) = &a0 {
                    if let Lit::Str(v) = &l.lit {
                        let (b, f) = (bytes_array(v.value().as_bytes()), &m.method);
                        *e = verb(quote!((#recv).#f(crate::shim::path::lit(#l, &#b))));
                    }
                }
            }
            ("or_try_insert_with_w", 2) => {
                if let Some((_, b)) = self.apply(&a0.unwrap()) {
                    let (v, x) = (self.fresh("__e"), self.fresh("__v"));
                    let (er, oc) = (self.fresh("__e"), self.fresh("__o"));
                    *e = pq!(match #recv {
                        DashMapEntry::Occupied(#oc) => Ok(()),
                        DashMapEntry::Vacant(#v) => match #b { Ok(#x) => { #v.insert_w(#x, world); Ok(()) } Err(#er) => Err(#er) },
                    });
                }
            }
            ("map_err", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__v");
                    *e = pq!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) });
                }
            }
            ("ok_or", 1) => {
                let a = a0.unwrap();
                if is_pure_ctor(&a) {
                    let v = self.fresh("__v");
                    *e = pq!(match #recv { Some(#v) => Ok(#v), None => Err(#a) });
                }
            }
            ("ok_or_else", 1) => {
                if let Some((_, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__v");
                    *e = pq!(match #recv { Some(#v) => Ok(#v), None => Err(#b) });
                }
            }
            ("or", 1) if get_mark(&m.attrs, "voption").is_some() => {}
            ("or", 1) => {
                let a = a0.unwrap();
                if is_pure_ctor(&a) {
                    let v = self.fresh("__v");
                    *e = pq!(match #recv { Ok(#v) => Ok(#v), Err(_) => #a });
                }
            }
            ("unwrap_or_else", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__v");
                    *e = if isres {
                        pq!(match #recv { Ok(#v) => #v, Err(#p) => #b })
                    } else {
                        pq!(match #recv { Some(#v) => #v, None => #b })
                    };
                }
            }
            ("unwrap_or", 1) => {
                let a = a0.unwrap();
                if is_pure_ctor(&a) {
                    let v = self.fresh("__v");
                    *e = if isres {
                        pq!(match #recv { Ok(#v) => #v, Err(_) => #a })
                    } else {
                        pq!(match #recv { Some(#v) => #v, None => #a })
                    };
                }
            }
            ("map", 1) if iter_chain(recv).is_some() && matches!(m.args[0], Expr::Closure(_) | Expr::Verbatim(_)) => {
                let (x, cloned) = iter_chain(recv).unwrap();
                let a = a0.unwrap();
                *e = if cloned { pq!(#x.iter_cloned_map(#a)) } else { pq!(#x.iter_map(#a)) };
            }
            ("map", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__e");
                    *e = if isres {
                        pq!(match #recv { Ok(#p) => Ok(#b), Err(#v) => Err(#v) })
                    } else {
                        pq!(match #recv { Some(#p) => Some(#b), None => None })
                    };
                }
            }
            ("and_then", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__e");
                    *e = if isres {
                        pq!(match #recv { Ok(#p) => #b, Err(#v) => Err(#v) })
                    } else {
                        pq!(match #recv { Some(#p) => #b, None => None })
                    };
                }
            }
            ("map_or", 2) => {
                let d = m.args[0].clone();
                if is_pure_ctor(&d) {
                    if let Some((p, b)) = self.apply(&m.args[1]) {
                        *e = if isres {
                            pq!(match #recv { Ok(#p) => #b, Err(_) => #d })
                        } else {
                            pq!(match #recv { Some(#p) => #b, None => #d })
                        };
                    }
                }
            }
            ("map_or_else", 2) => {
                if let (Some((q, d)), Some((p, b))) = (self.apply(&m.args[0]), self.apply(&m.args[1])) {
                    *e = if isres {
                        pq!(match #recv { Ok(#p) => #b, Err(#q) => #d })
                    } else {
                        pq!(match #recv { Some(#p) => #b, None => #d })
                    };
                }
            }
            ("or_else", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    let v = self.fresh("__v");
                    *e = if isres {
                        pq!(match #recv { Ok(#v) => Ok(#v), Err(#p) => #b })
                    } else {
                        pq!(match #recv { Some(#v) => Some(#v), None => #b })
                    };
                }
            }
            ("is_some_and", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    *e = pq!(match #recv { Some(#p) => #b, None => false });
                }
            }
            ("is_none_or", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    *e = pq!(match #recv { Some(#p) => #b, None => true });
                }
            }
            ("is_ok_and", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    *e = pq!(match #recv { Ok(#p) => #b, Err(_) => false });
                }
            }
            ("is_err_and", 1) => {
                if let Some((p, b)) = self.apply(&a0.unwrap()) {
                    *e = pq!(match #recv { Ok(_) => false, Err(#p) => #b });
                }
            }
            ("filter", 1) => {
                if let Expr::Closure(_) = m.args[0] {
                    if let Some((p, b)) = self.apply(&m.args[0]) {
                        let v = self.fresh("__v");
                        *e = pq!(match #recv { Some(#v) => { let #p = &#v; if #b { Some(#v) } else { None } } None => None });
                    }
                }
            }
            ("position", 1) | ("rposition", 1) | ("take_while", 1) | ("any", 1) | ("all", 1) => {
                if let Expr::MethodCall(r) = &**recv {
                    if r.method == "iter" && r.args.is_empty() {
                        let f = format_ident!("slice_{}", name);
                        let (x, a) = (reborrow(&r.receiver), a0.unwrap());
                        if let Some((c, eq)) = byte_test(&a) {
                            let x = quote!(crate::shim::memchr::memchr(#c, #x));
                            match (name.as_str(), eq) {
                                ("position", true) => *e = verb(x),
                                ("any", true) => *e = pq!(#x.is_some()),
                                ("all", false) => *e = pq!(#x.is_none()),
                                _ => {}
                            }
                            if (name == "position" || name == "any") && eq || name == "all" && !eq {
                                return;
                            }
                        }
                        let a = plain_test(&a).unwrap_or(a);
                        *e = verb(quote!(crate::shim::#f(#x, #a)));
                    }
                }
            }
            _ => {}
        }
    }

    fn rewrite_macro(&mut self, mac: &syn::Macro) -> Option<Expr> {
        use syn::punctuated::Punctuated;
        let name = mac.path.segments.last()?.ident.to_string();
        let args = || mac.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok();
        Some(match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                let mut c = a.first()?.clone();
                self.visit_expr_mut(&mut c);
                pq!(crate::shim::rt_assert(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                pq!(crate::shim::rt_assert(#x == #y))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => pq!(crate::shim::rt_panic()),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(x, p, g) = syn::parse2(mac.tokens.clone()).ok()?;
                let mut r: Expr = match g {
                    Some(g) => pq!(match #x { #p if #g => true, _ => false }),
                    None => pq!(match #x { #p => true, _ => false }),
                };
                self.visit_expr_mut(&mut r);
                r
            }
            "format" | "write" => {
                let mut a = args()?.into_iter().collect::<Vec<Expr>>();
                let to = if name == "write" { Some(a.remove(0)) } else { None };
                let lit = match a.first()? {
                    Expr::Lit(l) => match &l.lit { Lit::Str(s) => s.value(), _ => return None },
                    _ => return None,
                };
                let mut v: Vec<Expr> = a.iter().skip(1).cloned().collect();
                for x in v.iter_mut() {
                    self.visit_expr_mut(x);
                }
                // the pieces of text between the values
                let (mut out, mut piece, mut k) = (quote!(), String::new(), 0);
                let mut cs = lit.chars().peekable();
                while let Some(c) = cs.next() {
                    match c {
                        '{' if cs.peek() == Some(&'{') => { cs.next(); piece.push('{'); }
                        '}' if cs.peek() == Some(&'}') => { cs.next(); piece.push('}'); }
                        '{' => {
                            let mut name = String::new();
                            loop {
                                match cs.next()? { '}' => break, c => name.push(c) }
                            }
                            let x = if name.is_empty() {
                                v.get(k)?.to_token_stream()
                            } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_numeric()) {
                                v.insert(k.min(v.len()), verb(format_ident!("{}", name).to_token_stream()));
                                v[k].to_token_stream()
                            } else {
                                return None;
                            };
                            k += 1;
                            let b = bytes_array(piece.as_bytes());
                            out.extend(quote!(&#b, &#x,));
                            piece.clear();
                        }
                        c => piece.push(c),
                    }
                }
                let b = bytes_array(piece.as_bytes());
                out.extend(quote!(&#b));
                let f = format_ident!("format{}", k);
                match to {
                    Some(mut t) => {
                        self.visit_expr_mut(&mut t);
                        verb(quote!(crate::shim::fmt::write_string(#t, crate::shim::fmt::#f(#out))))
                    }
                    None => verb(quote!(crate::shim::fmt::#f(#out))),
                }
            }
            "cfg" => match norm(&mac.tokens).as_str() {
                "unix" => parse_quote!(true),
                "windows" => parse_quote!(false),
                _ => return None,
            },
            "vec" => {
                let toks = &mac.tokens;
                if let Ok(r) = syn::parse2::<syn::ExprRepeat>(quote!([#toks])) {
                    let (mut x, mut n) = ((*r.expr).clone(), (*r.len).clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut n);
                    return Some(verb(quote!(crate::shim::vec_of(#x, #n))));
                }
                let a = args()?;
                let mut v: Vec<Expr> = a.iter().cloned().collect();
                for x in v.iter_mut() {
                    self.visit_expr_mut(x);
                }
                let f = format_ident!("vec{}", v.len());
                verb(quote!(crate::shim::#f(#(#v),*)))
            }
            _ => return None,
        })
    }

    fn loop_clauses(&mut self, n: usize, kind: &str) -> TokenStream {
        match self.contract.loops.get(&n) {
            Some((k, t)) => {
                if !k.is_empty() && k != kind {
                    self.lost.push(format!("loop {} is a `{}`, the contract expects `{}`", n, kind, k));
                }
                tokens(t)
            }
            None => {
                self.lost.push(format!("loop {} has no invariant", n));
                quote!()
            }
        }
    }

    fn loop_body(&mut self, n: usize, b: &Block) -> TokenStream {
        let s = self.contract.loop_start.get(&n).map(|t| tokens(t));
        let e = self.contract.loop_end.get(&n).map(|t| tokens(t));
        let stmts = block_stmts(b);
        let semi = needs_semi(b);
        match e {
            Some(e) => quote!({ #s #stmts #semi #e }),
            None => quote!({ #s #stmts }),
        }
    }

    /// Turn a numbered loop into Verus syntax with its invariant.
    fn rewrite_loop(&mut self, e: &mut Expr) {
        let new = match e {
            Expr::While(w) => {
                let n = get_mark(&w.attrs, "vloop").unwrap_or(usize::MAX);
                let inv = self.loop_clauses(n, "while");
                let body = self.loop_body(n, &w.body);
                let (c, label) = (&w.cond, &w.label);
                match &**c {
                    Expr::Let(_) => {
                        // while let P = x { b }  ==  loop { if let P = x { b } else { break } }
                        quote!(#label loop #inv { if #c #body else { break; } })
                    }
                    _ => quote!(#label while #c #inv #body),
                }
            }
            Expr::Loop(w) if get_mark(&w.attrs, "visolate").is_some() => {
                let n = get_mark(&w.attrs, "visolate").unwrap();
                let t = tokens(&self.contract.isolate[n].1);
                let b = &w.body;
                quote!(#[verifier::loop_isolation(true)] loop #t #b)
            }
            Expr::Loop(w) => {
                let n = get_mark(&w.attrs, "vloop").unwrap_or(usize::MAX);
                let inv = self.loop_clauses(n, "loop");
                let body = self.loop_body(n, &w.body);
                let label = &w.label;
                quote!(#label loop #inv #body)
            }
            Expr::ForLoop(w) => {
                let n = get_mark(&w.attrs, "vloop").unwrap_or(usize::MAX);
                let mut inv = self.loop_clauses(n, "for");
                let label = &w.label;
                let body = self.loop_body(n, &w.body);
                let x = &w.expr;
                if let Expr::Range(_) = &**x {
                    let p: Pat = match &*w.pat {
                        Pat::Wild(_) => {
                            let i = format_ident!("__i{}", n);
                            parse_quote!(#i)
                        }
                        p => p.clone(),
                    };
                    quote!(#label for #p in #x #inv #body)
                } else {
                    let it = format_ident!("__it{}", n);
                    inv = replace_ident(inv, "__it", &it);
                    let p = &w.pat;
                    quote!({
                        let mut #it = crate::shim::iter::into_iter(#x);
                        #label loop #inv {
                            match #it.next() {
                                Some(#p) => #body
                                None => { break; }
                            }
                        }
                    })
                }
            }
            _ => return,
        };
        *e = verb(new);
    }

    fn release(&self) -> TokenStream {
        self.locks.iter().rev().map(|(m, g)| quote!(crate::shim::lock::release(&#m, &#g);)).collect()
    }

    fn rewrite_closure(&mut self, e: &mut Expr) {
        let c = match e {
            Expr::Closure(c) => c.clone(),
            _ => return,
        };
        let n = match get_mark(&c.attrs, "vclosure") {
            Some(n) => n,
            None => return,
        };
        let text = match self.contract.closures.get(&n) {
            Some(t) => t.clone(),
            None => {
                // the mark stays, so that it is seen if the closure does
                return;
            }
        };
        self.used.insert(format!("closure {}", n));
        let mut text = text;
        let mut pre = quote!();
        for (i, p) in c.inputs.iter().enumerate() {
            let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let name = match &p {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Reference(r) => {
                    let q = &r.pat;
                    let id = format_ident!("__p{}", i);
                    pre.extend(quote!(let #q = *#id;));
                    id.to_string()
                }
                Pat::Wild(_) => format!("__p{}", i),
                _ => {
                    self.lost.push(format!("closure {} parameter pattern", n));
                    return;
                }
            };
            text = text.replace(&format!("${}", i), &name);
        }
        // the body, in the contract, is what the closure says itself
        if text.contains("$body") {
            let b = &c.body;
            text = text.replace("$body", &quote!({ #pre #b }).to_string());
        }
        let head = tokens(&text);
        let body = match &*c.body {
            Expr::Block(b) => block_stmts(&b.block),
            b => b.to_token_stream(),
        };
        *e = verb(quote!(#head { #pre #body }));
    }
}

fn byte_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Byte(_)))
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        e => e,
    }
}

/// `|&b| b == C`, `|b| *b == C`, and with `!=`, where `C` is a byte: `C`, and whether it is `==`
fn byte_test(e: &Expr) -> Option<(Expr, bool)> {
    let c = match e {
        Expr::Closure(c) if c.inputs.len() == 1 => c,
        _ => return None,
    };
    let (x, deref) = match c.inputs.first()? {
        Pat::Ident(i) => (i.ident.clone(), true),
        Pat::Reference(r) => match &*r.pat { Pat::Ident(i) => (i.ident.clone(), false), _ => return None },
        _ => return None,
    };
    let b = match &*c.body { Expr::Binary(b) => b, _ => return None };
    let eq = match b.op { syn::BinOp::Eq(_) => true, syn::BinOp::Ne(_) => false, _ => return None };
    let is_x = |e: &Expr| match (strip_parens(e), deref) {
        (Expr::Unary(u), true) => matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&x)),
        (Expr::Path(p), false) => p.path.is_ident(&x),
        _ => false,
    };
    let is_c = |e: &Expr| byte_lit(strip_parens(e));
    if is_x(&b.left) && is_c(&b.right) {
        Some(((*b.right).clone(), eq))
    } else if is_x(&b.right) && is_c(&b.left) {
        Some(((*b.left).clone(), eq))
    } else {
        None
    }
}

/// A closure which only compares: its contract is that it gives what it says.
fn plain_test(e: &Expr) -> Option<Expr> {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Paren(p) => plain(&p.expr),
            Expr::Unary(u) => plain(&u.expr),
            Expr::Reference(r) => plain(&r.expr),
            Expr::Field(f) => plain(&f.base),
            Expr::Binary(b) => plain(&b.left) && plain(&b.right) && !matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_)),
            Expr::Match(m) => plain(&m.expr) && m.arms.iter().all(|a| a.guard.as_ref().map_or(true, |(_, g)| plain(g)) && plain(&a.body)),
            _ => false,
        }
    }
    let c = match e {
        Expr::Closure(c) if c.inputs.len() == 1 && plain(&c.body) => c,
        _ => return None,
    };
    let (name, pre) = match c.inputs.first()? {
        Pat::Ident(i) => (i.ident.clone(), quote!()),
        Pat::Reference(r) => {
            let q = &r.pat;
            (format_ident!("__p"), quote!(let #q = *__p;))
        }
        _ => return None,
    };
    let b = &c.body;
    Some(verb(quote!(|#name| -> (__o: bool) ensures __o == ({ #pre #b }) { #pre #b })))
}

/// `let mut G = M.lock().unwrap();`
fn lock_stmt(s: &Stmt) -> Option<(Expr, Ident)> {
    if let Stmt::Local(l) = s {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if let Expr::MethodCall(u) = &*i.expr {
                if let Expr::MethodCall(k) = &*u.receiver {
                    if (u.method == "unwrap" || u.method == "expect") && k.method == "lock" && k.args.is_empty() {
                        return Some(((*k.receiver).clone(), p.ident.clone()));
                    }
                }
            }
        }
    }
    None
}

/// Statement tokens of a block (without the braces).
pub fn block_stmts(b: &Block) -> TokenStream {
    let mut ts = quote!();
    for s in &b.stmts {
        s.to_tokens(&mut ts);
    }
    ts
}

fn needs_semi(b: &Block) -> TokenStream {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Verbatim(_), None)) => quote!(),
        Some(Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Block(_), None)) => quote!(),
        Some(Stmt::Expr(_, None)) => quote!(;),
        _ => quote!(),
    }
}

pub fn replace_ident(ts: TokenStream, from: &str, to: &Ident) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(to.clone()),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, to));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Verbatim(_) = e {
            return;
        }
        // R1 in reference position
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &*r.expr {
                let (mut b, mut i) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut i);
                let b = paren_recv(b);
                *e = if r.mutability.is_some() {
                    pq!(#b.idx_mut(#i))
                } else {
                    pq!(#b.idx(#i))
                };
                return;
            }
        }
        if let Expr::Macro(m) = e {
            match self.rewrite_macro(&m.mac.clone()) {
                Some(n) => *e = n,
                None => self.lost.push(format!("macro {}", norm(&m.mac.path))),
            }
            return;
        }
        // *b"..."
        if let Expr::Unary(u) = e {
            if let (syn::UnOp::Deref(_), Expr::Lit(l)) = (&u.op, &*u.expr) {
                if let Lit::ByteStr(b) = &l.lit {
                    *e = verb(bytes_array(&b.value()));
                    return;
                }
            }
        }
        // what a closure returns does not leave the function
        let locks = if let Expr::Closure(_) = e { std::mem::take(&mut self.locks) } else { vec![] };
        let option = self.option;
        self.option = option && !matches!(e, Expr::Closure(_));
        visit_mut::visit_expr_mut(self, e);
        self.option = option;
        if let Expr::Closure(_) = e {
            self.locks = locks;
        }
        match e {
            Expr::Index(ix) => {
                let b = paren_recv((*ix.expr).clone());
                let i = &ix.index;
                *e = pq!((*#b.idx(#i)));
            }
            // R21
            Expr::Binary(b) if is_call(&b.left, &["extension", "file_name"]) || is_call(&b.right, &["extension", "file_name"]) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::Eq(_) => *e = pq!(crate::shim::path::VEq::veq(&#l, &#r)),
                    syn::BinOp::Ne(_) => *e = pq!((!crate::shim::path::VEq::veq(&#l, &#r))),
                    _ => {}
                }
            }
            Expr::Binary(b) if is_call(&b.left, &["elapsed_w"]) || is_call(&b.right, &["elapsed_w"]) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::Lt(_) => *e = pq!((#l).lt(&#r)),
                    syn::BinOp::Gt(_) => *e = pq!((#r).lt(&#l)),
                    syn::BinOp::Ge(_) => *e = pq!((!(#l).lt(&#r))),
                    syn::BinOp::Le(_) => *e = pq!((!(#r).lt(&#l))),
                    _ => {}
                }
            }
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit {
                    let a = bytes_array(&b.value());
                    *e = verb(quote!((&#a)));
                }
            }
            Expr::Try(t) => {
                let x = &t.expr;
                let (v, er) = (self.fresh("__v"), self.fresh("__e"));
                let rel = self.release();
                if self.option {
                    *e = pq!((match #x { Some(#v) => #v, None => { #rel return None } }));
                    return;
                }
                *e = pq!((match #x { Ok(#v) => #v, Err(#er) => { #rel return Err(crate::shim::VFrom::vfrom(#er)) } }));
            }
            Expr::Call(_) => self.rewrite_call(e),
            Expr::MethodCall(_) => {
                self.rewrite_method(e);
                if let Expr::MethodCall(m) = e {
                    m.attrs.clear();
                }
            }
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => self.rewrite_loop(e),
            Expr::Closure(_) => self.rewrite_closure(e),
            Expr::Return(r) => {
                let n = get_mark(&r.attrs, "vret");
                r.attrs.clear();
                if !self.locks.is_empty() {
                    let rel = self.release();
                    let h = n.and_then(|n| self.contract.rets.get(&n).map(|t| (n, tokens(t))));
                    let h = match h {
                        Some((n, h)) => {
                            self.used.insert(format!("ret {}", n));
                            h
                        }
                        None => quote!(),
                    };
                    let x = r.expr.as_ref().map_or(quote!(()), |x| x.to_token_stream());
                    *e = verb(quote!({ let __r = #x; #rel #h return __r }));
                    return;
                }
                if let Some(t) = n.and_then(|n| self.contract.rets.get(&n).map(|t| (n, tokens(t)))) {
                    self.used.insert(format!("ret {}", t.0));
                    let h = t.1;
                    *e = verb(quote!({ #h #r }));
                }
            }
            Expr::Match(m) => {
                if self.contract.opts.contains_key("world") {
                    if let Some(x) = self.guarded_match(m) {
                        *e = x;
                    }
                }
            }
            Expr::Unary(u) => {
                // *&x simplification is left to rustc
                let _ = u;
            }
            _ => {}
        }
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
        // byte string or empty slice patterns become guards
        let mut guards: Vec<TokenStream> = vec![];
        let mut n = self.n;
        fix_pat(&mut a.pat, &mut guards, &mut n);
        self.n = n;
        if !guards.is_empty() {
            let mut g = quote!();
            for (i, x) in guards.iter().enumerate() {
                if i > 0 {
                    g.extend(quote!(&&));
                }
                g.extend(x.clone());
            }
            if let Some((_, old)) = &a.guard {
                g.extend(quote!(&& (#old)));
            }
            a.guard = Some((Default::default(), Box::new(verb(g))));
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(_))));
        for s in b.stmts.iter_mut() {
            if let Stmt::Item(syn::Item::Static(i)) = s {
                let (n, t) = (&i.ident, &i.ty);
                *s = stmt_verb(quote!(let #n = crate::shim::process::shared::<#t>();));
            }
        }
        let held = self.locks.len();
        for i in 0..b.stmts.len() {
            let l = lock_stmt(&b.stmts[i]);
            self.visit_stmt_mut(&mut b.stmts[i]);
            self.locks.extend(l);
        }
        if self.locks.len() > held {
            let mine = self.locks.split_off(held);
            let rel = mine.iter().rev().map(|(m, g)| quote!(crate::shim::lock::release(&#m, &#g);)).collect::<TokenStream>();
            match b.stmts.pop() {
                Some(Stmt::Expr(x, None)) => {
                    // a `loop` which never breaks has no value
                    if matches!(&x, Expr::Verbatim(v) if v.to_string().contains("loop") && !v.to_string().contains("break")) || matches!(&x, Expr::Return(_)) {
                        b.stmts.push(Stmt::Expr(x, None));
                    } else {
                        b.stmts.push(stmt_verb(quote!(let __r = #x; #rel __r)));
                    }
                }
                Some(s) => {
                    b.stmts.push(s);
                    b.stmts.push(stmt_verb(rel));
                }
                None => (),
            }
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            match self.rewrite_macro(&m.mac.clone()) {
                Some(n) => *s = Stmt::Expr(n, m.semi_token.or_else(|| Some(Default::default()))),
                None => self.lost.push(format!("macro {}", norm(&m.mac.path))),
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut syn::Type) {}
}

/// A slice to pass to a function: an index expression is a place, everything else derefs to one.
fn reborrow(x: &Expr) -> Expr {
    let t = x.to_token_stream().to_string();
    if t.starts_with("(*") || t.starts_with("(* ") {
        pq!(&#x)
    } else {
        pq!(&*#x)
    }
}

fn paren_recv(e: Expr) -> Expr {
    match e {
        Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Paren(_) | Expr::Call(_) => e,
        Expr::Verbatim(_) => pq!((#e)),
        e => pq!((#e)),
    }
}

fn fix_pat(p: &mut Pat, guards: &mut Vec<TokenStream>, n: &mut usize) {
    match p {
        Pat::Lit(l) => {
            if let Lit::ByteStr(b) = &l.lit {
                let a = bytes_array(&b.value());
                *n += 1;
                let id = format_ident!("__s_{}", *n);
                guards.push(quote!(crate::shim::bytes_eq(#id, &#a)));
                *p = parse_quote!(#id);
            }
        }
        Pat::Reference(r) => {
            if let Pat::Slice(s) = &*r.pat {
                if s.elems.is_empty() {
                    *n += 1;
                    let id = format_ident!("__s_{}", *n);
                    guards.push(quote!(#id.len() == 0));
                    *p = parse_quote!(#id);
                }
            }
        }
        Pat::Slice(s) if s.elems.is_empty() => {
            *n += 1;
            let id = format_ident!("__s_{}", *n);
            guards.push(quote!(#id.len() == 0));
            *p = parse_quote!(#id);
        }
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| fix_pat(x, guards, n)),
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| fix_pat(x, guards, n)),
        Pat::Or(o) => {
            // b"x" | b"y": one binding, disjunction of guards
            let mut alts = vec![];
            let mut ok = true;
            *n += 1;
            let id = format_ident!("__s_{}", *n);
            for c in &o.cases {
                match c {
                    Pat::Lit(l) => match &l.lit {
                        Lit::ByteStr(b) => {
                            let a = bytes_array(&b.value());
                            alts.push(quote!(crate::shim::bytes_eq(#id, &#a)));
                        }
                        _ => ok = false,
                    },
                    _ => ok = false,
                }
            }
            if ok {
                guards.push(quote!((#(#alts)||*)));
                *p = parse_quote!(#id);
            }
        }
        _ => {}
    }
}

pub fn norm_ty(t: &syn::Type) -> String {
    norm(t)
}
