use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, FnArg, Pat, ReturnType, Stmt};

use crate::contract::{File, FnContract, Item};
use crate::inline::Inliner;
use crate::rewrite::{self, Ctx, Numbering};
use crate::source::{norm, Source, SrcFn};

pub struct Out {
    buf: String,
    line: usize,
    map: String,
}

impl Out {
    pub fn new() -> Self {
        Out { buf: String::new(), line: 1, map: String::new() }
    }
    pub fn put(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.buf.push_str(s);
    }
    pub fn rec(&mut self, fields: &[&str]) {
        self.map.push_str(&fields.join("\t").replace('\n', " "));
        self.map.push('\n');
    }
    pub fn text(&self) -> &str {
        &self.buf
    }
    pub fn map(&self) -> &str {
        &self.map
    }
}

/// Print tokens with line breaks at statement ends and braces.
pub fn pretty(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize) {
        let mut prev_joint = false;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                        out.push_str(" {\n");
                        out.push_str(&"  ".repeat(ind + 1));
                        go(g.stream(), out, ind + 1);
                        let trimmed = out.trim_end_matches(' ').len();
                        out.truncate(trimmed);
                        if !out.ends_with('\n') {
                            out.push('\n');
                        }
                        out.push_str(&"  ".repeat(ind));
                        out.push_str("}\n");
                        out.push_str(&"  ".repeat(ind));
                    } else {
                        out.push_str(o);
                        go(g.stream(), out, ind);
                        out.push_str(c);
                        out.push(' ');
                    }
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    prev_joint = p.spacing() == Spacing::Joint;
                    if !prev_joint {
                        if p.as_char() == ';' {
                            out.push('\n');
                            out.push_str(&"  ".repeat(ind));
                        } else {
                            out.push(' ');
                        }
                    }
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                    prev_joint = false;
                }
            }
        }
        let _ = prev_joint;
    }
    let mut s = String::new();
    go(ts, &mut s, 0);
    s
}

fn sizes(src: &Source) -> BTreeMap<String, usize> {
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    for (k, v) in [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("usize", 8), ("i64", 8), ("i32", 4), ("U32<NetworkEndian>", 4), ("U64<NetworkEndian>", 8), ("Id", 20)] {
        m.insert(k.into(), v);
    }
    // repr(C) structs of alignment-1 fields
    for _ in 0..3 {
        for f in src.files.values() {
            for (n, it) in &f.structs {
                if let syn::Item::Struct(s) = it {
                    if !s.attrs.iter().any(|a| norm(a).contains("repr(C)")) {
                        continue;
                    }
                    let mut tot = Some(0usize);
                    for fl in &s.fields {
                        let t = norm(&fl.ty);
                        let ok = t.starts_with("U32<") || t.starts_with("U64<") || t == "Id" || m.contains_key(&t) && !["u16", "u32", "u64", "usize", "i64", "i32"].contains(&t.as_str());
                        tot = match (tot, m.get(&t), ok) {
                            (Some(a), Some(b), true) => Some(a + b),
                            _ => None,
                        };
                    }
                    if let Some(t) = tot {
                        m.insert(n.clone(), t);
                    }
                }
            }
        }
    }
    m
}

struct TyFix;
impl VisitMut for TyFix {
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::parse_quote!(pub);
    }
}

fn strip_attrs_item(it: &syn::Item) -> (syn::Item, Vec<(String, syn::Type)>) {
    let mut it = it.clone();
    let mut froms = vec![];
    match &mut it {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
            }
        }
        syn::Item::Enum(e) => {
            e.attrs.clear();
            e.vis = syn::parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                        froms.push((v.ident.to_string(), f.ty.clone()));
                    }
                    f.attrs.clear();
                }
            }
        }
        syn::Item::Type(t) => {
            t.attrs.clear();
            t.vis = syn::parse_quote!(pub);
        }
        _ => {}
    }
    let _ = TyFix;
    (it, froms)
}

fn all_derives(it: &syn::Item) -> Vec<String> {
    let attrs = match it {
        syn::Item::Struct(s) => &s.attrs,
        syn::Item::Enum(e) => &e.attrs,
        _ => return vec![],
    };
    let mut d = vec![];
    for a in attrs {
        let s = norm(a);
        if s.starts_with("#[derive(") {
            d.extend(s["#[derive(".len()..].trim_end_matches(")]").split(',').map(|x| x.to_string()));
        }
    }
    d
}

fn derives(it: &syn::Item) -> String {
    let attrs = match it {
        syn::Item::Struct(s) => &s.attrs,
        syn::Item::Enum(e) => &e.attrs,
        _ => return String::new(),
    };
    let mut d = vec![];
    for a in attrs {
        let s = norm(a);
        if s.starts_with("#[derive(") {
            for k in ["Copy", "Clone", "PartialEq", "Eq"] {
                if s["#[derive(".len()..].trim_end_matches(")]").split(',').any(|x| x == k) {
                    d.push(k);
                }
            }
        }
    }
    d.join(",")
}

pub fn emit_all(src: &Source, files: &[File], external: &BTreeSet<String>, vacuity: u8, out: &mut Out) {
    let mut known = BTreeSet::new();
    let mut known_names = BTreeSet::new();
    let mut repo_types = BTreeSet::new();
    for f in src.files.values() {
        for k in f.structs.keys() {
            repo_types.insert(k.clone());
        }
    }
    for f in files {
        for i in &f.items {
            if let Item::Fn(c) = i {
                if let Some(s) = &f.src {
                    known.insert(format!("{}|{}", s, c.key));
                }
                known_names.insert(c.key.rsplit("::").next().unwrap().to_string());
            }
        }
    }
    // a contract whose function no longer exists: its name is free for inlining again
    let mut present = BTreeSet::new();
    for f in files {
        if let Some(s) = &f.src {
            for i in &f.items {
                if let Item::Fn(c) = i {
                    if src.files.get(s).map_or(false, |x| x.fns.contains_key(&c.key)) {
                        present.insert(c.key.rsplit("::").next().unwrap().to_string());
                    }
                }
            }
        }
    }
    let _ = &known_names;
    let known_names = present;

    // R20: the calls that are told when they happen
    let mut world = BTreeMap::new();
    for f in files {
        for i in &f.items {
            match i {
                Item::World(l) => {
                    for n in l {
                        // `~name`: only in this file
                        match n.strip_prefix('~') {
                            Some(n) => world.insert(format!("{} {}", f.src.as_deref().unwrap_or(""), n), true),
                            None => world.insert(n.clone(), true),
                        };
                    }
                }
                Item::Fn(c) if c.opts.contains_key("world") => {
                    if let Some(sf) = f.src.as_ref().and_then(|s| src.files.get(s)).and_then(|s| s.fns.get(&c.key)) {
                        let n = sf.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
                        let last = c.key.rsplit(|c| c == ':' || c == '/').next().unwrap();
                        // as a method, a function, or a path of a type
                        world.insert(format!("{}/{}", last, n), false);
                        if let Some((t, _)) = c.key.rsplit_once("::") {
                            let t = t.rsplit(" for ").next().unwrap();
                            let t: String = t.trim_start_matches('&').chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            world.insert(format!("{}::{}/{}", t, last, sf.sig.inputs.len()), false);
                        }
                    }
                }
                _ => {}
            }
        }
    }

    let sz = sizes(src);
    let mut kinds: BTreeMap<String, Option<bool>> = BTreeMap::new();
    for f in src.files.values().flat_map(|f| f.fns.values()) {
        let k = match &f.sig.output {
            ReturnType::Type(_, t) => match norm(t) {
                t if t.starts_with("Result<") || t.starts_with("io::Result<") => Some(true),
                t if t.starts_with("Option<") => Some(false),
                _ => None,
            },
            _ => None,
        };
        kinds.entry(f.sig.ident.to_string()).and_modify(|x| if *x != k { *x = None }).or_insert(k);
    }
    let env = Env { kinds, world, src, known, known_names, repo_types, sizes: sz, external, vacuity };

    out.put("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_assignments, non_camel_case_types, unused_must_use, unreachable_patterns, noop_method_call)]\n");
    out.put("#![verifier::loop_isolation(false)]\n");
    // nested modules: build tree
    let mut tree: Node = Node::default();
    for (i, f) in files.iter().enumerate() {
        let mut n = &mut tree;
        for p in f.module.split("::") {
            n = n.kids.entry(p.to_string()).or_default();
        }
        n.files.push(i);
    }
    emit_node(&env, &tree, files, out);
    out.put("fn main() {}\n");
}

#[derive(Default)]
struct Node {
    kids: BTreeMap<String, Node>,
    files: Vec<usize>,
}

struct Env<'a> {
    world: BTreeMap<String, bool>,
    src: &'a Source,
    known: BTreeSet<String>,
    known_names: BTreeSet<String>,
    repo_types: BTreeSet<String>,
    sizes: BTreeMap<String, usize>,
    kinds: BTreeMap<String, Option<bool>>,
    external: &'a BTreeSet<String>,
    vacuity: u8,
}

fn emit_node(env: &Env, n: &Node, files: &[File], out: &mut Out) {
    for &i in &n.files {
        emit_file(env, &files[i], out);
    }
    for (k, c) in &n.kids {
        out.put(&format!("pub mod {} {{\n", k));
        emit_node(env, c, files, out);
        out.put("}\n");
    }
}

fn emit_file(env: &Env, f: &File, out: &mut Out) {
    // leading `use` lines of the first text go outside verus!
    let mut items = f.items.clone();
    if let Some(Item::Text(t)) = items.first_mut() {
        let mut uses = String::new();
        let mut rest = String::new();
        for l in t.lines() {
            if l.starts_with("use ") || l.starts_with("pub use ") || l.starts_with("macro_rules") || l.starts_with("broadcast") && false {
                uses.push_str(l);
                uses.push('\n');
            } else {
                rest.push_str(l);
                rest.push('\n');
            }
        }
        out.put(&uses);
        *t = rest;
    }
    out.put("use vstd::prelude::*;\nverus! {\n");
    let mut emitted_consts = BTreeSet::new();
    let mut referenced: BTreeSet<String> = BTreeSet::new();
    let mut in_impl = false;
    for it in &items {
        match it {
            Item::Text(t) => out.put(t),
            Item::Struct(name, o) => {
                let it = f.src.as_ref().and_then(|s| env.src.files.get(s)).and_then(|s| s.structs.get(name));
                match it {
                    None => out.rec(&["missing", f.src.as_deref().unwrap_or("-"), name]),
                    Some(it) => {
                        let d = derives(it);
                        let (it, froms) = strip_attrs_item(it);
                        let mut pre = String::new();
                        let mut structural = false;
                        if !o.contains_key("noderive") && !d.is_empty() {
                            let ds: Vec<&str> = d.split(',').filter(|x| *x != "Eq").collect();
                            if ds.contains(&"PartialEq") {
                                structural = true;
                            }
                            let mut ds2: Vec<&str> = d.split(',').collect();
                            if o.contains_key("copyonly") {
                                ds2.retain(|x| *x == "Copy" || *x == "Clone");
                                structural = false;
                            }
                            if structural && !ds2.contains(&"Eq") {
                                ds2.push("Eq");
                            }
                            pre = format!("#[derive({}{})]\n", ds2.join(","), if structural && !o.contains_key("nostructural") { ",Structural" } else { "" });
                        }
                        if o.contains_key("external_body") {
                            pre.push_str("#[verifier::external_body]\n");
                        }
                        out.put(&pre);
                        out.put(&pretty(it.to_token_stream()));
                        out.put("\n");
                        if o.contains_key("frombytes") {
                            out.put(&from_bytes_impl(env, &it));
                        }
                        let generic = match &it {
                            syn::Item::Struct(s) => !s.generics.params.is_empty(),
                            syn::Item::Enum(s) => !s.generics.params.is_empty(),
                            _ => true,
                        };
                        if d.split(',').any(|x| x == "Clone") && !generic {
                            out.put(&format!(
                                "impl crate::shim::VClone for {n} {{\n open spec fn is_clone(&self, r: Self) -> bool {{ r == *self }}\n #[verifier::external_body]\n fn vclone(&self) -> (r: Self) {{ unimplemented!() }}\n}}\n",
                                n = name
                            ));
                        }
                        for (v, t) in froms {
                            let ts = norm_ty(&t);
                            out.put(&format!(
                                "impl crate::shim::VFrom<{t}> for {n} {{\n open spec fn vf(t: {t}) -> Self {{ {n}::{v}(t) }}\n fn vfrom(t: {t}) -> (r: Self) {{ {n}::{v}(t) }}\n}}\n",
                                t = ts, n = name, v = v
                            ));
                        }
                    }
                }
            }
            Item::Const(name) => {
                emit_const(env, f, name, out);
                emitted_consts.insert(name.clone());
            }
            Item::ImplOpen(s) => {
                out.put(s);
                out.put(" {\n");
                in_impl = true;
            }
            Item::World(_) => {}
            Item::ImplClose => {
                out.put("}\n");
                in_impl = false;
            }
            Item::Fn(c) => emit_fn_safe(env, f, c, in_impl, out, &mut referenced),
        }
    }
    // constants the bodies mention that no directive asked for
    if let Some(s) = f.src.as_ref().and_then(|s| env.src.files.get(s)) {
        for k in s.consts.keys() {
            if referenced.contains(k) && !emitted_consts.contains(k) {
                emit_const(env, f, k, out);
            }
        }
    }
    out.put("} // verus!\n");
}

/// What zerocopy's derive does for a struct: its fields, in order, without padding (a type with
/// padding does not compile as `FromBytes` consumers here require alignment 1).
fn from_bytes_impl(env: &Env, it: &syn::Item) -> String {
    let s = match it {
        syn::Item::Struct(s) => s,
        _ => return String::new(),
    };
    let (mut off, mut ok, mut align) = ("0".to_string(), vec![], "1nat".to_string());
    for (i, f) in s.fields.iter().enumerate() {
        let t = norm_ty(&f.ty);
        let size = match env.sizes.get(&norm(&f.ty)) {
            Some(n) => n.to_string(),
            None => format!("<{} as crate::shim::zerocopy::FromBytes>::zsize()", t),
        };
        let name = f.ident.as_ref().map_or(i.to_string(), |i| i.to_string());
        let end = match (off.parse::<usize>(), size.parse::<usize>()) {
            (Ok(a), Ok(b)) => (a + b).to_string(),
            _ => format!("{} + {}", off, size),
        };
        ok.push(format!("<{} as crate::shim::zerocopy::FromBytes>::zok(b.subrange(({}) as int, ({}) as int), v.{})", t, off, end, name));
        align = format!("(if <{} as crate::shim::zerocopy::FromBytes>::zalign() > 1 {{ 8nat }} else {{ {} }})", t, align);
        off = end;
    }
    format!(
        "impl crate::shim::zerocopy::FromBytes for {} {{\n open spec fn zsize() -> nat {{ ({}) as nat }}\n open spec fn zalign() -> nat {{ {} }}\n open spec fn zok(b: Seq<u8>, v: Self) -> bool {{ {} }}\n}}\n",
        s.ident, off, align, if ok.is_empty() { "true".into() } else { ok.join(" && ") }
    )
}

fn norm_ty(t: &syn::Type) -> String {
    t.to_token_stream().to_string()
}

fn emit_const(env: &Env, f: &File, name: &str, out: &mut Out) {
    let c = f.src.as_ref().and_then(|s| env.src.files.get(s)).and_then(|s| s.consts.get(name));
    let (ty, ex) = match c {
        None => {
            out.rec(&["missing", f.src.as_deref().unwrap_or("-"), name]);
            return;
        }
        Some(c) => c,
    };
    let (imp, n) = match name.split_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, name),
    };
    let mut e = ex.clone();
    // constant evaluation of what Verus cannot see through
    struct C<'a>(&'a BTreeMap<String, usize>);
    impl<'a> VisitMut for C<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let s = norm(e);
            if let Some(r) = s.strip_prefix("size_of::<") {
                if let Some(t) = r.strip_suffix(">()") {
                    if let Some(n) = self.0.get(t) {
                        let l = proc_macro2::Literal::usize_suffixed(*n);
                        *e = syn::parse_quote!(#l);
                    }
                }
            }
            if let Expr::Call(c) = e {
                if norm(&c.func) == "u32::from_be_bytes" {
                    if let Some(Expr::Unary(u)) = c.args.first() {
                        if let Expr::Lit(l) = &*u.expr {
                            if let syn::Lit::ByteStr(b) = &l.lit {
                                let v = b.value();
                                let n = u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
                                let l = proc_macro2::Literal::u32_suffixed(n);
                                *e = syn::parse_quote!(#l);
                            }
                        }
                    }
                }
            }
        }
    }
    C(&env.sizes).visit_expr_mut(&mut e);
    let text = match (&e, norm(ty).as_str()) {
        (Expr::Lit(l), "&[u8]") => match &l.lit {
            syn::Lit::ByteStr(b) => {
                let xs: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
                format!("pub exec const {}: &'static [u8] ensures {}@ =~= seq![{}] {{ &[{}] }}\n", n, n, xs.join(","), xs.join(","))
            }
            _ => return,
        },
        (Expr::Lit(l), "&str") => match &l.lit {
            syn::Lit::Str(s) => {
                let xs: Vec<String> = s.value().bytes().map(|x| format!("{}u8", x)).collect();
                format!("#[verifier::external_body]\npub exec const {}: &'static str ensures {}@ == {:?}@, str_bytes({}) =~= seq![{}] {{ {:?} }}\n", n, n, s.value(), n, xs.join(","), s.value())
            },
            _ => return,
        },
        (Expr::Call(c), "Duration") if norm(&c.func) == "Duration::from_secs" && matches!(c.args.first(), Some(Expr::Lit(_))) => {
            let a = c.args[0].to_token_stream();
            format!("pub exec const {}: Duration ensures {}.nanos == {} * 1_000_000_000 {{ {} }}\n", n, n, a, e.to_token_stream())
        }
        (Expr::Call(_), _) => format!("#[verifier::external_body]\npub exec const {}: {} {{ {} }}\n", n, ty.to_token_stream(), e.to_token_stream()),
        _ => format!("pub const {}: {} = {};\n", n, ty.to_token_stream(), e.to_token_stream()),
    };
    match imp {
        Some(t) => out.put(&format!("impl {} {{ {} }}\n", t, text)),
        None => out.put(&text),
    }
}

fn subst_params(text: &str, sf: &SrcFn) -> String {
    let mut t = text.to_string();
    let mut names = vec![];
    for a in &sf.sig.inputs {
        if let FnArg::Typed(x) = a {
            names.push(match &*x.pat {
                Pat::Ident(i) => i.ident.to_string(),
                p => norm(p),
            });
        }
    }
    for i in (0..names.len()).rev() {
        t = t.replace(&format!("${}", i + 1), &names[i]);
    }
    t
}

/// `let`-bound names in source order
fn locals(b: &Block) -> Vec<String> {
    use syn::visit::Visit;
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let Pat::Ident(i) = p {
                self.0.push(i.ident.to_string());
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

fn rename_idents(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut id = String::new();
    let mut prev = ' ';
    for ch in text.chars().chain(std::iter::once('\n')) {
        if ch.is_alphanumeric() || ch == '_' {
            id.push(ch);
        } else {
            if !id.is_empty() {
                match map.get(&id) {
                    Some(n) if prev != '.' && prev != ':' => out.push_str(n),
                    _ => out.push_str(&id),
                }
                prev = ' ';
                id.clear();
            }
            prev = if ch.is_whitespace() { prev } else { ch };
            if ch.is_whitespace() && prev == '.' {}
            out.push(ch);
        }
        if !id.is_empty() && id.len() == 1 {
            // prev keeps the character before the identifier
        }
    }
    out.pop();
    out
}

/// A function the rewriter cannot process is emitted without its body (and reported as such).
fn emit_fn_safe(env: &Env, f: &File, c0: &FnContract, in_impl: bool, out: &mut Out, referenced: &mut BTreeSet<String>) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let before = (out.buf.len(), out.line, out.map.len());
    let refs = referenced.clone();
    let r = catch_unwind(AssertUnwindSafe(|| emit_fn(env, f, c0, in_impl, false, out, referenced)));
    if r.is_err() {
        out.buf.truncate(before.0);
        out.line = before.1;
        out.map.truncate(before.2);
        *referenced = refs;
        eprintln!("not processed: {}", c0.key);
        emit_fn(env, f, c0, in_impl, true, out, referenced)
    }
}

fn emit_fn(env: &Env, f: &File, c0: &FnContract, in_impl: bool, skip: bool, out: &mut Out, referenced: &mut BTreeSet<String>) {
    let srcpath = f.src.clone().unwrap_or_default();
    let id = format!("{}|{}", srcpath, c0.key);
    let derived;
    let sf = match env.src.files.get(&srcpath).and_then(|s| s.fns.get(&c0.key)) {
        Some(s) => s,
        None => {
            derived = c0.opts.get("derived").and_then(|d| d.split_once(':')).and_then(|(ty, tr)| {
                env.src.files.get(&srcpath).and_then(|s| s.structs.get(ty)).and_then(|i| derive(&srcpath, &c0.key, i, tr))
            });
            if derived.is_none() {
                out.rec(&["missing", &srcpath, &c0.key]);
                return;
            }
            derived.as_ref().unwrap()
        }
    };
    let mut c = c0.clone();
    // positional parameter names, renamed locals
    let mut lost: Vec<String> = vec![];
    if let Some(n) = &sf.believed {
        lost.push(format!("renamed to {}", n));
    }
    let mut ren = BTreeMap::new();
    if let Some(l) = c.opts.get("locals") {
        let want: Vec<String> = l.split(',').map(|s| s.to_string()).filter(|s| !s.is_empty()).collect();
        let have = locals(&sf.block);
        if want.len() == have.len() {
            for (w, h) in want.iter().zip(&have) {
                if w != h {
                    ren.insert(w.clone(), h.clone());
                }
            }
        }
    }
    let fix = |t: &String| -> String {
        let t = subst_params(t, sf);
        if ren.is_empty() { t } else { rename_idents(&t, &ren) }
    };
    c.sig = subst_params(&c.sig, sf);
    c.start = fix(&c.start);
    c.tail = fix(&c.tail);
    for v in c.loops.values_mut() { v.1 = fix(&v.1); }
    for v in c.loop_start.values_mut() { *v = fix(v); }
    for v in c.loop_end.values_mut() { *v = fix(v); }
    for v in c.rets.values_mut() { *v = fix(v); }
    for v in c.closures.values_mut() { *v = fix(v); }
    for v in c.after.iter_mut() { v.1 = fix(&v.1); v.0 = rename_idents(&v.0, &ren); }
    for v in c.before.iter_mut() { v.1 = fix(&v.1); v.0 = rename_idents(&v.0, &ren); }
    for v in c.isolate.iter_mut() { v.1 = fix(&v.1); v.0 = rename_idents(&v.0, &ren); }

    let trusted = c.opts.contains_key("trusted");
    let external = skip || env.external.contains(&id);
    let mut block = sf.block.clone();
    let mut inlined = vec![];
    let mut unknown = vec![];
    if !trusted && !external {
        let mut inl = Inliner::new(env.src, sf, &env.known, &env.known_names);
        inl.do_block(&mut block, true);
        inlined = inl.inlined;
        unknown = inl.unknown;
    }
    // R12: `mut self` by value becomes `self` and a mutable local `__self`
    let mutself = sf.sig.receiver().map_or(false, |r| r.reference.is_none() && r.mutability.is_some());
    if mutself {
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
                if i == "self" {
                    *i = quote::format_ident!("__self");
                }
            }
            fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
                m.tokens = rewrite::replace_ident(m.tokens.clone(), "self", &quote::format_ident!("__self"));
            }
        }
        S.visit_block_mut(&mut block);
        block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
    }
    if let Some(f) = env.src.files.get(&srcpath) {
        crate::pattern::patterns(&mut block, f);
    }
    rewrite::own_mutexes(&mut block);
    // numbering, hints, rewriting
    let mut num = Numbering { kinds: env.kinds.clone(), ..Numbering::default() };
    for a in &sf.sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                num.kinds.insert(format!("let {}", i.ident), rewrite::kind_of_type(&t.ty));
            }
        }
    }
    num.visit_block_mut(&mut block);
    for (n, (k, _)) in &c.loops {
        match num.loops.get(*n) {
            None => lost.push(format!("loop {} is gone", n)),
            Some(_) => { let _ = k; }
        }
    }
    for n in c.closures.keys() {
        if *n >= num.closures {
            lost.push(format!("closure {} is gone", n));
        }
    }
    hints(&mut block, &c, &mut lost);
    place_start_tail(&mut block, &c, env.vacuity == 2 && !trusted && !external);
    // only the preconditions are probed
    if env.vacuity == 1 && !trusted && !external {
        let opaque = !c.opts.contains_key("rettype") && matches!(&sf.sig.output, syn::ReturnType::Type(_, t) if quote!(#t).to_string().split(|a: char| !a.is_alphanumeric()).any(|w| w == "impl"));
        if opaque {
            block.stmts.insert(0, rewrite::stmt_verb(quote!(proof { assert(false); })));
        } else {
            block.stmts = vec![rewrite::stmt_verb(quote!(proof { assert(false); } crate::shim::never()))];
        }
    }
    let in_world = c.opts.contains_key("world");
    if in_world {
        rewrite::World(&env.world, &srcpath).visit_block_mut(&mut block);
    }
    let mut cx = Ctx { contract: &c, repo_types: &env.repo_types, sizes: &env.sizes, lost: vec![], used: BTreeSet::new(), n: 0, locks: vec![], option: matches!(&sf.sig.output, syn::ReturnType::Type(_, t) if rewrite::norm_ty(t).starts_with("Option<")), intos: intos(&sf.sig) };
    cx.visit_block_mut(&mut block);
    lost.extend(cx.lost);
    let mut bare = vec![];
    let body = rewrite::bare_closures(block.to_token_stream(), &mut bare);
    lost.extend(bare.iter().map(|n| format!("closure {} has no contract", n)));

    // collect referenced constants
    collect_idents(block.to_token_stream(), referenced);
    if let Some(t) = &sf.self_ty {
        let own: Vec<String> = referenced.iter().map(|r| format!("{}::{}", t, r)).collect();
        referenced.extend(own);
    }

    // signature
    let sig = &sf.sig;
    let name = match c.opts.get("as") {
        Some(n) => quote::format_ident!("{}", n),
        None => sig.ident.clone(),
    };
    let mut inputs = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let mut r = r.clone();
                r.attrs.clear();
                if r.reference.is_none() {
                    r.mutability = None;
                }
                inputs.push(r.to_token_stream());
            }
            FnArg::Typed(t) => {
                let (p, ty) = (&t.pat, &t.ty);
                let idx = inputs.len() + 1 - sig.receiver().is_some() as usize;
                match c.opts.get(&format!("ty{}", idx)) {
                    Some(x) => {
                        let x = rewrite::tokens(x);
                        inputs.push(quote!(#p: #x))
                    }
                    None => inputs.push(quote!(#p: #ty)),
                }
            }
        }
    }
    if in_world {
        inputs.push(quote!(world: &mut crate::shim::world::World));
    }
    let rname = c.opts.get("ret").cloned().unwrap_or_else(|| "r".into());
    let ret = match (&sig.output, c.opts.get("rettype")) {
        (_, Some(t)) => format!("-> ({}: {})", rname, t.replace('~', " ")),
        (ReturnType::Default, None) => String::new(),
        (ReturnType::Type(_, t), None) => format!("-> ({}: {})", rname, norm_ty(t)),
    };
    let gen = match c.opts.get("generics") {
        Some(g) => g.replace('~', " "),
        None => sig.generics.params.to_token_stream().to_string(),
    };
    let gen = if gen.is_empty() { String::new() } else { format!("<{}>", gen) };
    let wh = match c.opts.get("where") {
        Some(w) => w.replace('~', " "),
        None if c.opts.contains_key("generics") => String::new(),
        None => sig.generics.where_clause.to_token_stream().to_string(),
    };
    let mut head = String::new();
    let start_line;
    let wrap = !in_impl && sf.imp.is_some();
    if wrap {
        let imp = sf.imp.as_ref().unwrap();
        let (ig, it, iw) = (&imp.generics.params, &imp.self_ty, &imp.generics.where_clause);
        let h = match c.opts.get("impl") {
            Some(h) => format!("impl{}", h.replace('~', " ")),
            None => format!("impl<{}> {} {}", ig.to_token_stream(), it.to_token_stream(), iw.to_token_stream()),
        };
        out.put(&format!("{} {{\n", h));
    }
    start_line = out.line;
    head.push_str(&c.attrs);
    if trusted || external {
        head.push_str("#[verifier::external_body]\n");
    } else if env.vacuity == 0 {
        // what happens in one function has no influence on the proof of another
        if c.opts.contains_key("alone") {
            head.push_str("#[verifier::spinoff_prover]\n");
        }
        if !c.attrs.contains("rlimit") {
            head.push_str("#[verifier::rlimit(30)]\n");
        }
    }
    let inputs = inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ");
    head.push_str(&format!(
        "{}fn {}{}({}) {} {}\n",
        if in_impl && c.opts.contains_key("traitfn") { "" } else { "pub " },
        name, gen, inputs, ret, wh
    ));
    head.push_str(&c.sig);
    out.put(&head);
    if trusted || external {
        out.put("{ unimplemented!() }\n");
    } else {
        out.put(&pretty(body));
    }
    out.put("\n");
    let end_line = out.line;
    if wrap {
        out.put("}\n");
    }
    let kind = if trusted { "trusted" } else if external { "external" } else { "fn" };
    out.rec(&[
        kind,
        &srcpath,
        &c0.key,
        &format!("{}-{}", start_line, end_line),
        &format!("{}-{}", sf.line, sf.end_line),
        &f.module,
        &lost.join("; "),
        &unknown.join("; "),
        &inlined.join("; "),
        &locals(&sf.block).join(","),
        c0.opts.get("trusted").map(|s| s.as_str()).unwrap_or(""),
    ]);
}

fn collect_idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => collect_idents(g.stream(), out),
            _ => {}
        }
    }
}

fn place_start_tail(b: &mut Block, c: &FnContract, vacuity: bool) {
    let mut start = rewrite::tokens(&c.start);
    let mut tail = rewrite::tokens(&c.tail);
    if vacuity {
        start = quote!(#start if crate::shim::arb() { proof { assert(false); } });
        tail = quote!(#tail if crate::shim::arb() { proof { assert(false); } });
    }
    if !tail.is_empty() {
        let n = b.stmts.len();
        let at = match b.stmts.last() {
            Some(Stmt::Expr(Expr::Verbatim(_), None)) => n,
            Some(Stmt::Expr(_, None)) => n - 1,
            _ => n,
        };
        b.stmts.insert(at, rewrite::stmt_verb(tail));
    }
    if !start.is_empty() {
        b.stmts.insert(0, rewrite::stmt_verb(start));
    }
}

/// Place `@after`/`@before` hints: `let:NAME[:k]` or `call:NAME[:k]`.
fn hints(b: &mut Block, c: &FnContract, lost: &mut Vec<String>) {
    // number calls per name
    struct N(BTreeMap<String, usize>);
    impl VisitMut for N {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let name = call_name(e);
            if let Some(n) = name {
                let k = self.0.entry(n).or_insert(0);
                let id = quote::format_ident!("vcall");
                let l = proc_macro2::Literal::usize_unsuffixed(*k);
                *k += 1;
                let a: syn::Attribute = syn::parse_quote!(#[#id(#l)]);
                match e {
                    Expr::Call(c) => c.attrs.push(a),
                    Expr::MethodCall(m) => m.attrs.push(a),
                    _ => {}
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    N(BTreeMap::new()).visit_block_mut(b);
    for (anchor, text) in &c.after {
        if !place(b, anchor, text, true) {
            lost.push(format!("hint anchor {}", anchor));
        }
    }
    for (anchor, text) in &c.before {
        if !place(b, anchor, text, false) {
            lost.push(format!("hint anchor {}", anchor));
        }
    }
    for (n, (anchor, _)) in c.isolate.iter().enumerate() {
        let mut i = Isolate { anchor: anchor.split(':').collect(), n, done: false };
        i.visit_block_mut(b);
        if !i.done {
            lost.push(format!("hint anchor {}", anchor));
        }
    }
    Clean.visit_block_mut(b);
}

struct Clean;
impl VisitMut for Clean {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => c.attrs.retain(|a| !a.path().is_ident("vcall")),
            Expr::MethodCall(m) => m.attrs.retain(|a| !a.path().is_ident("vcall")),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// R16: `S` becomes `loop CONTRACT { S break; }`, which runs S once and makes the verifier check
/// S on its own against CONTRACT. S has to be an expression statement without jumps to an
/// enclosing loop.
struct Isolate<'x> {
    anchor: Vec<&'x str>,
    n: usize,
    done: bool,
}
impl<'x> VisitMut for Isolate<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.done {
            return;
        }
        let k = self.anchor.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if !matches!(s, Stmt::Expr(..)) || !stmt_has(s, self.anchor[0], self.anchor.get(1).copied().unwrap_or(""), k) {
                continue;
            }
            let plain = matches!(s, Stmt::Expr(_, Some(_))) || (i + 1 < n && matches!(s, Stmt::Expr(Expr::If(_), None)));
            if !plain || jumps(s) {
                return;
            }
            Clean.visit_stmt_mut(s);
            let mut l: syn::ExprLoop = syn::parse_quote!(loop { #s break; });
            l.attrs = vec![rewrite::mark("visolate", self.n)];
            *s = Stmt::Expr(Expr::Loop(l), None);
            self.done = true;
            return;
        }
    }
}
fn jumps(s: &Stmt) -> bool {
    use syn::visit::Visit;
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_stmt(s);
    v.0
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}

fn stmt_has(s: &Stmt, kind: &str, name: &str, k: usize) -> bool {
    use syn::visit::Visit;
    struct V<'x>(&'x str, usize, bool);
    impl<'a, 'x> Visit<'a> for V<'x> {
        fn visit_expr(&mut self, e: &'a Expr) {
            if call_name(e).as_deref() == Some(self.0) {
                let attrs = match e {
                    Expr::Call(c) => &c.attrs,
                    Expr::MethodCall(m) => &m.attrs,
                    _ => unreachable!(),
                };
                if rewrite::get_mark(attrs, "vcall") == Some(self.1) {
                    self.2 = true;
                }
            }
            syn::visit::visit_expr(self, e);
        }
    }
    match kind {
        "call" => {
            let mut v = V(name, k, false);
            v.visit_stmt(s);
            v.2
        }
        _ => false,
    }
}

fn place(b: &mut Block, anchor: &str, text: &str, after: bool) -> bool {
    let parts: Vec<&str> = anchor.split(':').collect();
    let kind = parts[0];
    let name = parts.get(1).copied().unwrap_or("");
    let k: usize = parts.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    struct P<'x> {
        kind: &'x str,
        name: &'x str,
        k: usize,
        seen: usize,
        text: &'x str,
        after: bool,
        done: bool,
    }
    impl<'x> VisitMut for P<'x> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            // nested blocks first (deepest statement wins)
            if self.kind == "call" {
                visit_mut::visit_block_mut(self, b);
            }
            if self.done {
                return;
            }
            let mut i = 0;
            while i < b.stmts.len() {
                let hit = match self.kind {
                    "let" => match &b.stmts[i] {
                        Stmt::Local(l) => {
                            let p = match &l.pat {
                                Pat::Type(t) => &*t.pat,
                                p => p,
                            };
                            match p {
                                Pat::Ident(id) if id.ident == self.name => {
                                    self.seen += 1;
                                    self.seen == self.k + 1
                                }
                                _ => false,
                            }
                        }
                        _ => false,
                    },
                    _ => stmt_has(&b.stmts[i], self.kind, self.name, self.k),
                };
                if hit {
                    let h = rewrite::stmt_verb(rewrite::tokens(self.text));
                    if self.after {
                        if let Stmt::Expr(e, None) = &b.stmts[i] {
                            if i + 1 == b.stmts.len() && !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
                                let e = e.clone();
                                let t = quote!(let __tail = #e;);
                                b.stmts[i] = syn::parse2(t.clone()).unwrap_or_else(|_| rewrite::stmt_verb(t));
                                b.stmts.push(h);
                                b.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__tail), None));
                                self.done = true;
                                return;
                            }
                        }
                        b.stmts.insert(i + 1, h);
                    } else {
                        b.stmts.insert(i, h);
                    }
                    self.done = true;
                    return;
                }
                if self.kind == "let" {
                    let mut s = b.stmts[i].clone();
                    self.visit_stmt_mut(&mut s);
                    b.stmts[i] = s;
                    if self.done {
                        return;
                    }
                }
                i += 1;
            }
        }
    }
    let mut p = P { kind, name, k, seen: 0, text, after, done: false };
    p.visit_block_mut(b);
    p.done
}

/// The parameters of a type that is only known to be `Into<T>`, and that `T`.
fn intos(sig: &syn::Signature) -> BTreeMap<String, syn::Type> {
    let mut bounds: BTreeMap<String, syn::Type> = BTreeMap::new();
    fn into(b: &syn::TypeParamBound) -> Option<syn::Type> {
        if let syn::TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap();
            if let (true, syn::PathArguments::AngleBracketed(a)) = (l.ident == "Into", &l.arguments) {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
        None
    }
    for p in sig.generics.type_params() {
        if let Some(t) = p.bounds.iter().find_map(into) {
            bounds.insert(p.ident.to_string(), t);
        }
    }
    for w in sig.generics.where_clause.iter().flat_map(|w| &w.predicates) {
        if let syn::WherePredicate::Type(t) = w {
            if let Some(i) = t.bounds.iter().find_map(into) {
                bounds.insert(norm(&t.bounded_ty), i);
            }
        }
    }
    let mut out = BTreeMap::new();
    for a in &sig.inputs {
        if let FnArg::Typed(a) = a {
            if let (syn::Pat::Ident(p), syn::Type::ImplTrait(t)) = (&*a.pat, &*a.ty) {
                if let Some(t) = t.bounds.iter().find_map(into) {
                    out.insert(p.ident.to_string(), t);
                }
            } else if let (syn::Pat::Ident(p), Some(t)) = (&*a.pat, bounds.get(&norm(&a.ty))) {
                out.insert(p.ident.to_string(), t.clone());
            }
        }
    }
    out
}

/// What `derive` makes of a struct: the fields are compared one after the other.
fn derive(file: &str, key: &str, it: &syn::Item, tr: &str) -> Option<crate::source::SrcFn> {
    if !all_derives(it).iter().any(|x| x == tr) {
        return None;
    }
    let s = match it {
        syn::Item::Struct(s) if s.generics.params.is_empty() => s,
        _ => return None,
    };
    let ty = &s.ident;
    let fields = s.fields.iter().enumerate().map(|(n, f)| {
        let name = match &f.ident {
            Some(i) => quote!(#i),
            None => proc_macro2::Literal::usize_unsuffixed(n).to_token_stream(),
        };
        // arrays are compared as slices
        if let syn::Type::Array(_) = f.ty { quote!(#name[..]) } else { name }
    });
    let f: syn::ItemFn = match tr {
        "PartialEq" => {
            let all = fields.map(|f| quote!((self.#f == other.#f))).reduce(|a, b| quote!(#a && #b)).unwrap_or(quote!(true));
            syn::parse_quote!(fn eq(&self, other: &#ty) -> bool { #all })
        }
        "Ord" => {
            let all = fields.rev().map(|f| quote!(self.#f.cmp(&other.#f))).reduce(|rest, f| quote!(match #f { Ordering::Equal => #rest, o => o })).unwrap_or(quote!(Ordering::Equal));
            syn::parse_quote!(fn cmp(&self, other: &#ty) -> Ordering { #all })
        }
        "PartialOrd" => {
            let all = fields.rev().map(|f| quote!(Some(self.#f.cmp(&other.#f)))).reduce(|rest, f| quote!(match #f { Some(Ordering::Equal) => #rest, o => o })).unwrap_or(quote!(Some(Ordering::Equal)));
            syn::parse_quote!(fn partial_cmp(&self, other: &#ty) -> Option<Ordering> { #all })
        }
        _ => return None,
    };
    let line = syn::spanned::Spanned::span(ty).start().line;
    Some(crate::source::SrcFn { file: file.into(), line, end_line: line, key: key.into(), imp: None, self_ty: Some(ty.to_string()), sig: f.sig, block: *f.block, believed: None })
}
