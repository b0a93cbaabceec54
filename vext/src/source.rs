//! The repository's source: every non-test item, by module.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{Attribute, ImplItem, Item};

#[derive(Clone)]
pub struct SrcFn {
    pub file: String,
    pub line: usize,
    pub end_line: usize,
    pub key: String,
    /// `impl<..> Trait for Type where ..` of the enclosing impl, if any
    pub imp: Option<syn::ItemImpl>,
    pub self_ty: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    /// its name in the source, when it is only believed to be the function with this key
    pub believed: Option<String>,
}

pub struct SrcFile {
    pub path: String,
    pub structs: BTreeMap<String, syn::Item>,
    pub consts: BTreeMap<String, (syn::Type, syn::Expr)>,
    pub fns: BTreeMap<String, SrcFn>,
    pub statics: BTreeMap<String, syn::ItemStatic>,
}

pub struct Source {
    pub files: BTreeMap<String, SrcFile>,
}

pub fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

fn is_cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(a);
        s == "#[test]" || s.contains("cfg(test)") || s.contains("rusty_git_verif") || s.contains("cfg(windows)") || s.contains("cfg(not(unix))")
            || (s.starts_with("#[cfg(") && s.contains("test") && !s.contains("not(test)"))
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => norm(t),
    }
}

impl Source {
    pub fn load(repo: &str) -> Result<Source, String> {
        let mut files = BTreeMap::new();
        let root = format!("{}/src", repo);
        let mut stack = vec![std::path::PathBuf::from(&root)];
        while let Some(d) = stack.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| format!("{}: {}", d.display(), e))? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() {
                    stack.push(p);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    let rel = format!("src/{}", p.strip_prefix(&root).unwrap().display());
                    let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
                    let mut f = SrcFile { path: rel.clone(), structs: BTreeMap::new(), consts: BTreeMap::new(), fns: BTreeMap::new(), statics: BTreeMap::new() };
                    items(&ast.items, &mut f, "");
                    files.insert(rel, f);
                }
            }
        }
        Ok(Source { files })
    }
}

fn name(key: &str) -> &str {
    key.rsplit(|c| c == '/' || c == ':').next().unwrap()
}

impl Source {
    /// Functions that moved within their file (out of a function or an impl, or into one), or that got
    /// another name, are found again: `wanted` are the functions with a contract, as (file, key).
    /// Returns the pairs (new name, name in the contract), whose uses have to be renamed as well.
    pub fn adopt(&mut self, wanted: &[(String, String)]) -> Vec<(String, String, String)> {
        let mut renamed = vec![];
        let all: Vec<(String, String)> = self.files.iter().flat_map(|(p, f)| f.fns.keys().map(move |k| (p.clone(), k.clone()))).collect();
        let has = |p: &str, k: &str| wanted.iter().any(|(a, b)| a == p && b == k);
        for (path, key) in wanted {
            let here: Vec<&String> = all.iter().filter(|(p, _)| p == path).map(|(_, k)| k).collect();
            if here.is_empty() || here.iter().any(|k| *k == key) || key.starts_with('<') {
                continue;
            }
            let free: Vec<&String> = here.iter().filter(|k| !has(path, k) && !k.starts_with('<')).cloned().collect();
            // moved
            let same: Vec<&&String> = free.iter().filter(|k| name(k) == name(key)).collect();
            if same.len() == 1 {
                let mut f = self.files.get_mut(path).unwrap().fns.remove(*same[0]).unwrap();
                f.key = key.clone();
                if key.contains('/') || !key.contains("::") {
                    if f.sig.receiver().is_some() {
                        self.files.get_mut(path).unwrap().fns.insert((*same[0]).clone(), f);
                        continue;
                    }
                    f.imp = None;
                }
                self.files.get_mut(path).unwrap().fns.insert(key.clone(), f);
                continue;
            }
            // renamed: the only new function of the impl, in place of the only one that is gone
            let parent = |k: &str| k[..k.len() - name(k).len()].to_string();
            let gone = wanted.iter().filter(|(p, k)| p == path && parent(k) == parent(key) && !here.contains(&k)).count();
            let new: Vec<&&String> = free.iter().filter(|k| parent(k) == parent(key)).collect();
            if gone != 1 || new.is_empty() {
                continue;
            }
            let of_old: Vec<&&&String> = new.iter().filter(|k| !all.iter().any(|(p, x)| (p != path || x != **k.to_owned()) && name(x) == name(k))).collect();
            if of_old.len() != 1 {
                continue;
            }
            let k = (**of_old[0]).clone();
            let mut f = self.files.get_mut(path).unwrap().fns.remove(&k).unwrap();
            f.key = key.clone();
            f.believed = Some(name(&k).to_string());
            renamed.push((path.clone(), name(&k).to_string(), name(key).to_string()));
            self.files.get_mut(path).unwrap().fns.insert(key.clone(), f);
        }
        for (_, new, old) in &renamed {
            let old = proc_macro2::Ident::new(old, proc_macro2::Span::call_site());
            for f in self.files.values_mut() {
                for g in f.fns.values_mut() {
                    let ts = crate::rewrite::replace_ident(g.block.to_token_stream(), new, &old);
                    if let Ok(b) = syn::parse2(ts) {
                        g.block = b;
                    }
                    if g.sig.ident == new.as_str() {
                        g.sig.ident = old.clone();
                    }
                }
            }
        }
        renamed
    }
}

fn add_fn(f: &mut SrcFile, key: String, imp: Option<&syn::ItemImpl>, self_ty: Option<String>, sig: &syn::Signature, block: &syn::Block) {
    let mut block = block.clone();
    // hoist nested fn items
    let mut keep = vec![];
    for s in block.stmts.drain(..) {
        match s {
            syn::Stmt::Item(Item::Fn(n)) => {
                add_fn(f, format!("{}/{}", key, n.sig.ident), None, None, &n.sig, &n.block);
            }
            s => keep.push(s),
        }
    }
    block.stmts = keep;
    let line = sig.ident.span().start().line;
    let end_line = block.brace_token.span.close().end().line;
    f.fns.insert(
        key.clone(),
        SrcFn { file: f.path.clone(), line, end_line, key, imp: imp.cloned(), self_ty, sig: sig.clone(), block, believed: None },
    );
}

fn items(list: &[Item], f: &mut SrcFile, prefix: &str) {
    for it in list {
        match it {
            Item::Fn(x) if !is_cfg_out(&x.attrs) => {
                add_fn(f, format!("{}{}", prefix, x.sig.ident), None, None, &x.sig, &x.block)
            }
            Item::Struct(x) if !is_cfg_out(&x.attrs) => {
                f.structs.insert(x.ident.to_string(), it.clone());
            }
            Item::Enum(x) if !is_cfg_out(&x.attrs) => {
                f.structs.insert(x.ident.to_string(), it.clone());
            }
            Item::Type(x) if !is_cfg_out(&x.attrs) => {
                f.structs.insert(x.ident.to_string(), it.clone());
            }
            Item::Const(x) if !is_cfg_out(&x.attrs) => {
                f.consts.insert(x.ident.to_string(), ((*x.ty).clone(), (*x.expr).clone()));
            }
            Item::Static(x) if !is_cfg_out(&x.attrs) => {
                f.statics.insert(x.ident.to_string(), x.clone());
            }
            Item::Mod(m) if !is_cfg_out(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    items(its, f, prefix);
                }
            }
            Item::Impl(x) if !is_cfg_out(&x.attrs) => {
                let ty = type_name(&x.self_ty);
                for ii in &x.items {
                    match ii {
                        ImplItem::Fn(m) if !is_cfg_out(&m.attrs) => {
                            let key = match &x.trait_ {
                                Some((_, p, _)) => format!("<{} for {}>::{}", norm(p), ty, m.sig.ident),
                                None => format!("{}::{}", ty, m.sig.ident),
                            };
                            add_fn(f, key, Some(x), Some(ty.clone()), &m.sig, &m.block);
                        }
                        ImplItem::Const(c) => {
                            f.consts.insert(format!("{}::{}", ty, c.ident), (c.ty.clone(), c.expr.clone()));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
