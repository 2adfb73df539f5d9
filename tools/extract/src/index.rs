//! Index of the items of the extracted crates.
use crate::cfgs::{Cfg, StripAttrs};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub enum Kind {
    Type(Item),
    Const(Item),
    Macro(ItemMacro),
    Trait(ItemTrait),
    Fn(ItemFn),
    /// index of the impl header in `impls`, and the method
    Method(usize, ImplItemFn),
}

#[derive(Clone)]
pub struct Ent {
    pub key: String,
    pub name: String,
    pub module: Vec<String>,
    pub file: String,
    pub line: usize,
    pub kind: Kind,
}

#[derive(Clone)]
pub struct ImplHdr {
    pub module: Vec<String>,
    pub self_ty: String,
    pub trait_name: Option<String>,
    pub hdr: ItemImpl,
}

#[derive(Default)]
pub struct Module {
    pub imports: BTreeMap<String, Vec<String>>,
    pub std_uses: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Index {
    pub ents: Vec<Ent>,
    pub impls: Vec<ImplHdr>,
    pub modules: BTreeMap<Vec<String>, Module>,
    pub crates: Vec<String>,
}

pub fn norm(t: &impl ToTokens) -> String {
    // drop lifetimes and blanks
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\'' {
            while let Some(n) = cs.peek() {
                if n.is_alphanumeric() || *n == '_' {
                    cs.next();
                } else {
                    break;
                }
            }
            continue;
        }
        if c == ' ' {
            continue;
        }
        out.push(c);
    }
    out.replace("<>", "").replace("<,", "<")
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => norm(t),
    }
}

fn flatten(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, Vec<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let id = n.ident.to_string();
            let mut v = pre.clone();
            if id == "self" {
                out.push((pre.last().cloned().unwrap_or_default(), v));
            } else {
                v.push(id.clone());
                out.push((id, v));
            }
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((n.rename.to_string(), v));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push(("*".into(), v));
        }
        UseTree::Group(g) => {
            for i in &g.items {
                flatten(i, pre, out);
            }
        }
    }
}

/// the types an impl is restricted to, as in `MbusData<WiredFrame>`
fn given(im: &ItemImpl) -> String {
    let Type::Path(p) = &*im.self_ty else { return String::new() };
    let Some(PathArguments::AngleBracketed(a)) = p.path.segments.last().map(|s| &s.arguments) else { return String::new() };
    let own: Vec<&Ident> = im.generics.type_params().map(|t| &t.ident).chain(im.generics.const_params().map(|c| &c.ident)).collect();
    let t: Vec<String> = a
        .args
        .iter()
        .filter_map(|x| match x {
            GenericArgument::Type(Type::Path(q)) if q.path.get_ident().is_none_or(|i| !own.contains(&i)) => q.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        })
        .collect();
    if t.is_empty() { String::new() } else { format!("<{}>", t.join(",")) }
}

struct LocalUses(Vec<ItemUse>);
impl<'a> syn::visit::Visit<'a> for LocalUses {
    fn visit_item_use(&mut self, u: &'a ItemUse) {
        self.0.push(u.clone());
    }
}

/// A parameter that is a pattern becomes a name and a `let`.
fn plain_params(sig: &mut Signature, block: &mut Block) {
    let mut lets: Vec<Stmt> = vec![];
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) {
                let n = Ident::new(&format!("__a{k}"), proc_macro2::Span::call_site());
                let p = &t.pat;
                lets.push(parse_quote! { let #p = #n; });
                *t.pat = parse_quote! { #n };
            }
        }
    }
    block.stmts.splice(0..0, lets);
}

impl Index {
    pub fn load(&mut self, repo: &str, name: &str, file: &str, cfg: &mut Cfg) -> std::result::Result<(), String> {
        self.crates.push(name.to_string());
        self.load_file(repo, file, vec![name.to_string()], cfg)
    }

    fn load_file(&mut self, repo: &str, file: &str, module: Vec<String>, cfg: &mut Cfg) -> std::result::Result<(), String> {
        let p = Path::new(repo).join(file);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
        let mut f = parse_file(&text).map_err(|e| format!("{}: {e}", p.display()))?;
        cfg.visit_file_mut(&mut f);
        StripAttrs.visit_file_mut(&mut f);
        crate::macros::Macros::default().visit_file_mut(&mut f);
        crate::macros::Closures.visit_file_mut(&mut f);
        crate::macros::Variants::default().visit_file_mut(&mut f);
        self.items(repo, file, module, f.items, cfg)
    }

    fn items(&mut self, repo: &str, file: &str, module: Vec<String>, items: Vec<Item>, cfg: &mut Cfg) -> std::result::Result<(), String> {
        self.modules.entry(module.clone()).or_default();
        // `use` inside function bodies counts for the whole module (R8)
        let mut local = LocalUses(vec![]);
        for it in &items {
            if !matches!(it, Item::Mod(_) | Item::Use(_)) {
                syn::visit::Visit::visit_item(&mut local, it);
            }
        }
        let mut items = items;
        items.extend(local.0.into_iter().map(Item::Use));
        let mp = module.join("::");
        for it in items {
            let line = it.span().start().line;
            let mk = |name: String, kind: Kind| Ent {
                key: format!("{mp}::{name}"),
                name,
                module: module.clone(),
                file: file.to_string(),
                line,
                kind,
            };
            match it {
                Item::Struct(ref s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Type(it)));
                }
                Item::Enum(ref s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Type(it)));
                }
                Item::Type(ref s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Type(it)));
                }
                Item::Const(ref s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Const(it)));
                }
                Item::Static(ref s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Const(it)));
                }
                Item::Trait(s) => {
                    let n = s.ident.to_string();
                    self.ents.push(mk(n, Kind::Trait(s)));
                }
                Item::Fn(s) => {
                    let n = s.sig.ident.to_string();
                    self.ents.push(mk(n, Kind::Fn(s)));
                }
                Item::Macro(m) => {
                    if let Some(i) = &m.ident {
                        let n = format!("{}!", i);
                        self.ents.push(mk(n, Kind::Macro(m)));
                    } else if m.mac.path.segments.last().map(|s| s.ident == "bitflags").unwrap_or(false) {
                        // bitflags! { pub struct NAME: u8 { ... } }
                        let toks: Vec<_> = m.mac.tokens.clone().into_iter().collect();
                        for w in toks.windows(2) {
                            if w[0].to_string() == "struct" {
                                let n = w[1].to_string();
                                self.ents.push(mk(n, Kind::Macro(m.clone())));
                            }
                        }
                    }
                }
                Item::Impl(mut im) => {
                    let items = std::mem::take(&mut im.items);
                    let self_ty = type_name(&im.self_ty);
                    let keyed = self_ty.clone() + &given(&im);
                    let trait_name = im.trait_.as_ref().map(|(_, p, _)| norm(&p.segments.last().unwrap()));
                    let idx = self.impls.len();
                    let mut methods = vec![];
                    for i in items {
                        match i {
                            ImplItem::Fn(mut f) => {
                                plain_params(&mut f.sig, &mut f.block);
                                methods.push(f)
                            }
                            other => im.items.push(other),
                        }
                    }
                    // the provided method of the standard library
                    if trait_name.as_deref() == Some("ExactSizeIterator") && methods.is_empty() {
                        methods.push(parse_quote! { fn len(&self) -> usize { let (lower, _upper) = self.size_hint(); lower } });
                    }
                    self.impls.push(ImplHdr {
                        module: module.clone(),
                        self_ty: self_ty.clone(),
                        trait_name: trait_name.clone(),
                        hdr: im,
                    });
                    for f in methods {
                        let n = f.sig.ident.to_string();
                        let key = match &trait_name {
                            Some(t) => format!("{mp}::{keyed}::{t}::{n}"),
                            None => format!("{mp}::{keyed}::{n}"),
                        };
                        let line = f.sig.span().start().line;
                        self.ents.push(Ent {
                            key,
                            name: n,
                            module: module.clone(),
                            file: file.to_string(),
                            line,
                            kind: Kind::Method(idx, f),
                        });
                    }
                }
                Item::Mod(m) => {
                    let mut sub = module.clone();
                    sub.push(m.ident.to_string());
                    match m.content {
                        Some((_, items)) => self.items(repo, file, sub, items, cfg)?,
                        None => {
                            let dir = Path::new(file).parent().unwrap();
                            let stem = Path::new(file).file_stem().unwrap().to_string_lossy().to_string();
                            let c1 = if stem == "lib" || stem == "mod" || stem == "main" {
                                dir.join(format!("{}.rs", m.ident))
                            } else {
                                dir.join(&stem).join(format!("{}.rs", m.ident))
                            };
                            let c2 = c1.with_extension("").join("mod.rs");
                            let pick = if Path::new(repo).join(&c1).exists() { c1 } else { c2 };
                            if Path::new(repo).join(&pick).exists() {
                                self.load_file(repo, &pick.to_string_lossy(), sub, cfg)?;
                            }
                        }
                    }
                }
                Item::Use(u) => {
                    let mut out = vec![];
                    flatten(&u.tree, &mut vec![], &mut out);
                    for (n, p) in out {
                        let abs = self.absolute(&module, &p);
                        let m = self.modules.get_mut(&module).unwrap();
                        match abs {
                            // an import of the module itself wins over a local one
                            Some(_) if m.imports.contains_key(&n) => {}
                            Some(a) => {
                                if n == "*" {
                                    m.imports.insert(format!("*{}", a.join("::")), a);
                                } else {
                                    m.imports.insert(n, a);
                                }
                            }
                            None => {
                                m.std_uses.insert(n, p.join("::"));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// Absolute path of a use path, None for std and foreign crates.
    pub fn absolute(&self, module: &[String], p: &[String]) -> Option<Vec<String>> {
        let mut v: Vec<String>;
        match p[0].as_str() {
            "crate" => {
                v = vec![module[0].clone()];
                v.extend_from_slice(&p[1..]);
            }
            "self" => {
                v = module.to_vec();
                v.extend_from_slice(&p[1..]);
            }
            "super" => {
                let mut k = 0;
                while k < p.len() && p[k] == "super" {
                    k += 1;
                }
                if k > module.len() {
                    return None;
                }
                v = module[..module.len() - k].to_vec();
                v.extend_from_slice(&p[k..]);
            }
            x if self.crates.iter().any(|c| c == x) => v = p.to_vec(),
            "std" | "core" | "alloc" => return None,
            x => {
                // child module of this module?
                let mut c = module.to_vec();
                c.push(x.to_string());
                v = module.to_vec();
                v.extend_from_slice(p);
                if matches!(x, "arrayvec" | "bitflags" | "aes" | "cbc" | "cipher" | "serde" | "hex") {
                    return None;
                }
            }
        }
        Some(v)
    }

    /// Entities named by `path` (already split) as seen from `module`.
    pub fn resolve(&self, module: &[String], path: &[String]) -> Option<Vec<String>> {
        self.resolve_n(module, path, 0)
    }

    fn resolve_n(&self, module: &[String], path: &[String], depth: usize) -> Option<Vec<String>> {
        if depth > 6 || path.is_empty() {
            return None;
        }
        let head = &path[0];
        if matches!(head.as_str(), "crate" | "self" | "super") || self.crates.contains(head) {
            let a = self.absolute(module, path)?;
            return self.canon(&a, depth);
        }
        // item or submodule of the module
        if self.has(module, head) || self.modules.contains_key(&[module, &[head.clone()]].concat()) {
            let a = [module, path].concat();
            return self.canon(&a, depth);
        }
        let m = self.modules.get(module)?;
        if let Some(t) = m.imports.get(head) {
            let a = [t.as_slice(), &path[1..]].concat();
            return self.canon(&a, depth);
        }
        for (k, t) in &m.imports {
            if k.starts_with('*') {
                let base = &t[..t.len() - 1];
                if self.has(base, head) {
                    let a = [base, path].concat();
                    return self.canon(&a, depth);
                }
            }
        }
        None
    }

    fn has(&self, module: &[String], name: &str) -> bool {
        self.ents.iter().any(|e| {
            e.module == module && e.name == name && !matches!(e.kind, Kind::Method(..))
        })
    }

    /// Follows re-exports; the result starts with an existing module path + item.
    fn canon(&self, a: &[String], depth: usize) -> Option<Vec<String>> {
        // longest module prefix
        let mut n = a.len();
        while n > 0 && !self.modules.contains_key(&a[..n].to_vec()) {
            n -= 1;
        }
        if n == 0 {
            return None;
        }
        if n == a.len() {
            return Some(a.to_vec());
        }
        if self.has(&a[..n], &a[n]) {
            return Some(a.to_vec());
        }
        let m = &self.modules[&a[..n].to_vec()];
        if let Some(t) = m.imports.get(&a[n]) {
            let b = [t.as_slice(), &a[n + 1..]].concat();
            if b == a {
                return None;
            }
            return self.canon(&b, depth + 1);
        }
        None
    }
}
