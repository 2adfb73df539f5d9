//! Selection of items and printing of the Verus file.
use crate::cfgs::Cfg;
use crate::contract::{self, Contract};
use crate::desugar::{owned_of, Desugar, LoopInfo};
use crate::index::{Ent, Index, Kind};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

#[derive(Default)]
struct Plan {
    crates: Vec<(String, String, Vec<String>)>,
    contracts: Vec<String>,
    specs: Vec<(String, String)>, // (placement, file)
    verify: Vec<String>,
    assume: BTreeSet<String>,
    exclude: BTreeSet<String>,
    extra: Vec<String>,
    structural: BTreeSet<String>,
    nonstructural: BTreeSet<String>,
    lemmas: Vec<String>,
    property: String,
    /// extra glob imports of every module
    globs: Vec<String>,
    /// library functions replaced by wrappers with an assumed contract (spec/dep.rs)
    shim_paths: BTreeMap<String, String>,
    shim_methods: BTreeMap<String, String>,
    opaque_types: BTreeSet<String>,
    /// `drop`: R15 on every extracted body
    format: String,
}

fn read_plan(base: &str, file: &str) -> Res<Plan> {
    let mut p = Plan::default();
    read_plan_into(base, file, &mut p)?;
    Ok(p)
}

fn read_plan_into(base: &str, file: &str, p: &mut Plan) -> Res<()> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (k, rest) = l.split_once(' ').ok_or(format!("{file}: bad line {l}"))?;
        let rest = rest.trim();
        match k {
            "include" => read_plan_into(base, &format!("{base}/{rest}"), p)?,
            "crate" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                p.crates.push((
                    w[0].into(),
                    w[1].into(),
                    w.get(2).map(|f| f.split(',').map(String::from).collect()).unwrap_or_default(),
                ));
            }
            "shim" => {
                let w: Vec<&str> = rest.split_whitespace().collect();
                match w[0] {
                    "path" => p.shim_paths.insert(w[1].into(), w[2].into()),
                    _ => p.shim_methods.insert(w[1].into(), w[2].into()),
                };
            }
            "format" => p.format = rest.into(),
            "glob" => p.globs.push(rest.into()),
            "property" => p.property = rest.into(),
            "contracts" => p.contracts.push(format!("{base}/{rest}")),
            "spec" => p.specs.push(("verus".into(), format!("{base}/{rest}"))),
            "dep" => p.specs.push(("dep".into(), format!("{base}/{rest}"))),
            "plain" => p.specs.push(("plain".into(), format!("{base}/{rest}"))),
            "verify" => p.verify.push(rest.into()),
            "assume" => {
                p.assume.insert(rest.into());
            }
            "exclude" => {
                p.exclude.insert(rest.into());
            }
            "extra" => p.extra.push(rest.into()),
            "structural" => {
                p.structural.insert(rest.into());
            }
            "nonstructural" => {
                p.nonstructural.insert(rest.into());
            }
            "lemma" => p.lemmas.push(rest.into()),
            "opaque" => {
                p.opaque_types.insert(rest.into());
            }
            _ => return Err(format!("{file}: unknown directive {k}")),
        }
    }
    Ok(())
}

#[derive(Default)]
struct Refs {
    paths: Vec<Vec<String>>,
    methods: BTreeSet<String>,
    macros: BTreeSet<String>,
    idents: BTreeSet<String>,
    question: bool,
}
impl Refs {
    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        // idents and paths inside macro invocations
        let mut cur: Vec<String> = vec![];
        let mut colons = 0;
        let mut dot = false;
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.to_string();
                    self.idents.insert(s.clone());
                    if dot {
                        self.methods.insert(s.clone());
                    }
                    dot = false;
                    if colons == 2 && !cur.is_empty() {
                        cur.push(s);
                    } else {
                        if !cur.is_empty() {
                            self.paths.push(std::mem::take(&mut cur));
                        }
                        cur.push(s);
                    }
                    colons = 0;
                }
                proc_macro2::TokenTree::Punct(p) => {
                    if p.as_char() == ':' {
                        colons += 1;
                    } else {
                        if p.as_char() == '!' {
                            if let Some(l) = cur.last() {
                                self.macros.insert(l.clone());
                            }
                        }
                        colons = 0;
                        if !cur.is_empty() {
                            self.paths.push(std::mem::take(&mut cur));
                        }
                    }
                    dot = p.as_char() == '.';
                }
                proc_macro2::TokenTree::Group(g) => {
                    if !cur.is_empty() {
                        self.paths.push(std::mem::take(&mut cur));
                    }
                    colons = 0;
                    dot = false;
                    self.tokens(g.stream());
                }
                _ => {
                    colons = 0;
                    dot = false;
                }
            }
        }
        if !cur.is_empty() {
            self.paths.push(cur);
        }
    }
}
impl<'a> Visit<'a> for Refs {
    fn visit_path(&mut self, p: &'a syn::Path) {
        self.paths.push(p.segments.iter().map(|s| s.ident.to_string()).collect());
        for s in &p.segments {
            self.idents.insert(s.ident.to_string());
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.methods.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        // a loop over a cloned iterator calls its `next`
        if f.expr.to_token_stream().to_string().contains(". clone ()") {
            self.methods.insert("next".into());
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_try(&mut self, m: &'a ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, m);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Some(s) = m.path.segments.last() {
            self.macros.insert(s.ident.to_string());
        }
        self.tokens(m.tokens.clone());
    }
}

/// Path rewriting: crate names become modules of the generated crate.
struct Paths<'a> {
    crates: &'a [String],
    krate: String,
    shim_paths: &'a BTreeMap<String, String>,
    shim_methods: &'a BTreeMap<String, String>,
}
impl VisitMut for Paths<'_> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if let Some(n) = self.shim_methods.get(&m.method.to_string()) {
            m.method = format_ident(n);
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 {
            let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(n) = self.shim_paths.get(&full) {
                let id = format_ident(n);
                *p = parse_quote! { crate::dep::#id };
                return;
            }
        }
        if p.segments.len() > 1 {
            let h = p.segments[0].ident.to_string();
            let second = p.segments[1].ident.to_string();
            if h == "crate" && (self.crates.contains(&second) || second == "dep") {
                // already rewritten
            } else if h == "crate" {
                let k = format_ident(&self.krate);
                let segs: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                let mut np: syn::Path = parse_quote! { crate::#k };
                for s in segs {
                    np.segments.push(s);
                }
                *p = np;
            } else if self.crates.contains(&h) {
                let segs: Vec<_> = p.segments.iter().cloned().collect();
                let mut np: syn::Path = parse_quote! { crate };
                for s in segs {
                    np.segments.push(s);
                }
                *p = np;
            } else if h == "arrayvec" {
                let segs: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                let mut np: syn::Path = parse_quote! { crate::dep };
                for s in segs {
                    np.segments.push(s);
                }
                *p = np;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

/// associated types of a trait impl written out when a method leaves the impl
struct Assoc<'a>(&'a [ImplItem]);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                for i in self.0 {
                    if let ImplItem::Type(a) = i {
                        if a.ident == p.path.segments[1].ident {
                            *t = a.ty.clone();
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct MakePub;
impl VisitMut for MakePub {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote! { pub };
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        e.vis = parse_quote! { pub };
    }
    fn visit_block_mut(&mut self, _b: &mut Block) {}
}

struct FnOut {
    key: String,
    fid: usize,
    mode: &'static str, // verify | assume | helper
    ret_ty: String,
    loops: Vec<LoopInfo>,
    /// the body shifts or masks numbers
    bits: bool,
    file: String,
    src_line: usize,
    #[allow(dead_code)]
    notes: BTreeSet<String>,
}

pub fn run(repo: &str, base: &str, plan_file: &str, property: &str, smoke: bool) -> Res<(String, String)> {
    let mut plan = read_plan(base, plan_file)?;
    if !property.is_empty() {
        plan.property = property.into();
    }
    // types a specification file speaks about: `//@need KEY`
    for (_, f) in &plan.specs {
        let t = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
        for l in t.lines() {
            if let Some(k) = l.strip_prefix("//@need ") {
                plan.extra.push(k.trim().into());
            }
        }
    }
    let plan = plan;
    let mut ix = Index::default();
    for (n, _, _) in &plan.crates {
        ix.crates.push(n.clone());
    }
    let names = ix.crates.clone();
    for (n, f, feats) in &plan.crates {
        let mut cfg = Cfg { features: feats.iter().cloned().collect() };
        ix.load(repo, n, f, &mut cfg)?;
    }
    ix.crates = names.clone();
    if plan.format == "exact" {
        crate::desugar::FIELDS.with(|r| {
            let mut r = r.borrow_mut();
            for e in &ix.ents {
                if let Kind::Type(Item::Struct(s)) = &e.kind {
                    for f in &s.fields {
                        if let Some(i) = &f.ident {
                            // 1: an Option, 2: something else with methods of the same names, 0: neither
                            let o = if crate::desugar::is_opt_ty(&f.ty) {
                                1
                            } else if matches!(&f.ty, Type::Path(p) if !p.path.segments.last().is_some_and(|s| s.ident == "Result")) || matches!(&f.ty, Type::Reference(_)) {
                                0
                            } else {
                                2
                            };
                            r.entry(i.to_string()).and_modify(|x| *x = o.max(*x)).or_insert(o);
                        }
                    }
                }
            }
        });
        crate::desugar::RETURNS.with(|r| {
            let mut r = r.borrow_mut();
            for e in &ix.ents {
                let sig = match &e.kind {
                    Kind::Fn(f) => &f.sig,
                    Kind::Method(_, f) => &f.sig,
                    _ => continue,
                };
                let t = match &sig.output {
                    ReturnType::Type(_, t) => Some((**t).clone()),
                    _ => None,
                };
                let opt = |t: &Option<Type>| t.as_ref().is_some_and(|t| quote::ToTokens::to_token_stream(t).to_string().starts_with("Option"));
                let n = sig.ident.to_string();
                match r.get(&n).cloned() {
                    None => {
                        r.insert(n, t);
                    }
                    Some(o) if o == t || (opt(&o) && opt(&t)) => {}
                    Some(_) => {
                        r.insert(n, None);
                    }
                }
            }
        });
        let mut tables = crate::tables::Tables::default();
        for e in &ix.ents {
            if let Kind::Const(it) = &e.kind {
                tables.add(it);
            }
        }
        for e in &mut ix.ents {
            match &mut e.kind {
                Kind::Fn(f) => tables.visit_block_mut(&mut f.block),
                Kind::Method(_, f) => tables.visit_block_mut(&mut f.block),
                _ => {}
            }
        }
        for e in &mut ix.ents {
            match &mut e.kind {
                Kind::Fn(f) => crate::text::Exact::new(&f.sig).function(&mut f.sig, &mut f.block),
                Kind::Method(_, f) => crate::text::Exact::new(&f.sig).function(&mut f.sig, &mut f.block),
                _ => {}
            }
        }
    }
    if plan.format == "drop" {
        for e in &mut ix.ents {
            match &mut e.kind {
                Kind::Fn(f) => crate::text::Drop.visit_block_mut(&mut f.block),
                Kind::Method(_, f) => crate::text::Drop.visit_block_mut(&mut f.block),
                _ => {}
            }
        }
    }
    let mut contracts = BTreeMap::new();
    for c in &plan.contracts {
        let t = std::fs::read_to_string(c).map_err(|e| format!("{c}: {e}"))?;
        contract::parse(c, &t, &plan.property, &mut contracts)?;
    }

    // ---- closure -----------------------------------------------------
    let mut mode: BTreeMap<usize, &'static str> = BTreeMap::new(); // fns
    let mut sel: BTreeSet<usize> = BTreeSet::new(); // everything
    let mut work: Vec<usize> = vec![];
    let mut lost: Vec<String> = vec![];
    let find = |k: &str| ix.ents.iter().position(|e| e.key == k);
    for k in &plan.verify {
        match find(k) {
            Some(i) => {
                mode.insert(i, "verify");
                if sel.insert(i) {
                    work.push(i);
                }
            }
            None => lost.push(format!("function {k} not found")),
        }
    }
    for k in &plan.extra {
        match find(k) {
            Some(i) => {
                if sel.insert(i) {
                    work.push(i);
                }
            }
            None => lost.push(format!("item {k} not found")),
        }
    }
    let mut methods: BTreeSet<String> = BTreeSet::new();
    let mut question = false;
    loop {
        while let Some(i) = work.pop() {
            let e = &ix.ents[i];
            let mut r = Refs::default();
            match &e.kind {
                Kind::Type(it) | Kind::Const(it) => r.visit_item(it),
                Kind::Macro(m) => {
                    r.tokens(m.mac.tokens.clone());
                }
                Kind::Trait(t) => r.visit_item_trait(t),
                Kind::Fn(f) => {
                    let m = *mode.entry(i).or_insert_with(|| pick_mode(&plan, &contracts, &e.key));
                    r.visit_signature(&f.sig);
                    if m != "assume" {
                        r.visit_block(&f.block);
                    }
                }
                Kind::Method(h, f) => {
                    let m = *mode.entry(i).or_insert_with(|| pick_mode(&plan, &contracts, &e.key));
                    r.visit_signature(&f.sig);
                    if m != "assume" {
                        r.visit_block(&f.block);
                    }
                    let hd = &ix.impls[*h].hdr;
                    r.visit_item_impl(hd);
                }
            }
            methods.extend(r.methods.iter().cloned());
            question |= r.question;
            let self_ty = if let Kind::Method(h, _) = &e.kind { Some(ix.impls[*h].self_ty.clone()) } else { None };
            for m in &r.macros {
                if let Some(j) = ix.ents.iter().position(|x| x.name == format!("{m}!") && x.module == e.module) {
                    if sel.insert(j) {
                        work.push(j);
                    }
                }
            }
            for p in &r.paths {
                let mut p = p.clone();
                if p[0] == "Self" {
                    if let Some(s) = &self_ty {
                        p[0] = s.clone();
                    }
                }
                if let Some(a) = ix.resolve(&e.module, &p) {
                    let mut n = a.len();
                    while n > 0 && !ix.modules.contains_key(&a[..n].to_vec()) {
                        n -= 1;
                    }
                    if n < a.len() {
                        for (j, x) in ix.ents.iter().enumerate() {
                            let hit = if let Kind::Method(h, _) = &x.kind {
                                n + 1 < a.len() && x.name == a[n + 1] && ix.impls[*h].self_ty == a[n]
                            } else {
                                x.module == a[..n] && x.name == a[n]
                            };
                            if hit && !plan.exclude.contains(&x.key) && sel.insert(j) {
                                work.push(j);
                            }
                        }
                    }
                }
            }
        }
        // methods of selected types that are called by name
        let types: BTreeSet<String> = sel
            .iter()
            .filter(|i| matches!(ix.ents[**i].kind, Kind::Type(_) | Kind::Macro(_)))
            .map(|i| ix.ents[*i].name.clone())
            .collect();
        let traits: BTreeSet<String> = sel
            .iter()
            .filter(|i| matches!(ix.ents[**i].kind, Kind::Trait(_)))
            .map(|i| ix.ents[*i].name.clone())
            .collect();
        for (j, x) in ix.ents.iter().enumerate() {
            if sel.contains(&j) || plan.exclude.contains(&x.key) {
                continue;
            }
            if let Kind::Method(h, f) = &x.kind {
                let im = &ix.impls[*h];
                if !types.contains(&im.self_ty) {
                    continue;
                }
                let recv = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                let tr = im.trait_name.clone().unwrap_or_default();
                let mut hit = recv && methods.contains(&x.name);
                if hit && tr.starts_with("Display") {
                    hit = false;
                }
                if question && tr.starts_with("From<") && im.self_ty.ends_with("Error") {
                    let arg = tr.trim_start_matches("From<").trim_end_matches('>');
                    let arg = arg.rsplit("::").next().unwrap_or(arg);
                    hit |= types.contains(arg);
                }
                // all methods of an implemented local trait
                if traits.contains(&tr) {
                    hit = true;
                }
                if hit {
                    sel.insert(j);
                    work.push(j);
                }
            }
        }
        if work.is_empty() {
            break;
        }
    }

    // ---- structural types ---------------------------------------------
    let structural = structural_set(&ix, &sel, &plan);

    // ---- print --------------------------------------------------------
    let mut fns: Vec<FnOut> = vec![];
    let mut body = String::new();
    let mods: BTreeSet<Vec<String>> = sel.iter().map(|i| ix.ents[*i].module.clone()).collect();
    let mut tree: BTreeSet<Vec<String>> = BTreeSet::new();
    for m in &mods {
        for k in 1..=m.len() {
            tree.insert(m[..k].to_vec());
        }
    }
    let mut roots: Vec<&Vec<String>> = tree.iter().filter(|m| m.len() == 1).collect();
    roots.sort_by_key(|m| names.iter().position(|n| *n == m[0]));
    for m in roots {
        print_module(&ix, m, &tree, &sel, &mode, &plan, &structural, &contracts, &names, methods.contains("clone"), &mut fns, &mut body)?;
    }

    // ---- splice contracts ---------------------------------------------
    let text = splice(&body, &fns, &contracts, smoke, &mut lost)?;
    let mut out = String::new();
    out.push_str("// Generated by /verif/tools/extract from the working tree; do not edit.\n");
    out.push_str("#![allow(unused, dead_code, non_camel_case_types, non_upper_case_globals, unreachable_code)]\n");
    out.push_str("use vstd::prelude::*;\n");
    for (kind, f) in &plan.specs {
        if kind == "plain" {
            out.push_str(&std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?);
        }
    }
    out.push_str("verus! {\n");
    out.push_str("pub mod dep {\nuse vstd::prelude::*;\n");
    for (kind, f) in &plan.specs {
        if kind == "dep" {
            out.push_str(&format!("// ---- {f}\n"));
            out.push_str(&std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?);
        }
    }
    out.push_str("}\n");
    // each specification file is a module of its own, re-exported by crate::spec
    out.push_str("pub mod spec {\n");
    for (kind, f) in &plan.specs {
        if kind == "verus" {
            let n = format!("s_{}", f.rsplit('/').next().unwrap_or(f).trim_end_matches(".rs"));
            out.push_str(&format!("// ---- {f}\npub mod {n} {{\nuse vstd::prelude::*;\nuse crate::spec::*;\nuse crate::dep::*;\n"));
            out.push_str(&std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?);
            out.push_str(&format!("}}\npub use {n}::*;\n"));
        }
    }
    out.push_str("}\n");
    out.push_str(&text);
    out.push_str("fn main() {}\n} // verus!\n");

    // ---- line ranges -----------------------------------------------------
    let mut json = String::from("{\n \"functions\": [\n");
    let lines: Vec<&str> = out.lines().collect();
    let mut ranges: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (n, l) in lines.iter().enumerate() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("// @fn ") {
            let id: usize = r.trim().parse().unwrap();
            ranges.insert(id, (n + 1, n + 1));
        }
        if let Some(r) = t.strip_prefix("// @end ") {
            let id: usize = r.trim().parse().unwrap();
            if let Some(x) = ranges.get_mut(&id) {
                x.1 = n + 1;
            }
        }
    }
    let mut first = true;
    for f in &fns {
        if !first {
            json.push_str(",\n");
        }
        first = false;
        let (a, b) = ranges.get(&f.fid).copied().unwrap_or((0, 0));
        let hdrs: Vec<String> = f.loops.iter().map(|l| js(&l.header)).collect();
        json.push_str(&format!(
            "  {{\"key\": {}, \"mode\": {}, \"file\": {}, \"line\": {}, \"gen\": [{}, {}], \"loops\": [{}], \"contract\": {}, \"spec\": {}, \"notes\": [{}]}}",
            js(&f.key), js(f.mode), js(&f.file), f.src_line, a, b, hdrs.join(", "),
            contracts.contains_key(&f.key),
            js(&contracts.get(&f.key).map(|c| format!("{} {}", c.clauses, c.fromspec).split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_default()),
            f.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", ")
        ));
    }
    json.push_str("\n ],\n \"lost\": [");
    json.push_str(&lost.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "));
    json.push_str("],\n \"lemmas\": [");
    json.push_str(&plan.lemmas.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "));
    json.push_str("]\n}\n");
    Ok((out, json))
}

/// "<'a>" or "" for a type without type parameters
fn lifetimes_only(it: &Item) -> Option<String> {
    let g = match it {
        Item::Struct(s) => &s.generics,
        Item::Enum(s) => &s.generics,
        _ => return None,
    };
    if g.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) {
        return None;
    }
    Some(g.to_token_stream().to_string())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn pick_mode(plan: &Plan, contracts: &BTreeMap<String, Contract>, key: &str) -> &'static str {
    if plan.verify.iter().any(|k| k == key) {
        "verify"
    } else if plan.assume.contains(key) || contracts.contains_key(key) {
        "assume"
    } else {
        "helper"
    }
}

fn structural_set(ix: &Index, sel: &BTreeSet<usize>, plan: &Plan) -> BTreeSet<String> {
    // greatest set closed under "all field types structural" among types deriving PartialEq
    let mut cand: BTreeMap<String, Vec<Type>> = BTreeMap::new();
    for i in sel {
        let e = &ix.ents[*i];
        if let Kind::Type(it) = &e.kind {
            let (attrs, tys, gen): (&[Attribute], Vec<Type>, bool) = match it {
                Item::Struct(s) => (&s.attrs, s.fields.iter().map(|f| f.ty.clone()).collect(), s.generics.type_params().next().is_some()),
                Item::Enum(s) => (
                    &s.attrs,
                    s.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.clone())).collect(),
                    s.generics.type_params().next().is_some(),
                ),
                _ => continue,
            };
            if gen || plan.nonstructural.contains(&e.key) || plan.opaque_types.contains(&e.key) {
                continue;
            }
            if derives(attrs).contains("PartialEq") || plan.structural.contains(&e.key) {
                cand.insert(e.name.clone(), tys);
            }
        }
    }
    loop {
        let ok = |t: &Type, cand: &BTreeMap<String, Vec<Type>>| -> bool { structural_ty(t, cand) };
        let bad: Vec<String> = cand
            .iter()
            .filter(|(_, ts)| !ts.iter().all(|t| ok(t, &cand)))
            .map(|(k, _)| k.clone())
            .collect();
        if bad.is_empty() {
            break;
        }
        for b in bad {
            cand.remove(&b);
        }
    }
    cand.keys().cloned().collect()
}

fn structural_ty(t: &Type, cand: &BTreeMap<String, Vec<Type>>) -> bool {
    match t {
        Type::Path(p) => {
            let l = p.path.segments.last().unwrap();
            let n = l.ident.to_string();
            if matches!(
                n.as_str(),
                "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "bool" | "char"
            ) {
                return true;
            }
            if n == "Option" {
                return false;
            }
            cand.contains_key(&n) && matches!(l.arguments, PathArguments::None)
        }
        Type::Tuple(t) => t.elems.iter().all(|x| structural_ty(x, cand)),
        _ => false,
    }
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(s) = m.path.segments.last() {
                    out.insert(s.ident.to_string());
                }
                Ok(())
            });
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn print_module(
    ix: &Index,
    m: &[String],
    tree: &BTreeSet<Vec<String>>,
    sel: &BTreeSet<usize>,
    mode: &BTreeMap<usize, &'static str>,
    plan: &Plan,
    structural: &BTreeSet<String>,
    contracts: &BTreeMap<String, Contract>,
    names: &[String],
    clones: bool,
    fns: &mut Vec<FnOut>,
    out: &mut String,
) -> Res<()> {
    out.push_str(&format!("pub mod {} {{\n", m.last().unwrap()));
    out.push_str("use vstd::prelude::*;\nuse crate::spec::*;\nuse crate::dep::*;\n");
    for g in &plan.globs {
        out.push_str(&format!("use {g};\n"));
    }
    // imports
    let mo = &ix.modules[m];
    let mut done = BTreeSet::new();
    for (n, a) in &mo.imports {
        if n.starts_with('*') {
            let b = &a[..a.len() - 1];
            if tree.contains(b) && b != m {
                out.push_str(&format!("use crate::{}::*;\n", b.join("::")));
            }
            continue;
        }
        if let Some(c) = ix.resolve(m, &[n.clone()]) {
            if c[..c.len() - 1] == *m {
                continue; // the module itself or its own child
            }
            let emitted = tree.contains(&c)
                || sel.iter().any(|i| {
                    let e = &ix.ents[*i];
                    !matches!(e.kind, Kind::Method(..)) && e.module == c[..c.len() - 1] && e.name == c[c.len() - 1]
                })
                // enum variant imports
                || (c.len() > 2 && sel.iter().any(|i| {
                    let e = &ix.ents[*i];
                    matches!(e.kind, Kind::Type(_)) && e.module == c[..c.len() - 2] && e.name == c[c.len() - 2]
                }));
            if emitted && done.insert(n.clone()) {
                if *n == c[c.len() - 1] {
                    out.push_str(&format!("pub use crate::{};\n", c.join("::")));
                } else {
                    out.push_str(&format!("pub use crate::{} as {};\n", c.join("::"), n));
                }
            }
        }
    }
    // items
    let mut impl_groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut ordered: Vec<usize> = sel.iter().copied().filter(|i| ix.ents[*i].module == m).collect();
    ordered.sort();
    let mut paths = Paths { crates: names, krate: m[0].clone(), shim_paths: &plan.shim_paths, shim_methods: &plan.shim_methods };
    let mut macros_done = BTreeSet::new();
    for &i in &ordered {
        let e = &ix.ents[i];
        match &e.kind {
            Kind::Macro(mm) if mm.ident.is_some() => {
                let f = File { shebang: None, attrs: vec![], items: vec![Item::Macro(mm.clone())] };
                out.push_str(&prettyplease::unparse(&f));
            }
            Kind::Macro(_) => {
                if macros_done.insert(e.name.clone()) {
                    out.push_str(&bitflags_standin(&e.name, match &e.kind { Kind::Macro(m) => m.mac.tokens.clone(), _ => unreachable!() })?);
                }
            }
            _ => {}
        }
    }
    for &i in &ordered {
        let e = &ix.ents[i];
        match &e.kind {
            Kind::Type(it) => {
                let mut it = it.clone();
                MakePub.visit_item_mut(&mut it);
                paths.visit_item_mut(&mut it);
                if plan.opaque_types.contains(&e.key) {
                    continue;
                }
                let attrs: &mut Vec<Attribute> = match &mut it {
                    Item::Struct(s) => &mut s.attrs,
                    Item::Enum(s) => &mut s.attrs,
                    Item::Type(s) => &mut s.attrs,
                    _ => unreachable!(),
                };
                let d = derives(attrs);
                attrs.clear();
                let is_alias = matches!(it, Item::Type(_));
                let f = File { shebang: None, attrs: vec![], items: vec![it] };
                let mut ds: Vec<&str> = vec![];
                if d.contains("Copy") {
                    ds.push("Clone");
                    ds.push("Copy");
                }
                if structural.contains(&e.name) {
                    ds.push("PartialEq");
                    ds.push("Eq");
                }
                if !is_alias && !ds.is_empty() {
                    out.push_str(&format!("#[derive({})]\n", ds.join(", ")));
                }
                out.push_str(&prettyplease::unparse(&f));
                if d.contains("Clone") && !d.contains("Copy") && clones {
                    if let Some(g) = lifetimes_only(&f.items[0]) {
                        out.push_str(&format!(
                            "impl{g} {}{g} {{\n#[verifier::external_body]\npub fn clone(&self) -> (r: Self) // derived Clone\n    ensures r == *self,\n{{ unimplemented!() }}\n}}\n",
                            e.name
                        ));
                    }
                }
                if structural.contains(&e.name) {
                    out.push_str(&format!("unsafe impl vstd::prelude::Structural for {} {{}}\n", e.name));
                }
            }
            Kind::Const(it) => {
                let mut it = it.clone();
                MakePub.visit_item_mut(&mut it);
                paths.visit_item_mut(&mut it);
                if let Item::Const(c) = &mut it {
                    if let Type::Reference(r) = &mut *c.ty {
                        r.lifetime = Some(parse_quote! { 'static });
                    }
                }
                let f = File { shebang: None, attrs: vec![], items: vec![it] };
                out.push_str(&prettyplease::unparse(&f));
            }
            Kind::Trait(t) => {
                let mut t = t.clone();
                t.vis = parse_quote! { pub };
                for it in &mut t.items {
                    if let TraitItem::Fn(f) = it {
                        let key = format!("{}::{}", e.key, f.sig.ident);
                        if contracts.contains_key(&key) {
                            let fid = fns.len();
                            let ret = mark_sig(&mut f.sig, fid);
                            fns.push(FnOut {
                                key,
                                fid,
                                mode: "trait",
                                ret_ty: ret,
                                bits: false,
                                loops: vec![],
                                file: e.file.clone(),
                                src_line: e.line,
                                notes: BTreeSet::new(),
                            });
                        }
                    }
                }
                let mut it = Item::Trait(t);
                paths.visit_item_mut(&mut it);
                let f = File { shebang: None, attrs: vec![], items: vec![it] };
                out.push_str(&prettyplease::unparse(&f));
            }
            Kind::Fn(f) => {
                let mut f = f.clone();
                f.attrs.clear();
                f.vis = parse_quote! { pub };
                let md = mode[&i];
                paths.visit_signature_mut(&mut f.sig);
                let fo = prep(&e.key, md, &mut f.sig, &mut f.block, contracts, e, fns.len());
                let mut it = Item::Fn(f);
                paths.visit_item_mut(&mut it);
                let file = File { shebang: None, attrs: vec![], items: vec![it] };
                out.push_str(&format!("// @fn {}\n", fo.fid));
                out.push_str(&attr_text(&fo, contracts));
                out.push_str(&prettyplease::unparse(&file));
                out.push_str(&format!("// @end {}\n", fo.fid));
                fns.push(fo);
            }
            Kind::Method(h, _) => impl_groups.entry(*h).or_default().push(i),
            Kind::Macro(_) => {}
        }
    }
    let mut groups: Vec<(usize, Vec<usize>, bool)> = vec![];
    for (h, ids) in impl_groups {
        // methods marked `inherent` leave their trait impl
        let (inh, tr): (Vec<usize>, Vec<usize>) = ids.into_iter().partition(|i| {
            ix.impls[h].hdr.trait_.is_some() && contracts.get(&ix.ents[*i].key).map(|c| c.inherent).unwrap_or(false)
        });
        if !inh.is_empty() {
            groups.push((h, inh, true));
        }
        if !tr.is_empty() {
            groups.push((h, tr, false));
        }
    }
    for (h, ids, inherent) in groups {
        let im = &ix.impls[h];
        let mut hdr = im.hdr.clone();
        hdr.attrs.clear();
        if inherent {
            hdr.trait_ = None;
            hdr.items.clear();
        }
        let base_items = hdr.items.clone();
        let is_trait = hdr.trait_.is_some();
        let mut texts = String::new();
        for i in &ids {
            let e = &ix.ents[*i];
            if let Kind::Method(_, f) = &e.kind {
                let mut f = f.clone();
                f.attrs.clear();
                if !is_trait {
                    f.vis = parse_quote! { pub };
                }
                let md = mode[i];
                if inherent {
                    Assoc(&im.hdr.items).visit_impl_item_fn_mut(&mut f);
                }
                paths.visit_signature_mut(&mut f.sig);
                let fo = prep(&e.key, md, &mut f.sig, &mut f.block, contracts, e, fns.len());
                let mut one = hdr.clone();
                one.trait_ = None;
                one.items = vec![ImplItem::Fn(f)];
                one.self_ty = parse_quote! { __X };
                one.generics = Default::default();
                let mut it = Item::Impl(one);
                paths.visit_item_mut(&mut it);
                let file = File { shebang: None, attrs: vec![], items: vec![it] };
                let t = prettyplease::unparse(&file);
                // strip the wrapper "impl __X {" ... "}"
                let t = t.trim_end();
                let a = t.find('{').unwrap() + 1;
                let b = t.rfind('}').unwrap();
                texts.push_str(&format!("// @fn {}\n", fo.fid));
                texts.push_str(&attr_text(&fo, contracts));
                texts.push_str(t[a..b].trim_matches('\n'));
                texts.push_str(&format!("\n// @end {}\n", fo.fid));
                fns.push(fo);
            }
        }
        let mut it = Item::Impl(ItemImpl { items: vec![], ..hdr.clone() });
        paths.visit_item_mut(&mut it);
        let file = File { shebang: None, attrs: vec![], items: vec![it] };
        let t = prettyplease::unparse(&file);
        let t = t.trim_end();
        let t = t.strip_suffix("{}").ok_or("impl header")?;
        out.push_str(t);
        out.push_str("{\n");
        for bi in base_items {
            let mut bi = bi;
            if let ImplItem::Const(c) = &mut bi {
                if !is_trait {
                    c.vis = parse_quote! { pub };
                }
            }
            paths.visit_impl_item_mut(&mut bi);
            let one = ItemImpl { items: vec![bi], trait_: None, self_ty: parse_quote! { __X }, generics: Default::default(), ..hdr.clone() };
            let file = File { shebang: None, attrs: vec![], items: vec![Item::Impl(one)] };
            let t = prettyplease::unparse(&file);
            let t = t.trim_end();
            let a = t.find('{').unwrap() + 1;
            let b = t.rfind('}').unwrap();
            out.push_str(t[a..b].trim_matches('\n'));
            out.push('\n');
        }
        out.push_str(&texts);
        out.push_str("}\n");
        // companion impl required by vstd for the conversion traits
        let tn = im.trait_name.clone().unwrap_or_default();
        if !inherent && (tn.starts_with("From<") || tn.starts_with("TryFrom<")) {
            let is_try = tn.starts_with("TryFrom<");
            let fs = ids
                .iter()
                .filter_map(|i| contracts.get(&ix.ents[*i].key))
                .map(|c| c.fromspec.clone())
                .find(|s| !s.is_empty());
            let mut hty = im.hdr.clone();
            paths.visit_item_impl_mut(&mut hty);
            let arg = match &hty.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => a.args.first().unwrap().to_token_stream().to_string(),
                _ => String::new(),
            };
            let g = im.hdr.generics.to_token_stream().to_string();
            let st = hty.self_ty.to_token_stream().to_string();
            let (tr, f, ret) = if is_try {
                ("TryFromSpecImpl", "try_from_spec", "Result<Self, Self::Error>")
            } else {
                ("FromSpecImpl", "from_spec", "Self")
            };
            out.push_str(&format!(
                "impl {g} vstd::std_specs::convert::{tr}<{arg}> for {st} {{\n open spec fn obeys_{f}() -> bool {{ {} }}\n open spec fn {f}(v: {arg}) -> {ret} {{ {} }}\n}}\n",
                fs.is_some(),
                fs.clone().unwrap_or("arbitrary()".into())
            ));
        }
    }
    for c in tree.iter().filter(|c| c.len() == m.len() + 1 && c[..m.len()] == *m) {
        print_module(ix, c, tree, sel, mode, plan, structural, contracts, names, clones, fns, out)?;
    }
    out.push_str("}\n");
    Ok(())
}

/// R10: a `bitflags!` struct becomes a struct holding the bits; the mask of defined
/// flags is computed from the declaration.
fn bitflags_standin(name: &str, ts: proc_macro2::TokenStream) -> Res<String> {
    let toks: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    let at = toks.windows(2).position(|w| w[0].to_string() == "struct" && w[1].to_string() == name).ok_or("bitflags")?;
    let ty = toks.get(at + 3).map(|t| t.to_string()).unwrap_or_default();
    let body = toks[at..]
        .iter()
        .find_map(|t| match t {
            proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream()),
            _ => None,
        })
        .ok_or("bitflags body")?;
    let mut all: u128 = 0;
    let mut consts = String::new();
    let mut last = String::new();
    for t in body {
        match &t {
            proc_macro2::TokenTree::Ident(i) => last = i.to_string(),
            proc_macro2::TokenTree::Literal(l) => {
                let v: LitInt = parse_str(&l.to_string()).map_err(|e| e.to_string())?;
                let v = v.base10_parse::<u128>().map_err(|e| e.to_string())?;
                all |= v;
                consts.push_str(&format!("    pub const {last}: {name} = {name} {{ flag_bits: {v} }};\n"));
            }
            _ => {}
        }
    }
    Ok(format!(
        "#[derive(Clone, Copy, PartialEq, Eq)]\npub struct {name} {{ pub flag_bits: {ty} }}\nunsafe impl vstd::prelude::Structural for {name} {{}}\nimpl {name} {{\n    pub const fn from_bits_truncate(b: {ty}) -> (r: Self)\n        ensures r.flag_bits == b & {all},\n    {{ {name} {{ flag_bits: b & {all} }} }}\n    pub const fn bits(&self) -> (r: {ty})\n        ensures r == self.flag_bits,\n    {{ self.flag_bits }}\n    pub const fn contains(&self, other: {name}) -> (r: bool)\n        ensures r == (self.flag_bits & other.flag_bits == other.flag_bits),\n    {{ self.flag_bits & other.flag_bits == other.flag_bits }}\n{consts}}}\n"
    ))
}

fn attr_text(fo: &FnOut, contracts: &BTreeMap<String, Contract>) -> String {
    let mut s = String::new();
    if fo.mode == "assume" {
        s.push_str("#[verifier::external_body]\n");
    } else if let Some(c) = contracts.get(&fo.key) {
        s.push_str(&c.attrs);
    }
    s
}

fn mark_sig(sig: &mut Signature, fid: usize) -> String {
    match &sig.output {
        ReturnType::Default => {
            let id = format_ident(&format!("__Ret{fid}__"));
            sig.output = parse_quote! { -> #id };
            String::new()
        }
        ReturnType::Type(_, t) => {
            let r = t.to_token_stream().to_string();
            let id = format_ident(&format!("__Ret{fid}__"));
            sig.output = parse_quote! { -> #id };
            r
        }
    }
}

/// whether a shift or a mask occurs
struct HasBits(bool);
impl<'ast> syn::visit::Visit<'ast> for HasBits {
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, BitAnd(_) | BitOr(_) | Shl(_) | Shr(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.0 = true;
        }
        syn::visit::visit_expr_binary(self, b);
    }
}

fn prep(
    key: &str,
    mode: &'static str,
    sig: &mut Signature,
    block: &mut Block,
    contracts: &BTreeMap<String, Contract>,
    e: &Ent,
    fid: usize,
) -> FnOut {
    let mut d = Desugar::new(fid);
    d.owned = owned_of(sig, block);
    if mode == "assume" {
        *block = parse_quote! {{ unimplemented!() }};
    } else {
        crate::desugar::prepass(sig, block, &mut d);
        d.visit_block_mut(block);
        let mut ty = crate::types::Types::new(sig);
        ty.visit_block_mut(block);
        d.notes.extend(ty.notes);
    }
    let mut bits = HasBits(false);
    if mode == "verify" {
        syn::visit::Visit::visit_block(&mut bits, block);
    }
    let mut ret = String::new();
    if let Some(c) = contracts.get(key) {
        // a hint about the result, where the body ends in an expression
        if mode != "assume" && !c.end.is_empty() {
            if let (Some(Stmt::Expr(_, None)), ReturnType::Type(_, ty)) = (block.stmts.last(), &sig.output) {
                let Some(Stmt::Expr(tail, None)) = block.stmts.pop() else { unreachable!() };
                let more: Block = parse_quote! {{ let __r: #ty = #tail; __end!(#fid); __r }};
                block.stmts.extend(more.stmts);
            } else if matches!(sig.output, ReturnType::Default) {
                if let Some(Stmt::Expr(tail, None)) = block.stmts.last().cloned() {
                    *block.stmts.last_mut().unwrap() = Stmt::Expr(tail, Some(Default::default()));
                }
                let st: Stmt = parse_quote! { __end!(#fid); };
                block.stmts.push(st);
            }
        }
        ret = mark_sig(sig, fid);
        let st: Stmt = parse_quote! { __contract!(#fid); };
        block.stmts.insert(0, st);
    }
    FnOut {
        key: key.to_string(),
        fid,
        mode,
        ret_ty: ret,
        loops: d.loops,
        bits: bits.0,
        file: e.file.clone(),
        src_line: e.line,
        notes: d.notes,
    }
}

fn subst(text: &str, fo: &FnOut, k: usize) -> std::result::Result<String, String> {
    let t = text.replace("$it", &format!("__it{k}"));
    let mut t = t.replace("$i", &format!("__i{k}"));
    t = t.replace("$lo", &format!("__lo{k}"));
    t = t.replace("$s", &format!("__s{k}"));
    t = t.replace("$e", &format!("__e{k}"));
    for n in (0..10).rev() {
        let ph = format!("$m{n}");
        if t.contains(&ph) {
            match fo.loops.get(k).and_then(|l| l.muts.get(n)) {
                Some(v) => t = t.replace(&ph, v),
                None => return Err(format!("{}: loop {k} has no mutated variable {n}", fo.key)),
            }
        }
    }
    Ok(t)
}

fn splice(body: &str, fns: &[FnOut], contracts: &BTreeMap<String, Contract>, smoke: bool, lost: &mut Vec<String>) -> Res<String> {
    let mut t = body.to_string();
    for fo in fns {
        let c = contracts.get(&fo.key);
        // arithmetic facts about shifts and masks by constants (R26)
        let bits = if fo.bits && c.is_some_and(|c| !c.nobits) { "proof { crate::dep::lemma_bits_u8(); crate::dep::lemma_bits_u16(); crate::dep::lemma_bits_u32(); crate::dep::lemma_bits_u64(); }\n" } else { "" };
        // return type and clauses
        if let Some(c) = c {
            let ph = format!("-> __Ret{}__", fo.fid);
            let ret = if fo.ret_ty.is_empty() {
                if c.clauses.contains("ensures") && c.ret != "r" {
                    format!("-> ({}: ())", c.ret)
                } else {
                    String::new()
                }
            } else {
                format!("-> ({}: {})", c.ret, fo.ret_ty)
            };
            let pos = t.find(&ph).ok_or(format!("marker of {} lost", fo.key))?;
            let after = pos + ph.len();
            // the header ends at the first '{' (or ';' in traits) after the return type
            let rest = &t[after..];
            let brace = rest.find('{').unwrap_or(usize::MAX);
            let semi = rest.find(';').unwrap_or(usize::MAX);
            let e = if fo.mode == "trait" { semi.min(brace) } else { brace };
            let head = rest[..e].trim_end().to_string();
            let mut new = String::new();
            new.push_str(&t[..pos]);
            new.push_str(&ret);
            new.push_str(&head);
            new.push('\n');
            new.push_str(&c.clauses);
            new.push_str(&rest[e..]);
            t = new;
            let m = format!("__contract!({}usize);", fo.fid);
            if fo.mode == "assume" {
                t = t.replacen(&m, "", 1);
            } else if fo.mode != "trait" {
                let sm = if smoke && fo.mode == "verify" { "proof { assert(false); }\n" } else { "" };
                // hide(..) headers have to stay first in the body
                let cut = c.start.find("hide(").map_or(0, |_| c.start.rfind("hide(").and_then(|p| c.start[p..].find(';').map(|q| p + q + 1)).unwrap_or(0));
                t = t.replacen(&m, &format!("{}\n{sm}{bits}{}", &c.start[..cut], &c.start[cut..]), 1);
                t = t.replacen(&format!("__end!({}usize);", fo.fid), &c.end, 1);
            }
            if fo.mode != "assume" && fo.mode != "trait" {
                let n = c.nloops.unwrap_or(c.loops.keys().max().map(|k| k + 1).unwrap_or(0));
                if n != fo.loops.len() {
                    lost.push(format!("{}: contract written for {} loop(s), source has {}", fo.key, n, fo.loops.len()));
                }
            }
        } else if fo.mode == "helper" {
            lost.push(format!("{}: no contract (helper)", fo.key));
        }
        // loops
        for k in 0..fo.loops.len() {
            let ls = c.and_then(|c| c.loops.get(&k).cloned()).unwrap_or_default();
            let s = |x: &str, lost: &mut Vec<String>| match subst(x, fo, k) {
                Ok(v) => v,
                Err(e) => {
                    lost.push(e);
                    String::new()
                }
            };
            let inv = format!("__inv!({}usize, {}usize);", fo.fid, k);
            if let Some(p) = t.find(&inv) {
                let b = t[..p].rfind('{').unwrap();
                let cl = s(&ls.clauses, lost);
                let mut new = t[..b].trim_end().to_string();
                new.push('\n');
                new.push_str(&cl);
                new.push('{');
                new.push_str(&t[p + inv.len()..]);
                t = new;
            }
            for (mk, tx) in [
                (format!("__before!({}usize, {}usize);", fo.fid, k), &ls.before),
                (format!("__lstart!({}usize, {}usize);", fo.fid, k), &ls.start),
                (format!("__lend!({}usize, {}usize);", fo.fid, k), &ls.end),
                (format!("__after!({}usize, {}usize);", fo.fid, k), &ls.after),
            ] {
                let mut tx = s(tx, lost);
                if mk.starts_with("__lstart!") {
                    tx = format!("{bits}{tx}");
                }
                if mk.starts_with("__after!") && tx.trim().is_empty() {
                    tx = ";".into();
                }
                t = t.replacen(&mk, &tx, 1);
            }
        }
    }
    if t.contains("__contract!(") || t.contains("__Ret") {
        return Err("unresolved marker".into());
    }
    let _ = quote! {};
    Ok(t)
}
