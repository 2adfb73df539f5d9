//! R11: invocations of `macro_rules!` macros defined in the same file are expanded.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Pat {
    Frag(String, String),
    Tok(String),
    /// `$($name:tt)*` at the end of a pattern
    Rest(String),
}
#[derive(Clone)]
struct Rule {
    pat: Vec<Pat>,
    body: TokenStream,
    lets: BTreeSet<String>,
}
#[derive(Default)]
pub struct Macros {
    known: BTreeMap<String, Vec<Rule>>,
}

fn pattern(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && matches!(v.get(i + 1), Some(TokenTree::Group(_))) => {
                let Some(TokenTree::Group(g)) = v.get(i + 1) else { return None };
                if i + 3 != v.len() || v[i + 2].to_string() != "*" {
                    return None;
                }
                match pattern(g.stream())?.as_slice() {
                    [Pat::Frag(n, k)] if k == "tt" => out.push(Pat::Rest(n.clone())),
                    _ => return None,
                }
                i += 3;
            }
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let (TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(k)) = (v.get(i + 1)?, v.get(i + 2)?, v.get(i + 3)?) else { return None };
                if c.as_char() != ':' {
                    return None;
                }
                out.push(Pat::Frag(n.to_string(), k.to_string()));
                i += 4;
            }
            TokenTree::Group(_) => return None,
            t => {
                out.push(Pat::Tok(t.to_string()));
                i += 1;
            }
        }
    }
    Some(out)
}
fn lets(ts: TokenStream, out: &mut BTreeSet<String>) {
    let mut after = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if after && s != "mut" {
                    out.insert(s.clone());
                    after = false;
                } else if s == "let" {
                    after = true;
                }
            }
            TokenTree::Group(g) => {
                after = false;
                lets(g.stream(), out)
            }
            _ => after = false,
        }
    }
}
fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(p) = &v[i] else { return None };
        let TokenTree::Group(b) = v.get(i + 3)? else { return None };
        let mut l = BTreeSet::new();
        lets(b.stream(), &mut l);
        out.push(Rule { pat: pattern(p.stream())?, body: b.stream(), lets: l });
        i += 4;
        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
            i += 1;
        }
    }
    Some(out)
}
fn idents(ts: &[TokenTree], out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(&g.stream().into_iter().collect::<Vec<_>>(), out),
            _ => {}
        }
    }
}
fn bind(r: &Rule, input: &[TokenTree]) -> Option<BTreeMap<String, TokenStream>> {
    let mut m = BTreeMap::new();
    let mut i = 0;
    for (k, p) in r.pat.iter().enumerate() {
        match p {
            Pat::Tok(t) => {
                if input.get(i)?.to_string() != *t {
                    return None;
                }
                i += 1;
            }
            Pat::Rest(n) => {
                let mut used = BTreeSet::new();
                idents(input.get(i..)?, &mut used);
                if used.iter().any(|u| r.lets.contains(u)) {
                    return None;
                }
                m.insert(n.clone(), input[i..].iter().cloned().collect());
                i = input.len();
            }
            Pat::Frag(n, kind) => {
                let j = match kind.as_str() {
                    "ident" => match input.get(i)? {
                        TokenTree::Ident(_) => i + 1,
                        _ => return None,
                    },
                    "tt" => i + 1,
                    "literal" => match input.get(i)? {
                        TokenTree::Literal(_) => i + 1,
                        TokenTree::Punct(p) if p.as_char() == '-' && matches!(input.get(i + 1), Some(TokenTree::Literal(_))) => i + 2,
                        _ => return None,
                    },
                    "expr" => {
                        let stop = match r.pat.get(k + 1) {
                            Some(Pat::Tok(t)) => Some(t.clone()),
                            Some(Pat::Rest(_)) | Some(Pat::Frag(..)) => return None,
                            None => None,
                        };
                        let mut j = i;
                        while j < input.len() && stop.as_ref().map(|s| input[j].to_string() != *s).unwrap_or(true) {
                            j += 1;
                        }
                        let ts: TokenStream = input[i..j].iter().cloned().collect();
                        parse2::<Expr>(ts).ok()?;
                        j
                    }
                    _ => return None,
                };
                if j > input.len() {
                    return None;
                }
                let mut used = BTreeSet::new();
                idents(&input[i..j], &mut used);
                if used.iter().any(|u| r.lets.contains(u)) {
                    return None; // would be captured
                }
                let ts: TokenStream = input[i..j].iter().cloned().collect();
                let ts = if kind == "expr" && j - i > 1 { TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)).into() } else { ts };
                m.insert(n.clone(), ts);
                i = j;
            }
        }
    }
    // a trailing comma is not part of any pattern here
    (i == input.len()).then_some(m)
}
fn put(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let (Some(TokenTree::Group(g)), Some(TokenTree::Punct(s))) = (v.get(i + 1), v.get(i + 2)) {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let ([TokenTree::Punct(d), TokenTree::Ident(n)], '*') = (inner.as_slice(), s.as_char()) {
                        if let (Some(x), '$') = (m.get(&n.to_string()), d.as_char()) {
                            out.extend(x.clone());
                            i += 3;
                            continue;
                        }
                    }
                }
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    if let Some(x) = m.get(&n.to_string()) {
                        out.extend(x.clone());
                        i += 2;
                        continue;
                    }
                }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), put(g.stream(), m)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

impl Macros {
    fn define(&mut self, m: &ItemMacro) -> bool {
        let Some(n) = &m.ident else { return false };
        if !m.mac.path.is_ident("macro_rules") {
            return false;
        }
        match rules(m.mac.tokens.clone()) {
            Some(r) => {
                self.known.insert(n.to_string(), r);
                true
            }
            None => false,
        }
    }
    fn expand(&self, m: &Macro) -> Option<TokenStream> {
        let n = m.path.get_ident()?.to_string();
        let mut input: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        if matches!(input.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
            input.pop();
        }
        for r in self.known.get(&n)? {
            if let Some(b) = bind(r, &input) {
                return Some(put(r.body.clone(), &b));
            }
        }
        None
    }
}
impl VisitMut for Macros {
    fn visit_file_mut(&mut self, f: &mut File) {
        for i in &f.items {
            if let Item::Macro(m) = i {
                self.define(m);
            }
        }
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = self.known.clone();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Item(Item::Macro(m)) = &s {
                if self.define(m) {
                    continue;
                }
            }
            if let Stmt::Macro(m) = &s {
                if let Some(ts) = self.expand(&m.mac) {
                    let semi = m.semi_token.is_some();
                    if ts.is_empty() {
                        continue;
                    }
                    if let Ok(e) = parse2::<Expr>(ts) {
                        s = Stmt::Expr(e, semi.then(Default::default));
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
        self.known = outer;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.expand(&m.mac) {
                if ts.is_empty() {
                    *e = parse_quote! { () };
                } else if let Ok(x) = parse2::<Expr>(ts) {
                    *e = parse_quote! { (#x) };
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// R14: a closure bound by `let`, without captures and only ever called, is
/// inlined at its calls.
pub struct Closures;

struct Uses<'a> {
    name: &'a str,
    arity: usize,
    calls: usize,
    other: usize,
}
impl<'a> syn::visit::Visit<'a> for Uses<'_> {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) && c.args.len() == self.arity {
            self.calls += 1;
            for a in &c.args {
                self.visit_expr(a);
            }
        } else {
            syn::visit::visit_expr_call(self, c);
        }
    }
    fn visit_ident(&mut self, i: &'a Ident) {
        if i == self.name {
            self.other += 1;
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let mut s = BTreeSet::new();
        idents(&m.tokens.clone().into_iter().collect::<Vec<_>>(), &mut s);
        if s.contains(self.name) {
            self.other += 1;
        }
    }
}
struct Plain<'a> {
    params: &'a [Ident],
    ok: bool,
}
impl<'a> syn::visit::Visit<'a> for Plain<'_> {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) | Expr::Closure(_) | Expr::Block(_) | Expr::Macro(_) | Expr::Let(_) | Expr::Match(_) => self.ok = false,
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let lower = i.to_string().starts_with(|c: char| c.is_lowercase() || c == '_');
                    if lower && !self.params.contains(i) {
                        self.ok = false;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(_) = &*c.func {
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                } else {
                    self.ok = false;
                }
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
struct Inline<'a> {
    name: &'a str,
    params: &'a [Ident],
    body: &'a Expr,
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                let (p, b, a) = (self.params, self.body, &c.args);
                *e = if p.len() == 1 {
                    let (p, a) = (&p[0], &a[0]);
                    parse_quote! { { let #p = #a; #b } }
                } else {
                    parse_quote! { { let (#(#p),*) = (#a); #b } }
                };
            }
        }
    }
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        use syn::visit::Visit;
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((name, params, body)) = closure(&b.stmts[i]) {
                let mut plain = Plain { params: &params, ok: true };
                plain.visit_expr(&body);
                let mut u = Uses { name: &name, arity: params.len(), calls: 0, other: 0 };
                for s in &b.stmts[i + 1..] {
                    u.visit_stmt(s);
                }
                if plain.ok && u.other == 0 && u.calls > 0 && !params.is_empty() {
                    b.stmts.remove(i);
                    let mut inl = Inline { name: &name, params: &params, body: &body };
                    for s in &mut b.stmts[i..] {
                        inl.visit_stmt_mut(s);
                    }
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
fn closure(s: &Stmt) -> Option<(String, Vec<Ident>, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let syn::Pat::Ident(n) = &l.pat else { return None };
    let Expr::Closure(c) = &*l.init.as_ref()?.expr else { return None };
    let mut params = vec![];
    for p in &c.inputs {
        match p {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => params.push(i.ident.clone()),
            _ => return None,
        }
    }
    Some((n.ident.to_string(), params, (*c.body).clone()))
}

/// Part of R8: a block-local `use Enum::*` of an enum of the same file is
/// replaced by writing out the enum in front of its variants.
#[derive(Default)]
pub struct Variants {
    enums: BTreeMap<String, BTreeSet<String>>,
    scope: Vec<String>,
}
impl Variants {
    fn of(&self, i: &Ident) -> Option<Ident> {
        let mut hit = self.scope.iter().filter(|e| self.enums[*e].contains(&i.to_string()));
        match (hit.next(), hit.next()) {
            (Some(e), None) => Some(Ident::new(e, i.span())),
            _ => None,
        }
    }
}
impl VisitMut for Variants {
    fn visit_file_mut(&mut self, f: &mut File) {
        for i in &f.items {
            if let Item::Enum(e) = i {
                self.enums.insert(e.ident.to_string(), e.variants.iter().map(|v| v.ident.to_string()).collect());
            }
        }
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = self.scope.clone();
        let (enums, scope) = (&self.enums, &mut self.scope);
        b.stmts.retain(|s| {
            if let Stmt::Item(Item::Use(u)) = s {
                let mut t = &u.tree;
                let mut last = String::new();
                while let UseTree::Path(p) = t {
                    last = p.ident.to_string();
                    t = &p.tree;
                }
                if matches!(t, UseTree::Glob(_)) && enums.contains_key(&last) {
                    if !scope.contains(&last) {
                        scope.push(last);
                    }
                    return false;
                }
            }
            true
        });
        visit_mut::visit_block_mut(self, b);
        self.scope = outer;
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let (None, 1) = (&p.leading_colon, p.segments.len()) {
            if let (PathArguments::None, Some(e)) = (&p.segments[0].arguments, self.of(&p.segments[0].ident)) {
                let v = &p.segments[0].ident;
                *p = parse_quote! { #e::#v };
                return;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Ident(i) = p {
            if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                if let Some(e) = self.of(&i.ident) {
                    let v = &i.ident;
                    let x: Expr = parse_quote! { #e::#v };
                    if let Expr::Path(x) = x {
                        *p = syn::Pat::Path(x);
                    }
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
