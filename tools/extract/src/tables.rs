//! R30: looking a row up in a table written out as a constant.
//! R31: a loop over a list of tuples written out in its header.
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// The constants of the crates that are lists of tuples, by name.
#[derive(Default)]
pub struct Tables(BTreeMap<String, Option<(Vec<Type>, Vec<ExprTuple>)>>);

impl Tables {
    pub fn add(&mut self, it: &Item) {
        let Item::Const(c) = it else { return };
        let row = (|| {
            let (Type::Reference(t), Expr::Reference(x)) = (&*c.ty, &*c.expr) else { return None };
            let (Type::Slice(t), Expr::Array(a)) = (&*t.elem, &*x.expr) else { return None };
            let Type::Tuple(t) = &*t.elem else { return None };
            let rows: Option<Vec<ExprTuple>> = a.elems.iter().map(|e| if let Expr::Tuple(t) = e { Some(t.clone()) } else { None }).collect();
            Some((t.elems.iter().cloned().collect::<Vec<_>>(), rows?))
        })();
        let n = c.ident.to_string();
        // two constants of one name are told apart nowhere below
        let v = if self.0.contains_key(&n) { None } else { row };
        self.0.insert(n, v);
    }

    /// `TABLE.iter().find(|(.., k, ..)| *k == x).map(|(a, b, ..)| body)`, the keys integer literals
    fn lookup(&self, e: &Expr) -> Option<Expr> {
        let call = |e: &Expr, n: &str| match e {
            Expr::MethodCall(m) if m.method == n => Some(m.clone()),
            _ => None,
        };
        let clos = |m: &ExprMethodCall| match m.args.first() {
            Some(Expr::Closure(c)) if c.inputs.len() == 1 => match &c.inputs[0] {
                Pat::Tuple(p) => Some((p.elems.iter().cloned().collect::<Vec<Pat>>(), (*c.body).clone())),
                _ => None,
            },
            _ => None,
        };
        let map = call(e, "map")?;
        let find = call(&map.receiver, "find")?;
        let iter = call(&find.receiver, "iter")?;
        let Expr::Path(t) = &*iter.receiver else { return None };
        let (types, rows) = self.0.get(&t.path.get_ident()?.to_string())?.as_ref()?;
        let (keys, test) = clos(&find)?;
        let (names, body) = clos(&map)?;
        if keys.len() != types.len() || names.len() != types.len() {
            return None;
        }
        let mut at = keys.iter().enumerate().filter(|(_, p)| !matches!(p, Pat::Wild(_)));
        let (k, Pat::Ident(key)) = at.next()? else { return None };
        if at.next().is_some() {
            return None;
        }
        let Expr::Binary(b) = &test else { return None };
        if !matches!(b.op, BinOp::Eq(_)) {
            return None;
        }
        let own = |e: &Expr| matches!(e, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&key.ident)));
        let x = if own(&b.left) { &b.right } else if own(&b.right) { &b.left } else { return None };
        if !matches!(&**x, Expr::Path(p) if p.path.get_ident().is_some_and(|i| *i != key.ident)) {
            return None;
        }
        let mut arms: Vec<Arm> = vec![];
        for r in rows {
            let Expr::Lit(ExprLit { lit: l @ Lit::Int(_), .. }) = r.elems.iter().nth(k)? else { return None };
            arms.push(parse_quote! { #l => Some(#r), });
        }
        let mut body = body;
        let mut lets: Vec<Stmt> = vec![];
        for (i, (p, t)) in names.iter().zip(types).enumerate() {
            let i = Index::from(i);
            match p {
                Pat::Wild(_) => {}
                Pat::Ident(n) if n.by_ref.is_none() && n.subpat.is_none() => {
                    let n = &n.ident;
                    Bare(n.clone()).visit_expr_mut(&mut body);
                    lets.push(parse_quote! { let #n: #t = __v.#i; });
                }
                _ => return None,
            }
        }
        Some(parse_quote! { match (match #x { #(#arms)* _ => None }) { Some(__v) => Some({ #(#lets)* #body }), None => None } })
    }
}

/// a name bound by value instead of by reference
struct Bare(Ident);
impl Bare {
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut out: Vec<TokenTree> = vec![];
        // a star at the start of an argument is a dereference
        let mut first = true;
        for x in t {
            if let (TokenTree::Ident(i), true) = (&x, out.len() == 1 || out.len() > 1 && matches!(&out[out.len() - 2], TokenTree::Punct(p) if p.as_char() == ',')) {
                if *i == self.0 && !first && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '*') {
                    out.pop();
                }
            }
            first = false;
            out.push(match x {
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                x => x,
            });
        }
        out.into_iter().collect()
    }
}
impl VisitMut for Bare {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&self.0)) {
                *e = (*u.expr).clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `for (i, (a, b)) in [(x, y), (u, v)].iter().enumerate() { .. }`, the elements plain names
fn unrolled(l: &ExprForLoop) -> Option<Expr> {
    struct Leaves(bool);
    impl<'a> syn::visit::Visit<'a> for Leaves {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = Leaves(l.label.is_some());
    syn::visit::Visit::visit_block(&mut v, &l.body);
    if v.0 {
        return None;
    }
    let call = |e: &Expr, n: &str| match e {
        Expr::MethodCall(m) if m.method == n && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    };
    let list = call(&call(&l.expr, "enumerate")?, "iter")?;
    let (Expr::Array(list), Pat::Tuple(p)) = (&list, &*l.pat) else { return None };
    let (Some(Pat::Ident(i)), Some(Pat::Tuple(names)), 2) = (p.elems.first(), p.elems.last(), p.elems.len()) else { return None };
    let mut out: Vec<Stmt> = vec![];
    for (k, row) in list.elems.iter().enumerate() {
        let Expr::Tuple(row) = row else { return None };
        if row.elems.len() != names.elems.len() {
            return None;
        }
        let mut body = l.body.clone();
        let mut lets: Vec<Stmt> = vec![];
        for (n, x) in names.elems.iter().zip(&row.elems) {
            let (Pat::Ident(n), Expr::Path(_)) = (n, x) else { return None };
            let n = &n.ident;
            Bare(n.clone()).visit_block_mut(&mut body);
            lets.push(parse_quote! { let #n = #x; });
        }
        out.push(parse_quote! { { let #i: usize = #k; #(#lets)* #body } });
    }
    Some(parse_quote! {{ #(#out)* }})
}

impl VisitMut for Tables {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(l) = &*e {
            if let Some(n) = unrolled(l) {
                *e = n;
                return;
            }
        }
        if let Some(n) = self.lookup(e) {
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
