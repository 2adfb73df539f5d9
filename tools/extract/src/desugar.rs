//! Rewrites of Rust constructs outside the Verus dialect into equivalent ones.
//! Every rewrite is local and listed in DESIGN.md ("Extraction", R1..).
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

thread_local! {
    /// return types of the functions of the repository, by name, when all of that name agree
    /// (only filled for `format exact`)
    pub static RETURNS: std::cell::RefCell<std::collections::BTreeMap<String, Option<Type>>> = Default::default();
    /// field names: 1 when a struct has an Option of that name and none a Result or array
    pub static FIELDS: std::cell::RefCell<std::collections::BTreeMap<String, u8>> = Default::default();
}
fn returned(e: &Expr) -> Option<Type> {
    let n = match unparen(e) {
        Expr::MethodCall(m) => m.method.to_string(),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last()?.ident.to_string(),
            _ => return None,
        },
        _ => return None,
    };
    RETURNS.with(|r| r.borrow().get(&n).cloned().flatten())
}
pub fn is_opt_ty(t: &Type) -> bool {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false),
        _ => false,
    }
}

pub struct LoopInfo {
    pub muts: Vec<String>,
    pub header: String,
}

pub struct Desugar {
    pub fid: usize,
    pub loops: Vec<LoopInfo>,
    pub notes: BTreeSet<String>,
    /// locals and parameters known to hold an array or Vec by value
    pub owned: BTreeSet<String>,
    /// locals and parameters known to be an Option
    pub options: BTreeSet<String>,
}

fn is_owned_ty(t: &Type) -> bool {
    match t {
        Type::Array(_) => true,
        Type::Path(p) => p.path.segments.last().map(|s| s.ident == "Vec" || s.ident == "ArrayVec").unwrap_or(false),
        _ => false,
    }
}

struct Owned<'b>(&'b mut BTreeSet<String>);
impl<'a, 'b> Visit<'a> for Owned<'b> {
    fn visit_local(&mut self, l: &'a Local) {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            p => (p, None),
        };
        if let Pat::Ident(i) = pat {
            let mut o = ty.map(is_owned_ty).unwrap_or(false);
            if let (None, Some(init)) = (ty, &l.init) {
                o = match &*init.expr {
                    Expr::Array(_) | Expr::Repeat(_) => true,
                    Expr::Macro(m) => m.mac.path.is_ident("vec"),
                    Expr::Call(c) => match &*c.func {
                        Expr::Path(p) => p.path.segments.iter().any(|s| s.ident == "Vec" || s.ident == "ArrayVec"),
                        _ => false,
                    },
                    _ => false,
                };
            }
            if o {
                self.0.insert(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
}

pub fn owned_of(sig: &Signature, b: &Block) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                if is_owned_ty(&t.ty) {
                    out.insert(i.ident.to_string());
                }
            }
        }
    }
    Owned(&mut out).visit_block(b);
    out
}

struct Muts {
    declared: BTreeSet<String>,
    seen: Vec<String>,
}
impl<'a> Visit<'a> for Muts {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.declared.insert(p.ident.to_string());
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.note(&a.left);
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        use BinOp::*;
        if matches!(
            b.op,
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_)
                | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
        ) {
            self.note(&b.left);
        }
        visit::visit_expr_binary(self, b);
    }
}
impl Muts {
    fn note(&mut self, e: &Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                let s = i.to_string();
                if !self.seen.contains(&s) {
                    self.seen.push(s);
                }
            }
        }
    }
}

fn muts_of(b: &Block) -> Vec<String> {
    let mut m = Muts { declared: BTreeSet::new(), seen: vec![] };
    m.visit_block(b);
    m.seen
        .iter()
        .filter(|s| !m.declared.contains(*s) && !s.starts_with("__"))
        .cloned()
        .collect()
}

enum Base {
    Slice(Expr),
    Range { lo: Expr, hi: Expr, incl: bool },
    Custom(Expr),
    /// `for p in &mut place`, `place.iter_mut()`
    SliceMut(Expr),
}

struct Src {
    base: Base,
    rev: bool,
    enumerate: bool,
    copied: bool,
    skip: Option<Expr>,
    take: Option<Expr>,
    step: Option<Expr>,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// Recognises `base.iter().adaptors...`; `in_for` also admits bare places.
fn source(e: &Expr, in_for: bool) -> Option<Src> {
    let e = unparen(e);
    match e {
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("iter", 0) => Some(Src {
                    base: Base::Slice((*m.receiver).clone()),
                    rev: false,
                    enumerate: false,
                    copied: false,
                    skip: None,
                    take: None,
                    step: None,
                }),
                ("bytes", 0) | ("chars", 0) | ("char_indices", 0) => Some(plain(Base::Custom(e.clone()))),
                ("rev", 0) if matches!(unparen(&m.receiver), Expr::MethodCall(b) if b.method == "bytes" && b.args.is_empty()) => {
                    Some(plain(Base::Custom(e.clone())))
                }
                ("step_by", 1) => {
                    let mut s = source(&m.receiver, false)?;
                    if s.step.is_some() || s.rev || !matches!(s.base, Base::Range { .. }) {
                        return None;
                    }
                    s.step = Some(m.args[0].clone());
                    Some(s)
                }
                ("iter_mut", 0) if matches!(unparen(&m.receiver), Expr::Path(_) | Expr::Field(_)) => {
                    Some(plain(Base::SliceMut((*m.receiver).clone())))
                }
                ("rev", 0) => {
                    let mut s = source(&m.receiver, false)?;
                    if s.enumerate || s.rev || s.step.is_some() || matches!(s.base, Base::SliceMut(_)) || matches!(s.base, Base::Custom(_)) {
                        return None;
                    }
                    s.rev = true;
                    Some(s)
                }
                ("enumerate", 0) => {
                    let mut s = source(&m.receiver, in_for)?;
                    if s.enumerate || s.skip.is_some() || s.take.is_some() {
                        return None;
                    }
                    s.enumerate = true;
                    Some(s)
                }
                ("copied", 0) | ("cloned", 0) => {
                    let mut s = source(&m.receiver, false)?;
                    if s.enumerate || !matches!(s.base, Base::Slice(_)) {
                        return None;
                    }
                    s.copied = true;
                    Some(s)
                }
                ("skip", 1) => {
                    let mut s = source(&m.receiver, false)?;
                    if s.skip.is_some() || s.take.is_some() || s.rev || !matches!(s.base, Base::Slice(_)) {
                        return None;
                    }
                    s.skip = Some(m.args[0].clone());
                    Some(s)
                }
                ("take", 1) => {
                    let mut s = source(&m.receiver, false)?;
                    if s.skip.is_some() || s.take.is_some() || s.rev || !matches!(s.base, Base::Slice(_)) {
                        return None;
                    }
                    s.take = Some(m.args[0].clone());
                    Some(s)
                }
                ("clone", 0) if in_for => Some(plain(Base::Custom(e.clone()))),
                _ if in_for => Some(plain(Base::Slice(e.clone()))),
                _ => None,
            }
        }
        Expr::Range(r) => {
            let lo = r.start.as_deref()?.clone();
            let hi = r.end.as_deref()?.clone();
            let incl = matches!(r.limits, RangeLimits::Closed(_));
            Some(plain(Base::Range { lo, hi, incl }))
        }
        Expr::Path(_) | Expr::Field(_) | Expr::Try(_) | Expr::Index(_) if in_for => {
            Some(plain(Base::Slice(e.clone())))
        }
        Expr::Reference(r) if in_for => {
            if r.mutability.is_some() {
                match unparen(&r.expr) {
                    Expr::Path(_) | Expr::Field(_) => Some(plain(Base::SliceMut((*r.expr).clone()))),
                    _ => None,
                }
            } else {
                Some(plain(Base::Slice(e.clone())))
            }
        }
        _ => None,
    }
}

fn plain(base: Base) -> Src {
    Src { base, rev: false, enumerate: false, copied: false, skip: None, take: None, step: None }
}

/// Statements binding pattern `p` to an element given as a reference expression `r`
/// (type &T) and as a value expression `v` (type T, for Copy patterns).
fn bind(p: &Pat, r: &TokenStream, v: &TokenStream) -> Option<TokenStream> {
    match p {
        Pat::Reference(pr) => {
            let inner = &pr.pat;
            match &**inner {
                // `&&x` over an iterator of references
                Pat::Reference(_) => None,
                Pat::Tuple(_) | Pat::TupleStruct(_) => {
                    Some(quote! { let #inner = #v; })
                }
                _ => Some(quote! { let #inner = #v; }),
            }
        }
        Pat::Wild(_) => Some(quote! {}),
        Pat::Type(t) => {
            let inner = &t.pat;
            bind(inner, r, v)
        }
        Pat::Paren(t) => bind(&t.pat, r, v),
        _ => Some(quote! { let #p = #r; }),
    }
}

impl Desugar {
    pub fn new(fid: usize) -> Self {
        Desugar { fid, loops: vec![], notes: BTreeSet::new(), owned: BTreeSet::new(), options: BTreeSet::new() }
    }

    fn reserve(&mut self, header: String) -> usize {
        self.loops.push(LoopInfo { muts: vec![], header });
        self.loops.len() - 1
    }

    /// Builds the loop block for `source`; `body` gets the element bindings in front.
    fn build(
        &mut self,
        k: usize,
        s: Src,
        pat: &Pat,
        body: Vec<Stmt>,
        label: Option<Label>,
    ) -> Option<TokenStream> {
        let fid = self.fid;
        let i = format_ident!("__i{}", k);
        let sv = format_ident!("__s{}", k);
        let ev = format_ident!("__e{}", k);
        let lo = format_ident!("__lo{}", k);
        let (epat, ipat): (Pat, Option<Pat>) = if s.enumerate {
            match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[1].clone(), Some(t.elems[0].clone())),
                _ => return None,
            }
        } else {
            (pat.clone(), None)
        };
        match s.base {
            Base::Slice(b) => {
                let r = quote! { (&#sv[#i]) };
                let v = quote! { #sv[#i] };
                let bindp = if s.copied {
                    quote! { let #epat = #v; }
                } else {
                    bind(&epat, &r, &v)?
                };
                // owned places are borrowed, references are used as they are
                let src = match unparen(&b) {
                    Expr::Path(p) => {
                        let own = p.path.get_ident().map(|i| self.owned.contains(&i.to_string())).unwrap_or(false);
                        if own {
                            quote! { &#b }
                        } else {
                            quote! { #b }
                        }
                    }
                    Expr::Index(_) | Expr::Field(_) => quote! { &#b },
                    _ => quote! { #b },
                };
                let skip = s.skip.map(|x| x.to_token_stream()).unwrap_or(quote! { 0 });
                let end = match s.take {
                    Some(t) => quote! { crate::dep::min_len(#t, #sv.len()) },
                    None => quote! { #sv.len() },
                };
                if s.rev {
                    if ipat.is_some() {
                        return None;
                    }
                    Some(quote! {{
                        let #sv = #src;
                        let mut #i: usize = #sv.len();
                        __before!(#fid, #k);
                        #label while #i > 0 {
                            __inv!(#fid, #k);
                            #i = #i - 1;
                            #bindp
                            __lstart!(#fid, #k);
                            #(#body)*
                            __lend!(#fid, #k);
                        }
                        __after!(#fid, #k);
                    }})
                } else {
                    let ib = match ipat {
                        Some(p) => quote! { let #p = #i; },
                        None => quote! {},
                    };
                    Some(quote! {{
                        let #sv = #src;
                        let mut #i: usize = #skip;
                        let #ev: usize = #end;
                        __before!(#fid, #k);
                        #label while #i < #ev {
                            __inv!(#fid, #k);
                            #ib
                            #bindp
                            #i = #i + 1;
                            __lstart!(#fid, #k);
                            #(#body)*
                            __lend!(#fid, #k);
                        }
                        __after!(#fid, #k);
                    }})
                }
            }
            Base::Range { lo: a, hi: b, incl } => {
                if ipat.is_some() || s.copied {
                    return None;
                }
                let step = s.step.map(|x| x.to_token_stream()).unwrap_or(quote! { 1 });
                let b2 = if incl { quote! { (#b) + 1 } } else { quote! { #b } };
                if s.rev {
                    Some(quote! {{
                        let #lo = #a;
                        let mut #i = #b2;
                        __before!(#fid, #k);
                        #label while #i > #lo {
                            __inv!(#fid, #k);
                            #i = #i - 1;
                            let #epat = #i;
                            __lstart!(#fid, #k);
                            #(#body)*
                            __lend!(#fid, #k);
                        }
                        __after!(#fid, #k);
                    }})
                } else {
                    Some(quote! {{
                        let mut #i = #a;
                        let #ev = #b2;
                        __before!(#fid, #k);
                        #label while #i < #ev {
                            __inv!(#fid, #k);
                            let #epat = #i;
                            #i = #i + #step;
                            __lstart!(#fid, #k);
                            #(#body)*
                            __lend!(#fid, #k);
                        }
                        __after!(#fid, #k);
                    }})
                }
            }
            Base::SliceMut(b) => {
                let ib = match ipat {
                    Some(p) => quote! { let #p = #i; },
                    None => quote! {},
                };
                Some(quote! {{
                    let mut #i: usize = 0;
                    let #ev: usize = #b.len();
                    __before!(#fid, #k);
                    #label while #i < #ev {
                        __inv!(#fid, #k);
                        #ib
                        __lstart!(#fid, #k);
                        let #epat = &mut #b[#i];
                        #i = #i + 1;
                        #(#body)*
                        __lend!(#fid, #k);
                    }
                    __after!(#fid, #k);
                }})
            }
            Base::Custom(b) => {
                let it = format_ident!("__it{}", k);
                let (cnt, bump) = match ipat {
                    Some(p) => (quote! { let #p = #i; }, quote! { #i = #i + 1; }),
                    None => (quote! {}, quote! { #i = #i + 1; }),
                };
                Some(quote! {{
                    let mut #it = #b;
                    let mut #i: usize = 0;
                    __before!(#fid, #k);
                    #label loop {
                        __inv!(#fid, #k);
                        match #it.next() {
                            None => { break; }
                            Some(#epat) => {
                                #cnt
                                #bump
                                __lstart!(#fid, #k);
                                #(#body)*
                                __lend!(#fid, #k);
                            }
                        }
                    }
                    __after!(#fid, #k);
                }})
            }
        }
    }

    fn while_markers(&mut self, k: usize, body: &mut Block) {
        let fid = self.fid;
        let inv: Stmt = parse_quote! { __inv!(#fid, #k); };
        let st: Stmt = parse_quote! { __lstart!(#fid, #k); };
        let en: Stmt = parse_quote! { __lend!(#fid, #k); };
        body.stmts.insert(0, inv);
        body.stmts.insert(1, st);
        // the last expression of a loop body is of type (); give it a semicolon
        if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
            if !matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_)) {
                *semi = Some(Default::default());
            }
        }
        let diverges = matches!(
            body.stmts.last(),
            Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _))
        );
        if !diverges {
            body.stmts.push(en);
        }
    }

    /// R6: closure-taking methods of Option and Result become matches
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let clos = |e: &Expr, n: usize| -> Option<(Vec<Pat>, Expr)> {
            match e {
                Expr::Closure(c) if c.inputs.len() == n => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
                _ => None,
            }
        };
        let opt = self.is_option(recv);
        let path = |e: &Expr| matches!(e, Expr::Path(_)) && RETURNS.with(|r| !r.borrow().is_empty());
        let r: Expr = match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                let (p, b) = clos(&m.args[0], 1)?;
                let p = &p[0];
                parse_quote! { match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) } }
            }
            ("map", 1) if opt && path(&m.args[0]) => {
                let f = &m.args[0];
                parse_quote! { match #recv { Some(__v) => Some(#f(__v)), None => None } }
            }
            ("and_then", 1) if opt && path(&m.args[0]) => {
                let f = &m.args[0];
                parse_quote! { match #recv { Some(__v) => #f(__v), None => None } }
            }
            ("map", 1) if opt => {
                let (p, b) = clos(&m.args[0], 1)?;
                let p = &p[0];
                parse_quote! { match #recv { Some(#p) => Some(#b), None => None } }
            }
            ("and_then", 1) if opt => {
                let (p, b) = clos(&m.args[0], 1)?;
                let p = &p[0];
                parse_quote! { match #recv { Some(#p) => #b, None => None } }
            }
            ("flatten", 0) if opt => {
                parse_quote! { match #recv { Some(__v) => __v, None => None } }
            }
            ("ok_or_else", 1) => {
                let (_, b) = clos(&m.args[0], 0)?;
                parse_quote! { match #recv { Some(__v) => Ok(__v), None => Err(#b) } }
            }
            ("unwrap_or_else", 1) if opt => {
                let (_, b) = clos(&m.args[0], 0)?;
                parse_quote! { match #recv { Some(__v) => __v, None => #b } }
            }
            ("unwrap_or_else", 1) if clos(&m.args[0], 1).is_some() => {
                let (p, b) = clos(&m.args[0], 1)?;
                let p = &p[0];
                parse_quote! { match #recv { Ok(__v) => __v, Err(#p) => #b } }
            }
            ("or_else", 1) if opt => {
                let (_, b) = clos(&m.args[0], 0)?;
                parse_quote! { match #recv { Some(__v) => Some(__v), None => #b } }
            }
            ("then_with", 1) => {
                let (_, b) = clos(&m.args[0], 0)?;
                parse_quote! { match #recv { core::cmp::Ordering::Equal => #b, __o => __o } }
            }
            ("map_or", 2) if opt => {
                let (p, b) = clos(&m.args[1], 1)?;
                let p = &p[0];
                let d = &m.args[0];
                parse_quote! { match #recv { Some(#p) => #b, None => #d } }
            }
            ("map_or_else", 2) if opt && path(&m.args[1]) => {
                let (_, d) = clos(&m.args[0], 0)?;
                let f = &m.args[1];
                parse_quote! { match #recv { Some(__v) => #f(__v), None => #d } }
            }
            ("is_some_and", 1) => {
                let (p, b) = clos(&m.args[0], 1)?;
                let p = &p[0];
                parse_quote! { match #recv { Some(#p) => #b, None => false } }
            }
            ("then", 1) => {
                let (_, b) = clos(&m.args[0], 0)?;
                parse_quote! { if #recv { Some(#b) } else { None } }
            }
            ("then_some", 1) => {
                let b = &m.args[0];
                parse_quote! { { let __t = #b; if #recv { Some(__t) } else { None } } }
            }
            _ => return None,
        };
        // a closure body with `return` or `?` would change meaning
        struct Esc(bool);
        impl<'a> Visit<'a> for Esc {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'a ExprTry) {
                self.0 = true;
            }
        }
        for a in &m.args {
            if let Expr::Closure(c) = a {
                let mut e = Esc(false);
                e.visit_expr(&c.body);
                if e.0 {
                    return None;
                }
            }
        }
        self.notes.insert(format!("R6 .{name}(closure) -> match"));
        let mut r = r;
        RefPats(false).visit_expr_mut(&mut r);
        Some(r)
    }

    fn is_option(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "find" | "position" | "first" | "last" | "get" | "get_mut" | "next" | "ok" | "then" | "then_some" | "split_first"
                    | "split_last" | "find_map" | "to_digit" | "as_str" | "as_ref_opt" => true,
                    "as_ref" | "as_deref" if RETURNS.with(|r| !r.borrow().is_empty()) => true,
                    "copied" | "cloned" | "clone" | "map" | "and_then" | "filter" | "or" | "as_ref" | "or_else" => self.is_option(&m.receiver),
                    _ => n.starts_with("checked_") || n.starts_with("strip_") || returned(e).is_some_and(|t| is_opt_ty(&t)),
                }
            }
            // R23 with Option
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(Expr::If(i), None)) => match i.then_branch.stmts.last() {
                    Some(Stmt::Expr(t, None)) => i.else_branch.is_some() && self.is_option(t),
                    _ => false,
                },
                _ => false,
            },
            Expr::Field(f) => match &f.member {
                Member::Named(n) => FIELDS.with(|r| r.borrow().get(&n.to_string()) == Some(&1)),
                _ => false,
            },
            Expr::Path(p) => p.path.get_ident().map(|i| self.options.contains(&i.to_string())).unwrap_or(false),
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) || returned(e).is_some_and(|t| is_opt_ty(&t)),
            _ => false,
        }
    }

    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let fid = self.fid;
        let clos = |e: &Expr| -> Option<ExprClosure> {
            match e {
                Expr::Closure(c) => Some(c.clone()),
                _ => None,
            }
        };
        match (name.as_str(), m.args.len()) {
            ("fold", 2) => {
                let s = source(&m.receiver, false)?;
                let c = clos(&m.args[1])?;
                if c.inputs.len() != 2 {
                    return None;
                }
                let k = self.reserve("fold".into());
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let (accp, accty): (Pat, TokenStream) = match &c.inputs[0] {
                    Pat::Type(t) => {
                        let ty = &t.ty;
                        ((*t.pat).clone(), quote! { : #ty })
                    }
                    p => (p.clone(), quote! {}),
                };
                let acc = match &accp {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => return None,
                };
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                self.loops[k].muts = vec![acc.to_string()];
                let body: Vec<Stmt> = vec![parse_quote! { #acc = #b; }];
                let blk = self.build(k, s, &c.inputs[1], body, None)?;
                self.notes.insert("R3 iter().fold(..) -> loop".into());
                let _ = fid;
                Some(parse_quote! {{ let mut #acc #accty = #init; #blk #acc }})
            }
            ("count", 0) => {
                // xs.iter().take_while(p).count()
                let tw = match unparen(&m.receiver) {
                    Expr::MethodCall(t) if t.method == "take_while" && t.args.len() == 1 => t.clone(),
                    _ => return None,
                };
                let mut s = source(&tw.receiver, false)?;
                let c = clos(&tw.args[0])?;
                // the predicate receives a reference to the item
                let pat = match &c.inputs[0] {
                    Pat::Reference(p) => (*p.pat).clone(),
                    Pat::Ident(_) => {
                        // |b| with b: &&T or &T used through auto-deref: unsupported
                        return None;
                    }
                    _ => return None,
                };
                if s.rev || s.enumerate {
                    return None;
                }
                let k = self.reserve("take_while.count".into());
                if let Base::Slice(b) = &mut s.base {
                    self.visit_expr_mut(b);
                }
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                let cnt = format_ident!("__n{}", k);
                let body: Vec<Stmt> = vec![parse_quote! { if !(#b) { break; } }, parse_quote! { #cnt = #cnt + 1; }];
                self.loops[k].muts = vec![cnt.to_string()];
                let blk = self.build(k, s, &pat, body, None)?;
                self.notes.insert("R4 iter().take_while(p).count() -> loop".into());
                Some(parse_quote! {{ let mut #cnt: usize = 0; #blk #cnt }})
            }
            ("find", 1) | ("any", 1) | ("all", 1) | ("position", 1) => {
                let mut s = source(&m.receiver, false)?;
                let c = clos(&m.args[0])?;
                if s.rev || s.enumerate || c.inputs.len() != 1 {
                    return None;
                }
                let k = self.reserve(name.clone());
                if let Base::Slice(b) = &mut s.base {
                    self.visit_expr_mut(b);
                }
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                let res = format_ident!("__r{}", k);
                let i = format_ident!("__i{}", k);
                let sv = format_ident!("__s{}", k);
                self.loops[k].muts = vec![res.to_string()];
                let (init, hit, pat): (TokenStream, TokenStream, Pat) = match name.as_str() {
                    "find" => {
                        if s.copied || matches!(s.base, Base::Custom(_)) {
                            return None;
                        }
                        (quote! { None }, quote! { if #b { #res = Some(&#sv[#i - 1]); break; } }, c.inputs[0].clone())
                    }
                    "any" => (quote! { false }, quote! { if #b { #res = true; break; } }, c.inputs[0].clone()),
                    "all" => (quote! { true }, quote! { if !(#b) { #res = false; break; } }, c.inputs[0].clone()),
                    _ => (quote! { None::<usize> }, quote! { if #b { #res = Some(#i - 1); break; } }, c.inputs[0].clone()),
                };
                // `find` passes a reference to the item (&&T); destructuring through
                // default binding modes sees the same bindings on &T.
                let body: Vec<Stmt> = vec![parse2(hit).ok()?];
                let blk = self.build(k, s, &pat, body, None)?;
                self.notes.insert(format!("R5 iter().{name}(p) -> loop"));
                Some(parse_quote! {{ let mut #res = #init; #blk #res }})
            }
            _ => None,
        }
    }
}

impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let fid = self.fid;
        let old = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut st in old {
            match st {
                Stmt::Expr(Expr::While(ref mut w), _) => {
                    let k = self.reserve(format!("while {}", w.cond.to_token_stream()));
                    let m = muts_of(&w.body);
                    self.loops[k].muts = m;
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    self.while_markers(k, &mut w.body);
                    out.push(parse_quote! { __before!(#fid, #k); });
                    out.push(st);
                    out.push(parse_quote! { __after!(#fid, #k); });
                }
                Stmt::Expr(Expr::Loop(ref mut w), _) => {
                    let k = self.reserve("loop".into());
                    self.loops[k].muts = muts_of(&w.body);
                    self.visit_block_mut(&mut w.body);
                    self.while_markers(k, &mut w.body);
                    out.push(parse_quote! { __before!(#fid, #k); });
                    out.push(st);
                }
                _ => {
                    self.visit_stmt_mut(&mut st);
                    out.push(st);
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let pat = (*f.pat).clone();
                let hdr = format!("for {} in {}", pat.to_token_stream(), f.expr.to_token_stream());
                if let Some(mut s) = source(&f.expr, true) {
                    let k = self.reserve(hdr);
                    self.loops[k].muts = muts_of(&f.body);
                    match &mut s.base {
                        Base::Slice(b) => self.visit_expr_mut(b),
                        Base::Range { lo, hi, .. } => {
                            self.visit_expr_mut(lo);
                            self.visit_expr_mut(hi);
                        }
                        Base::Custom(b) | Base::SliceMut(b) => self.visit_expr_mut(b),
                    }
                    let mut body = f.body.clone();
                    self.visit_block_mut(&mut body);
                    if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    let label = f.label.clone();
                    if let Some(ts) = self.build(k, s, &pat, body.stmts, label) {
                        self.notes.insert("R1 for -> while with explicit index".into());
                        *e = parse2(ts).expect("loop block");
                        return;
                    }
                } else {
                    let k = self.reserve(hdr);
                    self.loops[k].muts = muts_of(&f.body);
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::While(w) => {
                let k = self.reserve("while".into());
                self.loops[k].muts = muts_of(&w.body);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.while_markers(k, &mut w.body);
            }
            Expr::Loop(w) => {
                let k = self.reserve("loop".into());
                self.loops[k].muts = muts_of(&w.body);
                self.visit_block_mut(&mut w.body);
                self.while_markers(k, &mut w.body);
            }
            Expr::MethodCall(m) => {
                // an inclusive range argument of `get` becomes exclusive (the sum is checked for overflow)
                if m.method == "get" && m.args.len() == 1 {
                    if let Expr::Range(r) = unparen(&m.args[0]) {
                        if let (RangeLimits::Closed(_), Some(b)) = (&r.limits, &r.end) {
                            let a = &r.start;
                            let n: Expr = parse_quote! { #a..((#b) + 1) };
                            self.notes.insert("get(a..=b) -> get(a..b + 1)".into());
                            m.args[0] = n;
                        }
                    }
                }
                // R18: Vec::retain as a loop that removes what does not match
                if m.method == "retain" && m.args.len() == 1 {
                    if let (Expr::Path(v), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                        if c.inputs.len() == 1 {
                            let i = format_ident!("v_ret{}", self.loops.len());
                            let (p, b) = (&c.inputs[0], &c.body);
                            let mut n: Expr = parse_quote! {{
                                let mut #i: usize = 0;
                                while #i < #v.len() {
                                    let __keep = { let #p = &#v[#i]; #b };
                                    if __keep { #i = #i + 1; } else { #v.remove(#i); }
                                }
                            }};
                            self.notes.insert("R18 retain(p) -> loop with remove".into());
                            self.visit_expr_mut(&mut n);
                            *e = n;
                            return;
                        }
                    }
                }
                if let Some(n) = self.chain(m) {
                    *e = n;
                    return;
                }
                // R9: a slice iterator kept in a variable becomes dep::SIter
                if m.method == "iter" && m.args.is_empty() {
                    self.notes.insert("R9 slice.iter() -> dep::SIter".into());
                    m.method = format_ident!("v_iter");
                }
                if let Some(mut n) = self.combinator(m) {
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            // R16: `matches!` written out
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let n = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    let _: Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) {
                        let _: Token![if] = i.parse()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok(match g {
                        Some(g) => parse_quote! { (match #x { #p if #g => true, _ => false }) },
                        None => parse_quote! { (match #x { #p => true, _ => false }) },
                    })
                });
                if let Ok(n) = n {
                    self.notes.insert("R16 matches! -> match".into());
                    *e = n;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_item_mut(&mut self, _i: &mut Item) {
        // items nested in function bodies (macros, type aliases) stay as they are
    }
}

/// R7: type aliases declared inside a function body are written out.
struct Alias(std::collections::BTreeMap<String, Type>);
impl VisitMut for Alias {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let m = &mut self.0;
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Type(t)) if t.generics.params.is_empty() => {
                m.insert(t.ident.to_string(), (*t.ty).clone());
                false
            }
            // R8: local imports were hoisted to the module
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() && e.path.segments.len() > 1 {
            if let Some(t) = self.0.get(&e.path.segments[0].ident.to_string()) {
                let rest: Vec<_> = e.path.segments.iter().skip(1).collect();
                *e = parse_quote! { <#t>::#(#rest)::* };
            }
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.0.get(&i.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// R17: `&x` inside a pattern becomes `x` followed by `let x = *x;`
struct RefPat(Vec<Ident>);
impl VisitMut for RefPat {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let (Pat::Ident(i), None) = (&*r.pat, &r.mutability) {
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() {
                    self.0.push(i.ident.clone());
                    let n = (*r.pat).clone();
                    *p = n;
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
fn strip_refs(p: &mut Pat) -> Vec<Stmt> {
    if matches!(p, Pat::Reference(_) | Pat::Ident(_)) {
        return vec![];
    }
    let mut r = RefPat(vec![]);
    r.visit_pat_mut(p);
    r.0.iter().map(|i| parse_quote! { let #i = *#i; }).collect()
}
struct RefPats(bool);
impl VisitMut for RefPats {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut st in old {
            let mut more = vec![];
            if let Stmt::Local(l) = &mut st {
                if l.init.as_ref().is_some_and(|i| i.diverge.is_some()) {
                    more = strip_refs(&mut l.pat);
                }
            }
            self.0 |= !more.is_empty();
            visit_mut::visit_stmt_mut(self, &mut st);
            b.stmts.push(st);
            b.stmts.extend(more);
        }
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        if let Expr::Let(l) = &mut *e.cond {
            let more = strip_refs(&mut l.pat);
            self.0 |= !more.is_empty();
            e.then_branch.stmts.splice(0..0, more);
        }
        visit_mut::visit_expr_if_mut(self, e);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if a.guard.is_none() {
            let more = strip_refs(&mut a.pat);
            if !more.is_empty() {
                self.0 = true;
                let b = &a.body;
                *a.body = parse_quote! {{ #(#more)* #b }};
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Collects what the rewriting needs to know about names.
pub fn prepass(sig: &mut Signature, block: &mut Block, d: &mut Desugar) {
    Alias(Default::default()).visit_block_mut(block);
    let mut rp = RefPats(false);
    rp.visit_block_mut(block);
    if rp.0 {
        d.notes.insert("R17 &x in a pattern -> x, dereferenced after".into());
    }
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), true) = (&*t.pat, is_opt_ty(&t.ty)) {
                d.options.insert(i.ident.to_string());
            }
        }
    }
    struct L(Vec<(String, Option<Type>, Option<Expr>)>);
    impl<'a> Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            let (p, t) = match &l.pat {
                Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())),
                p => (p, None),
            };
            if let Pat::Ident(i) = p {
                self.0.push((i.ident.to_string(), t, l.init.as_ref().map(|x| (*x.expr).clone())));
            } else if let (Pat::Tuple(p), Some(Type::Tuple(ty))) = (p, l.init.as_ref().and_then(|x| returned(&x.expr))) {
                for (p, t) in p.elems.iter().zip(ty.elems) {
                    if let Pat::Ident(i) = p {
                        self.0.push((i.ident.to_string(), Some(t), None));
                    }
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut l = L(vec![]);
    l.visit_block(block);
    for (n, t, e) in l.0 {
        if t.as_ref().map(is_opt_ty).unwrap_or(false) || e.map(|e| d.is_option(&e)).unwrap_or(false) {
            d.options.insert(n);
        }
    }
}
