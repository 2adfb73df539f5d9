//! R15: texts made by `format!`.
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Drops the text: the arguments that index or calculate (and so could panic) are
/// still evaluated, the others are left out, the result is some text.
pub struct Drop;

fn arguments(m: &Macro) -> Vec<Expr> {
    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
    let Ok(a) = p.parse2(m.tokens.clone()) else { return vec![] };
    a.into_iter()
        .skip(1)
        .map(|e| match e {
            Expr::Assign(a) => *a.right,
            e => e,
        })
        .collect()
}

#[derive(Default)]
struct Partial(bool);
impl<'a> Visit<'a> for Partial {
    fn visit_expr_index(&mut self, _: &'a ExprIndex) {
        self.0 = true;
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        use BinOp::*;
        if matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Shl(_) | Shr(_)) {
            self.0 = true;
        }
        visit::visit_expr_binary(self, b);
    }
}

impl VisitMut for Drop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("format") {
                let keep: Vec<Expr> = arguments(&m.mac)
                    .into_iter()
                    .filter(|a| {
                        let mut p = Partial::default();
                        p.visit_expr(a);
                        p.0
                    })
                    .collect();
                *e = parse_quote! {{ #(crate::dep::v_use(&(#keep));)* crate::dep::v_text() }};
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// R19..R22, chosen by `format exact`: texts keep their content.
pub struct Exact {
    /// the function returns a Result
    pub result: bool,
    /// the function returns a String
    pub text: bool,
    n: usize,
}

impl Exact {
    pub fn new(sig: &Signature) -> Self {
        let is = |n: &str| match &sig.output {
            ReturnType::Type(_, t) => matches!(&**t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == n)),
            _ => false,
        };
        Exact { result: is("Result"), text: is("String"), n: 0 }
    }

    pub fn function(&mut self, s: &mut Signature, b: &mut Block) {
        self.visit_signature_mut(s);
        // R27: a local constant list becomes a local variable
        for s in &mut b.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                let (name, Type::Reference(t), Expr::Reference(x)) = (&c.ident, &*c.ty, &*c.expr) else { continue };
                let (Type::Slice(t), Expr::Array(a)) = (&*t.elem, &*x.expr) else { continue };
                let (t, a) = (&t.elem, &a.elems);
                *s = parse_quote! { let #name: Vec<#t> = vec![#a]; };
            }
        }
        // R23: texts collected into the text returned
        if let (true, Some(Stmt::Expr(e, None))) = (self.text, b.stmts.last_mut()) {
            if let (Expr::MethodCall(c), Some((src, p, x))) = (&*e, Self::collected(e)) {
                if c.turbofish.is_none() && matches!(&x, Expr::Macro(m) if m.mac.path.is_ident("format")) {
                    *e = parse_quote! {{
                        let mut v_col = crate::dep::v_new();
                        for #p in #src { let __w = #x; crate::dep::v_add(&mut v_col, &__w); }
                        v_col
                    }};
                }
            }
        }
        self.visit_block_mut(b);
    }

    /// R19: `format!` with plain placeholders appends its parts to an empty text
    fn format(&mut self, m: &Macro) -> Option<Expr> {
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        let a: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
        let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = a.first()? else { return None };
        let f = f.value();
        let mut args = a.iter().skip(1);
        let mut lit = String::new();
        let mut parts: Vec<Stmt> = vec![];
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            if c == '}' || (c == '{' && it.peek() == Some(&'{')) {
                if it.next() != Some(c) {
                    return None;
                }
                lit.push(c);
                continue;
            }
            if c != '{' {
                lit.push(c);
                continue;
            }
            let mut body = String::new();
            loop {
                match it.next()? {
                    '}' => break,
                    c => body.push(c),
                }
            }
            if !lit.is_empty() {
                parts.push(parse_quote! { crate::dep::v_add(&mut __t, #lit); });
                lit.clear();
            }
            let (name, how) = body.split_once(':').unwrap_or((&body, ""));
            let mut e: Expr = if name.is_empty() { args.next()?.clone() } else { parse_str(name).ok()? };
            self.visit_expr_mut(&mut e);
            match how {
                "" => parts.push(parse_quote! { crate::dep::VShow::v_show(&(#e), &mut __t); }),
                "?" => parts.push(parse_quote! { crate::dep::VDebug::v_debug(&(#e), &mut __t); }),
                ".0" => parts.push(parse_quote! { crate::dep::VShow0::v_show0(&(#e), &mut __t); }),
                ".6" => parts.push(parse_quote! { crate::dep::VShow6::v_show6(&(#e), &mut __t); }),
                "02X" | "04X" => {
                    let n: usize = how[1..2].parse().ok()?;
                    parts.push(parse_quote! { crate::dep::VHex::v_hex(&(#e), #n, &mut __t); });
                }
                "02x" => parts.push(parse_quote! { crate::dep::VHexLow::v_hexlow(&(#e), &mut __t); }),
                "02" | "04" | "08" => {
                    let n: usize = how[1..2].parse().ok()?;
                    parts.push(parse_quote! { crate::dep::VPad::v_pad(&(#e), #n, &mut __t); });
                }
                _ => return None,
            }
        }
        if !lit.is_empty() {
            parts.push(parse_quote! { crate::dep::v_add(&mut __t, #lit); });
        }
        Some(parse_quote! {{ let mut __t = crate::dep::v_new(); #(#parts)* __t }})
    }

    /// R25: `write!` of a text made like R19 onto a formatter
    fn write(&mut self, m: &Macro) -> Option<Expr> {
        if !m.path.is_ident("write") {
            return None;
        }
        let p = Punctuated::<Expr, Token![,]>::parse_terminated;
        let a: Vec<Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
        let (f, rest) = a.split_first()?;
        let t = self.format(&parse_quote! { format!(#(#rest),*) })?;
        Some(parse_quote! {{ let __p = #t; #f.write_str(&__p) }})
    }

    /// a list whose elements are written out: `vec![a, b]`, `[a, b].map(f).to_vec()`
    fn listed(e: &Expr) -> Option<Vec<Expr>> {
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let p = Punctuated::<Expr, Token![,]>::parse_terminated;
                let a: Vec<Expr> = p.parse2(m.mac.tokens.clone()).ok()?.into_iter().collect();
                (a.len() > 1).then_some(a)
            }
            Expr::MethodCall(v) if v.method == "to_vec" && v.args.is_empty() => {
                let Expr::MethodCall(m) = &*v.receiver else { return None };
                let (Expr::Array(a), "map", Some(f @ Expr::Path(_)), 1) = (&*m.receiver, m.method.to_string().as_str(), m.args.first(), m.args.len()) else {
                    return None;
                };
                Some(a.elems.iter().map(|x| parse_quote! { #f(#x) }).collect())
            }
            _ => None,
        }
    }

    /// `source.map(|p| e).collect()`
    fn good_ones(f: &ExprForLoop) -> Option<Expr> {
        let call = |e: &Expr, n: &str| match e {
            Expr::MethodCall(c) if c.method == n && c.args.is_empty() => Some((*c.receiver).clone()),
            _ => None,
        };
        if f.label.is_some() {
            return None;
        }
        let (counted, from) = match call(&f.expr, "enumerate") {
            Some(x) => (true, x),
            None => (false, (*f.expr).clone()),
        };
        let from = call(&from, "flatten")?;
        call(&from, "clone")?;
        let body = &f.body.stmts;
        Some(if counted {
            let Pat::Tuple(t) = &*f.pat else { return None };
            if t.elems.len() != 2 {
                return None;
            }
            let (i, x) = (&t.elems[0], &t.elems[1]);
            parse_quote! {{
                let mut v_n: usize = 0;
                for v_got in #from {
                    if let Ok(#x) = v_got {
                        let #i = v_n;
                        v_n = v_n + 1;
                        #(#body)*
                    }
                }
            }}
        } else {
            let x = &f.pat;
            parse_quote! { for v_got in #from { if let Ok(#x) = v_got { #(#body)* } } }
        })
    }

    fn collected(e: &Expr) -> Option<(Expr, Pat, Expr)> {
        let Expr::MethodCall(c) = e else { return None };
        if c.method != "collect" || !c.args.is_empty() {
            return None;
        }
        let Expr::MethodCall(m) = &*c.receiver else { return None };
        if m.method != "map" || m.args.len() != 1 {
            return None;
        }
        if let f @ Expr::Path(_) = &m.args[0] {
            return Some(((*m.receiver).clone(), parse_quote! { __x }, parse_quote! { #f(__x) }));
        }
        let Some(Expr::Closure(f)) = m.args.first() else { return None };
        if f.inputs.len() != 1 {
            return None;
        }
        Some(((*m.receiver).clone(), f.inputs[0].clone(), (*f.body).clone()))
    }
}

/// R28: `collect` into a list or text named by the variable it is bound to
struct Collects(bool);
impl VisitMut for Collects {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(c) = &*e {
            if c.method == "collect" && c.args.is_empty() && c.turbofish.is_none() {
                if let (true, Some((src, p, x))) = (self.0, Exact::collected(&*e)) {
                    // the source is an iterator: what is run is a copy of it
                    let src: Expr = if matches!(src, Expr::Path(_)) { parse_quote! { #src.clone() } } else { src };
                    *e = parse_quote! {{ let mut v_col: Vec<_> = Vec::new(); for #p in #src { v_col.push(#x); } v_col }};
                    return;
                }
                let (src, copied) = match &*c.receiver {
                    Expr::MethodCall(m) if m.args.is_empty() && (m.method == "copied" || m.method == "cloned") => (&*m.receiver, true),
                    x => (x, false),
                };
                if matches!(src, Expr::MethodCall(m) if m.args.is_empty() && (m.method == "rev" || m.method == "iter")) && copied == self.0 {
                    *e = if self.0 {
                        parse_quote! {{ let mut v_col: Vec<_> = Vec::new(); for &__x in #src { v_col.push(__x); } v_col }}
                    } else {
                        parse_quote! {{ let mut v_col = crate::dep::v_new(); for &__x in #src { v_col.push(__x); } v_col }}
                    };
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// R24: a match of a text against literals becomes a chain of comparisons
fn compared(m: &ExprMatch) -> Option<Expr> {
    fn words(p: &Pat) -> Option<Vec<&Lit>> {
        match p {
            Pat::Lit(ExprLit { lit: l @ Lit::Str(_), .. }) => Some(vec![l]),
            Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(words(c)?);
                }
                Some(v)
            }
            _ => None,
        }
    }
    if !m.arms.iter().any(|a| words(&a.pat).is_some()) {
        return None;
    }
    let mut r: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let b = &a.body;
        let g = a.guard.as_ref().map(|g| (*g.1).clone());
        let c: Option<Expr> = match (words(&a.pat), g) {
            (Some(w), g) => {
                let mut t: Option<Expr> = None;
                for l in w {
                    let x: Expr = parse_quote! { crate::dep::v_same(__w, #l) };
                    t = Some(match t {
                        Some(t) => parse_quote! { #t || #x },
                        None => x,
                    });
                }
                let t = t?;
                Some(match g {
                    Some(g) => parse_quote! { (#t) && (#g) },
                    None => t,
                })
            }
            (None, g) if matches!(a.pat, Pat::Wild(_)) => g,
            _ => return None,
        };
        r = Some(match (c, r) {
            (None, _) => parse_quote! { { #b } },
            (Some(c), Some(Expr::Block(e))) => {
                parse_quote! { if #c { #b } else #e }
            }
            (Some(c), Some(e)) => parse_quote! { if #c { #b } else { #e } },
            (Some(_), None) => return None,
        });
    }
    let (s, r) = (&m.expr, r?);
    Some(parse_quote! {{ let __w = #s; #r }})
}

fn literal_text(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

impl VisitMut for Exact {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for st in old {
            // R20: a declared collection filled by map().collect()
            if let Stmt::Local(l) = &st {
                if let (Pat::Type(t), Some(i)) = (&l.pat, &l.init) {
                    if let (Pat::Ident(x), Type::Path(ty), Some((src, p, e))) = (&*t.pat, &*t.ty, Self::collected(&i.expr)) {
                        let x = &x.ident;
                        let mut two: Vec<Stmt> = vec![];
                        match ty.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                            Some("Vec") => two.push(parse_quote! { let mut #x: #ty = Vec::new(); }),
                            Some("String") => two.push(parse_quote! { let mut #x: #ty = crate::dep::v_new(); }),
                            _ => {}
                        }
                        if !two.is_empty() {
                            two.push(parse_quote! { for #p in #src { #x.push(#e); } });
                            b.stmts.extend(two);
                            continue;
                        }
                    }
                }
            }
            if let Stmt::Macro(m) = &st {
                if let Some(e) = self.write(&m.mac) {
                    b.stmts.push(Stmt::Expr(e, m.semi_token));
                    continue;
                }
            }
            b.stmts.push(st);
        }
        visit_mut::visit_block_mut(self, b);
    }

    // R25: the formatter and its result
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let w: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            match w.iter().map(String::as_str).collect::<Vec<_>>()[..] {
                [.., "fmt", "Formatter"] | ["Formatter"] => *t = parse_quote! { crate::dep::Formatter },
                [.., "fmt", "Result"] => *t = parse_quote! { Result<(), crate::dep::FmtError> },
                _ => {}
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        // R28: the type of the variable says what is collected
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            let ty = &t.ty;
            let ty = quote::quote!(#ty).to_string().replace(' ', "");
            if ty.starts_with("Vec<") || ty.ends_with("String") || ty == "Option<String>" {
                Collects(ty.starts_with("Vec<")).visit_expr_mut(&mut i.expr);
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R29: the good ones of the results an iterator gives, counted
        if let Expr::ForLoop(f) = e {
            if let Some(l) = Self::good_ones(f) {
                *e = l;
            }
        }
        // R27: lists written out as pushes
        if let Some(items) = Self::listed(e) {
            *e = parse_quote! {{
                let mut v_list: Vec<_> = Vec::new();
                #(v_list.push(#items);)*
                v_list
            }};
        }
        if let Expr::MethodCall(c) = &mut *e {
            let text = c.method == "collect"
                && c.turbofish.as_ref().is_some_and(|t| quote::quote!(#t).to_string().replace(' ', "") == "::<String>");
            if text && matches!(&*c.receiver, Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter") {
                c.turbofish = None;
                Collects(false).visit_expr_mut(e);
            }
        }
        if let Expr::MethodCall(c) = e {
            if c.method == "extend" && c.args.len() == 1 {
                let to = &c.receiver;
                let from = match &c.args[0] {
                    Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match &m.args[0] {
                        Expr::Closure(k) if k.inputs.len() == 1 && !matches!(&*k.body, Expr::Block(_)) => {
                            let (src, p, x) = (&m.receiver, &k.inputs[0], &k.body);
                            Some(parse_quote! {{ for #p in #src { let __x = #x; #to.push(__x); } }})
                        }
                        _ => None,
                    },
                    x @ (Expr::Call(_) | Expr::Path(_)) => Some(parse_quote! {{ let v_more = #x; for __x in &v_more { #to.push(__x.clone()); } }}),
                    _ => None,
                };
                if let Some(n) = from {
                    *e = n;
                }
            }
        }
        if let Expr::Return(r) = e {
            if let (true, Some((src, p, b))) = (self.result, r.expr.as_ref().and_then(|x| Self::collected(x))) {
                self.n += 1;
                *e = parse_quote! { return {
                    let mut v_col: Vec<_> = Vec::new();
                    for #p in #src {
                        match #b { Ok(__v) => { v_col.push(__v); } Err(__e) => { return Err(__e); } }
                    }
                    Ok(v_col)
                } };
            }
        }
        // R23: map().collect() into a list named by its type
        if let (Expr::MethodCall(c), Some((src, p, x))) = (&*e, Self::collected(e)) {
            let t = c.turbofish.as_ref().and_then(|t| t.args.first()).map(|a| quote::quote!(#a).to_string().replace(' ', ""));
            match t.as_deref() {
                Some("Vec<_>") => {
                    *e = parse_quote! {{
                        let mut v_col: Vec<_> = Vec::new();
                        for #p in #src { v_col.push(#x); }
                        v_col
                    }};
                }
                Some("Option<Vec<_>>") => {
                    *e = parse_quote! {{
                        let mut v_col: Vec<_> = Vec::new();
                        let mut v_all = true;
                        for #p in #src {
                            match #x { Some(__v) => { v_col.push(__v); } None => { v_all = false; break; } }
                        }
                        if v_all { Some(v_col) } else { None }
                    }};
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let n: Option<Expr> = match e {
            Expr::Macro(m) if m.mac.path.is_ident("format") => match self.format(&m.mac) {
                Some(n) => Some(n),
                None => {
                    Drop.visit_expr_mut(e);
                    return;
                }
            },
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                let eq: Option<Expr> = if literal_text(r) {
                    Some(parse_quote! { crate::dep::v_same(&(#l), #r) })
                } else {
                    // `x == Some(&literal)`
                    match &**r {
                        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => match c.args.first() {
                            Some(Expr::Reference(v)) => {
                                let v = &v.expr;
                                Some(parse_quote! { (match #l { Some(__v) => *__v == #v, None => false }) })
                            }
                            _ => None,
                        },
                        _ => None,
                    }
                };
                eq.map(|q| if matches!(b.op, BinOp::Eq(_)) { q } else { parse_quote! { !#q } })
            }
            Expr::Macro(m) if m.mac.path.is_ident("write") => self.write(&m.mac),
            Expr::Match(m) => compared(m),
            // R9: what is iterated over, seen as a slice
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote! { #r.v_all().iter() })
            }
            // R22: membership in a range written out
            Expr::MethodCall(m) if m.method == "contains" && m.args.len() == 1 => {
                let mut r = &*m.receiver;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                match (r, &m.args[0]) {
                    (Expr::Range(ExprRange { start: Some(a), end: Some(z), limits, .. }), Expr::Reference(x)) => {
                        let x = &x.expr;
                        Some(match limits {
                            RangeLimits::Closed(_) => parse_quote! { { let __c = #x; #a <= __c && __c <= #z } },
                            RangeLimits::HalfOpen(_) => parse_quote! { { let __c = #x; #a <= __c && __c < #z } },
                        })
                    }
                    _ => None,
                }
            }
            // R21: part of a text or slice
            Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                Expr::Index(x) => match &*x.index {
                    Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) => {
                        let s = &x.expr;
                        match (&g.start, &g.end) {
                            (Some(a), Some(z)) => Some(parse_quote! { #s.v_cut(#a, #z) }),
                            (None, Some(z)) => Some(parse_quote! { #s.v_cut(0, #z) }),
                            (Some(a), None) => Some(parse_quote! { #s.v_from(#a) }),
                            _ => None,
                        }
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}
