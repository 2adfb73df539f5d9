//! R12 and R13: rewrites that need to know which locals are references or floats.
//! R12: a reference operand of an arithmetic operator is dereferenced (`&u8 & u8` means `*x & y`).
//! R13: floating-point arithmetic becomes calls of wrappers with an assumed contract (spec/float.rs).
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Ref,
    Float,
    Other,
}
pub struct Types {
    env: Vec<BTreeMap<String, Ty>>,
    pub notes: BTreeSet<String>,
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
fn float_ty(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident("f64") || p.path.is_ident("f32"))
}
fn arith(o: &BinOp) -> bool {
    use BinOp::*;
    matches!(o, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_))
}
fn arith_assign(o: &BinOp) -> bool {
    use BinOp::*;
    matches!(
        o,
        AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)
    )
}
/// `0.0` -> 0, when the literal is a whole number
fn whole(l: &LitFloat) -> Option<i64> {
    let f: f64 = l.base10_parse().ok()?;
    (f.fract() == 0.0 && f.abs() < 9e15).then_some(f as i64)
}

/// `2.5e-3` -> 25 and 4: the literal is 25 / 10^4, the first number without trailing zeros
fn decimal(l: &LitFloat) -> Option<(i64, u32)> {
    let t = l.base10_digits().to_lowercase();
    let (m, e) = match t.split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (t.clone(), 0),
    };
    let (a, b) = m.split_once('.').unwrap_or((&m, ""));
    let mut n: i64 = format!("{a}{b}").parse().ok()?;
    let mut e = e - b.len() as i32;
    while n != 0 && n % 10 == 0 {
        n /= 10;
        e += 1;
    }
    (e < 0).then_some((n, (-e) as u32))
}

impl Types {
    pub fn new(sig: &Signature) -> Self {
        let mut m = BTreeMap::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    let ty = if float_ty(&t.ty) {
                        Ty::Float
                    } else if matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::Path(_))) {
                        Ty::Ref
                    } else {
                        Ty::Other
                    };
                    m.insert(i.ident.to_string(), ty);
                }
            }
        }
        Types { env: vec![m], notes: BTreeSet::new() }
    }
    fn get(&self, n: &str) -> Ty {
        self.env.iter().rev().find_map(|m| m.get(n)).copied().unwrap_or(Ty::Other)
    }
    fn set(&mut self, n: String, t: Ty) {
        self.env.last_mut().unwrap().insert(n, t);
    }
    fn opt_ref(&self, e: &Expr) -> bool {
        matches!(unparen(e), Expr::MethodCall(m) if m.method == "first" || m.method == "last" || m.method == "get")
    }
    fn res_ref(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::MethodCall(m) if m.method == "ok_or" || m.method == "ok_or_else" => self.opt_ref(&m.receiver),
            Expr::Match(m) => {
                self.opt_ref(&m.expr)
                    && m.arms.first().map(|a| matches!(&*a.body, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && matches!(c.args.first(), Some(Expr::Path(p)) if p.path.is_ident("__v")))).unwrap_or(false)
            }
            _ => false,
        }
    }
    fn is_ref(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Path(p) => p.path.get_ident().map(|i| self.get(&i.to_string()) == Ty::Ref).unwrap_or(false),
            Expr::Reference(r) => r.mutability.is_none(),
            Expr::Try(t) => self.opt_ref(&t.expr) || self.res_ref(&t.expr),
            Expr::MethodCall(m) if m.method == "unwrap" || m.method == "unwrap_or" || m.method == "expect" => {
                self.opt_ref(&m.receiver) || self.res_ref(&m.receiver)
            }
            _ => false,
        }
    }
    fn is_float(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Path(p) => p.path.get_ident().map(|i| self.get(&i.to_string()) == Ty::Float).unwrap_or(false),
            Expr::Lit(l) => matches!(&l.lit, Lit::Float(_)) || matches!(&l.lit, Lit::Int(i) if i.suffix() == "f64"),
            Expr::Cast(c) => float_ty(&c.ty),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    (s[0] == "f64" || s[0] == "f32") || (s.len() == 3 && s[1] == "dep" && s[2].starts_with("f_"))
                }
                _ => false,
            },
            Expr::Binary(b) => arith(&b.op) && (self.is_float(&b.left) || self.is_float(&b.right)),
            Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && self.is_float(&u.expr),
            Expr::MethodCall(m) => (m.method == "abs" || m.method == "powi" || m.method == "v_powi") && self.is_float(&m.receiver),
            _ => false,
        }
    }
    fn class(&self, e: &Expr) -> Ty {
        if self.is_float(e) {
            Ty::Float
        } else if self.is_ref(e) {
            Ty::Ref
        } else {
            Ty::Other
        }
    }
    /// binds the names of a pattern, all with no known type
    fn shadow(&mut self, p: &Pat, some_ref: bool) {
        struct N(Vec<String>);
        impl<'a> Visit<'a> for N {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.push(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
        }
        let mut n = N(vec![]);
        n.visit_pat(p);
        for x in n.0 {
            self.set(x, Ty::Other);
        }
        if some_ref {
            if let Pat::TupleStruct(t) = p {
                if let (true, Some(Pat::Ident(i))) = (t.path.is_ident("Some"), t.elems.first()) {
                    self.set(i.ident.to_string(), Ty::Ref);
                }
            }
        }
    }
}

impl VisitMut for Types {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.env.push(BTreeMap::new());
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => {
                    let mut c = Ty::Other;
                    let mut sr = false;
                    if let Some(i) = &mut l.init {
                        c = self.class(&i.expr);
                        sr = self.opt_ref(&i.expr);
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    self.shadow(&l.pat, sr);
                    let (p, t) = match &l.pat {
                        Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                        p => (p, None),
                    };
                    if let Pat::Ident(i) = p {
                        let c = match t {
                            Some(t) if float_ty(t) => Ty::Float,
                            Some(Type::Reference(_)) => Ty::Ref,
                            Some(_) => Ty::Other,
                            None => c,
                        };
                        self.set(i.ident.to_string(), c);
                    }
                }
                s => visit_mut::visit_stmt_mut(self, s),
            }
        }
        self.env.pop();
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.env.push(BTreeMap::new());
        self.shadow(&a.pat, false);
        visit_mut::visit_arm_mut(self, a);
        self.env.pop();
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.env.push(BTreeMap::new());
        for p in &c.inputs {
            self.shadow(p, false);
        }
        visit_mut::visit_expr_closure_mut(self, c);
        self.env.pop();
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.env.push(BTreeMap::new());
        self.visit_expr_mut(&mut i.cond);
        if let Expr::Let(l) = &*i.cond {
            let sr = self.opt_ref(&l.expr);
            self.shadow(&l.pat, sr);
        }
        self.visit_block_mut(&mut i.then_branch);
        self.env.pop();
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Binary(b) if arith(&b.op) => {
                if self.is_float(&b.left) || self.is_float(&b.right) {
                    let f = match b.op {
                        BinOp::Add(_) => "f_add",
                        BinOp::Sub(_) => "f_sub",
                        BinOp::Mul(_) => "f_mul",
                        BinOp::Div(_) => "f_div",
                        _ => "",
                    };
                    if !f.is_empty() {
                        self.visit_expr_mut(&mut b.left);
                        self.visit_expr_mut(&mut b.right);
                        let f = Ident::new(f, proc_macro2::Span::call_site());
                        let (l, r) = (&b.left, &b.right);
                        self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                        *e = parse_quote! { crate::dep::#f(#l, #r) };
                        return;
                    }
                }
                for o in [&mut b.left, &mut b.right] {
                    let r = self.is_ref(o);
                    self.visit_expr_mut(o);
                    if r {
                        self.notes.insert("R12 reference operand dereferenced".into());
                        **o = parse_quote! { (*(#o)) };
                    }
                }
            }
            Expr::Binary(b) if arith_assign(&b.op) => {
                if self.is_float(&b.left) || self.is_float(&b.right) {
                    let f = match b.op {
                        BinOp::AddAssign(_) => "f_add",
                        BinOp::SubAssign(_) => "f_sub",
                        BinOp::MulAssign(_) => "f_mul",
                        BinOp::DivAssign(_) => "f_div",
                        _ => "",
                    };
                    if !f.is_empty() {
                        self.visit_expr_mut(&mut b.right);
                        let f = Ident::new(f, proc_macro2::Span::call_site());
                        let (l, r) = (&b.left, &b.right);
                        self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                        *e = parse_quote! { #l = crate::dep::#f(#l, #r) };
                        return;
                    }
                }
                let r = self.is_ref(&b.right);
                visit_mut::visit_expr_binary_mut(self, b);
                if r {
                    let o = &b.right;
                    b.right = parse_quote! { (*(#o)) };
                }
            }
            Expr::Match(m) if self.opt_ref(&m.expr) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    self.env.push(BTreeMap::new());
                    self.shadow(&a.pat, true);
                    visit_mut::visit_arm_mut(self, a);
                    self.env.pop();
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && self.is_ref(&u.expr) => {
                self.visit_expr_mut(&mut u.expr);
                let o = &u.expr;
                u.expr = parse_quote! { (*(#o)) };
                self.notes.insert("R12 reference operand dereferenced".into());
            }
            Expr::Lit(l) => {
                if let Lit::Int(i) = &l.lit {
                    if i.suffix() == "f64" {
                        let n = LitInt::new(i.base10_digits(), proc_macro2::Span::call_site());
                        *e = parse_quote! { crate::dep::f_lit(#n) };
                        return;
                    }
                }
                if let Lit::Float(f) = &l.lit {
                    if let Some(n) = whole(f) {
                        self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                        let n: LitInt = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                        *e = parse_quote! { crate::dep::f_lit(#n) };
                    } else if let Some((m, x)) = decimal(f) {
                        self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                        let (m, x) = (LitInt::new(&m.to_string(), proc_macro2::Span::call_site()), LitInt::new(&x.to_string(), proc_macro2::Span::call_site()));
                        *e = parse_quote! { crate::dep::f_dec(#m, #x) };
                    }
                }
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("f64")) => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                *e = parse_quote! { crate::dep::VF64::v_f64(#x) };
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("u64")) && self.is_float(&c.expr) => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                *e = parse_quote! { crate::dep::v_f_u64(#x) };
            }
            Expr::MethodCall(m) if (m.method == "abs" || m.method == "is_sign_negative") && self.is_float(&m.receiver) => {
                self.visit_expr_mut(&mut m.receiver);
                let x = &m.receiver;
                self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                *e = if m.method == "abs" { parse_quote! { crate::dep::f_abs(#x) } } else { parse_quote! { crate::dep::v_f_negative(#x) } };
            }
            Expr::Call(c) => {
                let from = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "f64" && p.path.segments[1].ident == "from");
                visit_mut::visit_expr_call_mut(self, c);
                if from {
                    let x = &c.args;
                    self.notes.insert("R13 float arithmetic -> dep::f_*".into());
                    *e = parse_quote! { crate::dep::VF64::v_f64(#x) };
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
