//! Evaluation of #[cfg] / #[cfg_attr] for the fixed feature set, and removal of
//! the configured-out items, statements, fields, variants and match arms.
use std::collections::BTreeSet;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg {
    pub features: BTreeSet<String>,
}

impl Cfg {
    fn eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => p.is_ident("debug_assertions"),
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner = l
                    .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().any(|m| self.eval(m))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| self.eval(m))
                } else {
                    inner.iter().all(|m| self.eval(m))
                }
            }
        }
    }

    pub fn keep(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<Meta>() {
                    Ok(m) => self.eval(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        _ => &[],
    }
}

impl VisitMut for Cfg {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| self.keep(item_attrs(i)));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| self.keep(item_attrs(i)));
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain(|i| match i {
            ImplItem::Fn(x) => self.keep(&x.attrs),
            ImplItem::Const(x) => self.keep(&x.attrs),
            ImplItem::Type(x) => self.keep(&x.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => self.keep(&l.attrs),
            Stmt::Item(i) => self.keep(item_attrs(i)),
            Stmt::Macro(m) => self.keep(&m.attrs),
            Stmt::Expr(e, _) => self.keep(expr_attrs(e)),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| self.keep(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        let vs = std::mem::take(&mut e.variants);
        e.variants = vs.into_iter().filter(|v| self.keep(&v.attrs)).collect();
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        let fs = std::mem::take(&mut f.named);
        f.named = fs.into_iter().filter(|v| self.keep(&v.attrs)).collect();
        visit_mut::visit_fields_named_mut(self, f);
    }
}

/// Drops every attribute except the ones listed.
pub struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        attrs.retain(|a| a.path().is_ident("derive"));
    }
}
