//! `let (&a, b) = e;` -> `let (a, b) = e; let a = *a;` (reference patterns in irrefutable bindings).
use syn::visit_mut::VisitMut;
struct Peel(Vec<syn::Ident>);
impl VisitMut for Peel {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p {
            if let syn::Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_none() && i.subpat.is_none() {
                    self.0.push(i.ident.clone());
                    *p = syn::parse_quote!(__peel);
                    if let syn::Pat::Ident(pi) = p {
                        pi.ident = self.0.last().unwrap().clone();
                    }
                    return;
                }
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}
pub struct LetRefs(pub bool);
impl VisitMut for LetRefs {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                syn::Stmt::Local(mut l) if l.init.as_ref().is_some_and(|i| i.diverge.is_none()) && matches!(l.pat, syn::Pat::Tuple(_)) => {
                    let mut p = Peel(vec![]);
                    p.visit_pat_mut(&mut l.pat);
                    out.push(syn::Stmt::Local(l));
                    for i in p.0 {
                        self.0 = true;
                        out.push(syn::parse_quote!(let #i = *#i;));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    // `Some(&x) => e` -> `Some(x) => { let x = *x; e }`
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        syn::visit_mut::visit_arm_mut(self, a);
        if a.guard.is_some() || matches!(a.pat, syn::Pat::Reference(_)) {
            return;
        }
        let mut p = Peel(vec![]);
        p.visit_pat_mut(&mut a.pat);
        if p.0.is_empty() {
            return;
        }
        self.0 = true;
        let ids = p.0;
        let e = &a.body;
        a.body = syn::parse_quote!({ #(let #ids = *#ids;)* #e });
        a.comma = None;
    }
    // `if let Some(&x) = e { … }` likewise
    fn visit_expr_if_mut(&mut self, i: &mut syn::ExprIf) {
        syn::visit_mut::visit_expr_if_mut(self, i);
        if let syn::Expr::Let(l) = &mut *i.cond {
            if matches!(&*l.pat, syn::Pat::Reference(_)) {
                return;
            }
            let mut p = Peel(vec![]);
            p.visit_pat_mut(&mut l.pat);
            for id in p.0.into_iter().rev() {
                self.0 = true;
                i.then_branch.stmts.insert(0, syn::parse_quote!(let #id = *#id;));
            }
        }
    }
}
