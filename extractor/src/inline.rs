//! Inlines same-file helper functions that carry no contract (e.g. a helper newly extracted by a refactoring).
use syn::visit::Visit;
use crate::lower::ctl_block;
use crate::{find_fn, Found, Src};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Inliner<'a> {
    pub src: &'a Src,
    pub imp: Option<&'a str>,
    pub known: &'a BTreeSet<String>,
    pub done: Vec<String>,
    pub errors: Vec<String>,
    pub depth: usize,
    pub self_name: String,
}

fn replace_self(ts: TokenStream, with: &TokenStream) -> TokenStream {
    replace_ident(ts, "self", with)
}
fn replace_ident(ts: TokenStream, from: &str, with: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| match t {
            TokenTree::Group(g) => {
                let n = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, with));
                vec![TokenTree::Group(n)]
            }
            TokenTree::Ident(i) if i == from => with.clone().into_iter().collect(),
            t => vec![t],
        })
        .collect()
}

pub fn mentions(ts: &TokenStream, name: &str) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Group(g) => mentions(&g.stream(), name),
        TokenTree::Ident(i) => i == name,
        _ => false,
    })
}
struct Binders(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

impl<'a> Inliner<'a> {
    pub fn run(&mut self, b: &mut syn::Block) {
        self.visit_block_mut(b);
        // tail position: `helper(..)` as the final expression allows `?`/return-free bodies only; handled generically
    }
    fn lookup(&self, name: &str, method: bool) -> Option<Found> {
        if self.known.contains(name) || name == self.self_name || self.depth > 4 {
            return None;
        }
        if method {
            let imp = self.imp?;
            let ty = imp.split_once(':').map(|x| x.1).unwrap_or(imp);
            return find_fn(self.src, Some(imp), name).or_else(|| find_fn(self.src, Some(ty), name));
        }
        find_fn(self.src, None, name)
    }
    fn expand(&mut self, name: &str, f: Found, recv: Option<TokenStream>, args: Vec<Expr>, tried: bool) -> Option<Expr> {
        let (ctl, t) = ctl_block(&f.block);
        if ctl || (t && !tried) {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        let mut body_ts = f.block.to_token_stream();
        for p in &f.sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => {
                    let r = match &recv {
                        Some(r) => r.clone(),
                        None => {
                            let a = ai.next()?;
                            a.to_token_stream()
                        }
                    };
                    body_ts = replace_self(body_ts, &r);
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let p = &t.pat;
                    // plain identifiers are renamed (a `let` would move a `&mut` parameter)
                    if let (syn::Pat::Ident(pi), Expr::Path(ap)) = (&**p, &a) {
                        if ap.path.get_ident().is_some() && pi.mutability.is_none() {
                            let from = pi.ident.to_string();
                            let to = ap.to_token_stream();
                            if from != to.to_string() && mentions(&body_ts, &to.to_string()) {
                                return None; // a binding of the helper could capture the argument
                            }
                            body_ts = replace_ident(body_ts, &from, &to);
                            continue;
                        }
                    }
                    if let (syn::Pat::Ident(pi), Expr::Closure(_)) = (&**p, &a) {
                        let mut b = Binders(vec![]);
                        b.visit_block(&syn::parse2::<syn::Block>(body_ts.clone()).ok()?);
                        let at = a.to_token_stream();
                        if b.0.iter().any(|n| mentions(&at, n)) {
                            return None;
                        }
                        body_ts = replace_ident(body_ts, &pi.ident.to_string(), &quote::quote!((#at)));
                        continue;
                    }
                    if p.to_token_stream().to_string() != a.to_token_stream().to_string() {
                        stmts.push(parse_quote!(let #p = #a;));
                    }
                }
            }
        }
        let mut blk: syn::Block = syn::parse2(body_ts).ok()?;
        struct S;
        impl VisitMut for S {
            fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
                a.clear()
            }
        }
        S.visit_block_mut(&mut blk);
        self.done.push(name.to_string());
        self.depth += 1;
        self.visit_block_mut(&mut blk);
        self.depth -= 1;
        if stmts.is_empty() {
            Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: blk }))
        } else {
            let inner = blk.stmts;
            // parameters are bound simultaneously: arguments may not mention earlier parameter names
            Some(parse_quote!({ #(#stmts)* #(#inner)* }))
        }
    }
    /// `Self::NAME` and `NAME` of the same file that the unit does not declare: the expression it is defined as
    fn constant(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Path(p) = e else { return None };
        if p.qself.is_some() || self.depth > 8 {
            return None;
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?;
        if self.known.contains(name) || !name.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') || name.len() < 2 {
            return None;
        }
        let ty = self.imp.map(|i| i.split_once(':').map(|x| x.1).unwrap_or(i));
        let own = segs.len() == 2 && (segs[0] == "Self" || Some(segs[0].as_str()) == ty);
        if segs.len() > 1 && !own {
            return None;
        }
        for it in &self.src.items {
            match it {
                syn::Item::Const(c) if !own && c.ident == name => return Some((*c.expr).clone()),
                syn::Item::Static(c) if !own && c.ident == name && matches!(c.mutability, syn::StaticMutability::None) => return Some((*c.expr).clone()),
                syn::Item::Impl(i) if own && ty.is_some_and(|t| crate::last_ident(&i.self_ty) == t) => {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if c.ident == name {
                                return Some(c.expr.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    fn try_expr(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last()?.clone();
                    let f = if segs.len() == 1 {
                        self.lookup(&name, false)?
                    } else if segs.len() == 2 && segs[0] == "Self" {
                        self.lookup(&name, true)?
                    } else {
                        return None;
                    };
                    return self.expand(&name, f, None, c.args.iter().cloned().collect(), tried);
                }
                None
            }
            Expr::MethodCall(m) => {
                let r = m.receiver.to_token_stream();
                if r.to_string() != "self" {
                    return None;
                }
                let name = m.method.to_string();
                let f = self.lookup(&name, true)?;
                self.expand(&name, f, Some(r), m.args.iter().cloned().collect(), tried)
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(n) = self.try_expr(&t.expr, true) {
                *t.expr = n;
                // the inlined body was visited already
                return;
            }
        }
        if let Some(n) = self.try_expr(e, false) {
            *e = n;
            return;
        }
        if let Some(c) = self.constant(e) {
            *e = c;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
