//! Mechanical lowerings applied to the real function bodies so that Verus accepts them.
//! Every lowering is semantics preserving by the documented meaning of the construct it replaces and is
//! reported (by tag) in the extraction report.
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, ExprClosure, Pat, Stmt};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Bool,
    Iter,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub rtypes: BTreeMap<String, Kind>,
    pub methods: BTreeMap<String, String>,
    pub collects: Vec<String>,
    pub etas: Vec<String>,
}

pub struct Lower<'c> {
    pub cfg: &'c Cfg,
    pub n: usize,
    pub tags: BTreeSet<String>,
    pub errors: Vec<String>,
    pub collect_ix: usize,
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

struct HasCtl {
    ret: bool,
    brk: bool,
    try_: bool,
    depth: usize,
}
impl<'a> Visit<'a> for HasCtl {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.try_ = true;
        syn::visit::visit_expr_try(self, e)
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, e);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_break(&mut self, e: &'a syn::ExprBreak) {
        if self.depth == 0 {
            self.brk = true
        }
        syn::visit::visit_expr_break(self, e)
    }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        if self.depth == 0 {
            self.brk = true
        }
    }
}
pub fn ctl_block(b: &syn::Block) -> (bool, bool) {
    let mut h = HasCtl { ret: false, brk: false, try_: false, depth: 0 };
    h.visit_block(b);
    (h.ret || h.brk, h.try_)
}
fn ctl_expr(b: &Expr) -> (bool, bool) {
    let mut h = HasCtl { ret: false, brk: false, try_: false, depth: 0 };
    h.visit_expr(b);
    (h.ret || h.brk, h.try_)
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => strip(x),
            _ => e,
        },
        _ => e,
    }
}
/// `opt.map(|l| l.iter()).into_iter().flatten()`, `opt.into_iter().flat_map(|l| l.iter())`, `opt.iter().flat_map(..)`
/// (an optional list walked as a list) -> `oiter(opt)`
pub struct OptLists(pub bool);
impl OptLists {
    fn is_iter_fn(f: &Expr) -> bool {
        match strip(f) {
            Expr::Closure(c) => {
                let Some(Pat::Ident(p)) = c.inputs.first() else { return false };
                matches!(strip(&c.body), Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter"
                    && matches!(strip(&m.receiver), Expr::Path(q) if q.path.is_ident(&p.ident)))
            }
            Expr::Path(p) => last_seg(&p.path) == "iter",
            _ => false,
        }
    }
}
impl VisitMut for OptLists {
    // `let x: T = chain.collect();`  is `chain.collect::<T>()`
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(t), Some(i)) = (&l.pat, l.init.as_mut()) {
            if let Expr::MethodCall(m) = &mut *i.expr {
                if m.method == "collect" && m.turbofish.is_none() && m.args.is_empty() {
                    let t = &t.ty;
                    m.turbofish = Some(parse_quote!(::<#t>));
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = strip(e) {
            let n = m.method.to_string();
            if n == "flatten" && m.args.is_empty() {
                if let Expr::MethodCall(i) = strip(&m.receiver) {
                    if i.method == "into_iter" {
                        if let Expr::MethodCall(mm) = strip(&i.receiver) {
                            if mm.method == "map" && mm.args.len() == 1 && Self::is_iter_fn(&mm.args[0]) {
                                let r = &mm.receiver;
                                new = Some(parse_quote!(oiter(#r)));
                            }
                        }
                    }
                }
            } else if n == "flat_map" && m.args.len() == 1 && Self::is_iter_fn(&m.args[0]) {
                if let Expr::MethodCall(i) = strip(&m.receiver) {
                    if i.method == "into_iter" && matches!(strip(&i.receiver), Expr::MethodCall(_)) {
                        let r = &i.receiver;
                        new = Some(parse_quote!(oiter(#r)));
                    }
                }
            }
        }
        if let Some(x) = new {
            *e = x;
            self.0 = true;
        }
    }
}

/// `let &p = &e` binds like `let p = e` (and `let &p = e` like `let p = *e`): a copy
fn peel(mut p: Pat, mut a: Expr) -> (Pat, Expr) {
    while let Pat::Reference(r) = p {
        p = *r.pat;
        a = match a {
            Expr::Reference(x) => *x.expr,
            a => parse_quote!(*#a),
        };
    }
    (p, a)
}
impl<'c> Lower<'c> {
    pub fn new(cfg: &'c Cfg) -> Self {
        Lower { cfg, n: 0, tags: Default::default(), errors: vec![], collect_ix: 0 }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("__{}{}", p, self.n)
    }
    fn tag(&mut self, t: &str) {
        self.tags.insert(t.to_string());
    }

    pub fn kind(&self, e: &Expr) -> Kind {
        match strip(e) {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(k) = self.cfg.rtypes.get(&format!("{}/{}", name, m.args.len())) {
                    return *k;
                }
                if let Some(k) = self.cfg.rtypes.get(&name) {
                    return *k;
                }
                match name.as_str() {
                    "iter" | "into_iter" | "iter_mut" | "chars" | "keys" | "values" | "drain" | "chain"
                    | "flat_map" | "filter_map" | "zip" | "enumerate" | "skip" | "take" | "rev" | "flatten"
                    | "peekable" | "take_while" | "skip_while" | "into_values" | "into_keys" => Kind::Iter,
                    "map" | "filter" | "as_ref" | "as_mut" | "cloned" | "copied" | "or_else" | "and_then"
                    | "inspect" | "or" | "and" | "as_deref" => self.kind(&m.receiver),
                    "ok_or" | "ok_or_else" | "map_err" => Kind::Res,
                    "ok" | "err" | "get" | "first" | "last" | "next" | "pop" | "pop_front" | "then" | "then_some"
                    | "find" | "find_map" | "position" | "max" | "min" | "max_by_key" | "get_mut" => Kind::Opt,
                    "is_some" | "is_none" | "contains" | "is_empty" | "any" | "all" | "eq" | "ne" => Kind::Bool,
                    _ => Kind::Unknown,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let l = last_seg(&p.path);
                    if let Some(k) = self.cfg.rtypes.get(&l) {
                        return *k;
                    }
                    match l.as_str() {
                        "oiter" => Kind::Iter,
                        "Some" | "try_from_tokens" => Kind::Opt,
                        "Ok" | "Err" => Kind::Res,
                        _ => Kind::Unknown,
                    }
                } else {
                    Kind::Unknown
                }
            }
            Expr::Path(p) => {
                let l = last_seg(&p.path);
                if let Some(k) = self.cfg.rtypes.get(&format!("var:{}", l)) {
                    return *k;
                }
                if l == "None" {
                    Kind::Opt
                } else {
                    Kind::Unknown
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => Kind::Bool,
            Expr::Binary(_) | Expr::Unary(_) => Kind::Bool,
            Expr::Reference(r) => self.kind(&r.expr),
            _ => Kind::Unknown,
        }
    }

    /// apply closure-or-path `f` to argument expressions
    fn apply(&mut self, f: &Expr, args: &[Expr]) -> Result<Expr, String> {
        match strip(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                let (ctl, _) = ctl_expr(&c.body);
                if ctl {
                    return Err("closure body uses return/break".into());
                }
                let (_, t) = ctl_expr(&c.body);
                if t {
                    return Err("closure body uses `?`".into());
                }
                let mut stmts: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    let p2 = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    let (p2, a) = peel(p2, a.clone());
                    stmts.push(parse_quote!(let #p2 = #a;));
                }
                let body = &c.body;
                Ok(parse_quote!({ #(#stmts)* #body }))
            }
            Expr::Path(p) => {
                let p = p.clone();
                Ok(parse_quote!(#p(#(#args),*)))
            }
            _ => Err("callee is neither closure nor path".into()),
        }
    }

    fn is_fn_arg(e: &Expr) -> bool {
        matches!(strip(e), Expr::Closure(_) | Expr::Path(_))
    }

    fn lower_method(&mut self, m: &syn::ExprMethodCall) -> Result<Option<Expr>, String> {
        let name = m.method.to_string();
        let recv = &*m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        if let Some(t) = self
            .cfg
            .methods
            .get(&format!("{}/{}", name, args.len()))
            .or_else(|| self.cfg.methods.get(&name))
            .cloned()
        {
            let s = t
                .replace("$self", &format!("({})", recv.to_token_stream()))
                .replace("$args", &m.args.to_token_stream().to_string());
            let mut s = s;
            for (i, a) in args.iter().enumerate() {
                s = s.replace(&format!("${}", i + 1), &a.to_token_stream().to_string());
            }
            let e: Expr = syn::parse_str(&s).map_err(|e| format!("method template: {e}: {s}"))?;
            self.tag("method-rename");
            return Ok(Some(e));
        }
        // iterator terminals
        let k = self.kind(recv);
        if k == Kind::Iter {
            match name.as_str() {
                "any" | "all" | "find" | "find_map" | "position" | "count" | "for_each" | "collect" | "sum" | "max"
                | "fold" | "last" | "max_by_key" | "partition" | "min" => {
                    self.tag("iterator-chain->loop");
                    return self.iter_terminal(&name, recv, &args, m).map(Some);
                }
                _ => {}
            }
        }
        if name == "extend" && args.len() == 1 && self.kind(args[0]) != Kind::Iter {
            let a = args[0];
            return Ok(Some(parse_quote!(#recv.__extend(#a))));
        }
        if name == "extend" && args.len() == 1 && self.kind(args[0]) == Kind::Iter {
            self.tag("iterator-chain->loop");
            let r = recv.clone();
            let mut sink = |_: &mut Self, x: Expr| -> Result<Vec<Stmt>, String> { Ok(parse_quote!(#r.push(#x);)) };
            let body = self.iter_loops(args[0], &mut sink, None, None)?;
            return Ok(Some(parse_quote!({ #(#body)* })));
        }
        // Option / Result / bool combinators with function arguments
        let fa = args.first().map(|a| Self::is_fn_arg(a)).unwrap_or(false);
        let kk = |d: Kind| if k == Kind::Unknown { d } else { k };
        let out: Option<Expr> = match (name.as_str(), args.len()) {
            ("then", 1) if matches!(strip(args[0]), Expr::Closure(_)) => {
                let b = self.apply_clo_q(args[0], &[])?;
                Some(parse_quote!(if #recv { Some(#b) } else { None }))
            }
            ("then_some", 1) => {
                let b = args[0];
                Some(parse_quote!(if #recv { Some(#b) } else { None }))
            }
            ("map", 1) if fa && k != Kind::Iter => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[parse_quote!(#v)])?;
                match kk(Kind::Opt) {
                    Kind::Res => {
                        let e = self.fresh("e");
                        Some(parse_quote!(match #recv { Ok(#v) => Ok(#b), Err(#e) => Err(#e) }))
                    }
                    _ => Some(parse_quote!(match #recv { Some(#v) => Some(#b), None => None })),
                }
            }
            ("map_err", 1) if fa => {
                let v = self.fresh("v");
                let e = self.fresh("e");
                let b = self.apply(args[0], &[parse_quote!(#e)])?;
                Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#e) => Err(#b) }))
            }
            ("and_then", 1) if fa => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[parse_quote!(#v)])?;
                match kk(Kind::Opt) {
                    Kind::Res => {
                        let e = self.fresh("e");
                        Some(parse_quote!(match #recv { Ok(#v) => #b, Err(#e) => Err(#e) }))
                    }
                    _ => Some(parse_quote!(match #recv { Some(#v) => #b, None => None })),
                }
            }
            ("or_else", 1) if fa => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[])?;
                Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #b }))
            }
            ("filter", 1) if fa && k != Kind::Iter => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[parse_quote!(&#v)])?;
                Some(parse_quote!(match #recv { Some(#v) => if #b { Some(#v) } else { None }, None => None }))
            }
            ("map_or", 2) => {
                let v = self.fresh("v");
                let d = args[0];
                let b = self.apply(args[1], &[parse_quote!(#v)])?;
                match kk(Kind::Opt) {
                    Kind::Res => Some(parse_quote!(match #recv { Ok(#v) => #b, Err(_) => #d })),
                    _ => Some(parse_quote!(match #recv { Some(#v) => #b, None => #d })),
                }
            }
            ("map_or_else", 2) => {
                let v = self.fresh("v");
                let d = self.apply(args[0], &[])?;
                let b = self.apply(args[1], &[parse_quote!(#v)])?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => #d }))
            }
            ("is_some_and", 1) => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[parse_quote!(#v)])?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => false }))
            }
            ("is_none_or", 1) => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[parse_quote!(#v)])?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => true }))
            }
            ("unwrap_or_else", 1) => {
                let v = self.fresh("v");
                let zero = matches!(strip(args[0]), Expr::Closure(c) if c.inputs.is_empty())
                    || (matches!(strip(args[0]), Expr::Path(_)) && k == Kind::Opt);
                if zero {
                    let b = self.apply(args[0], &[])?;
                    Some(parse_quote!(match #recv { Some(#v) => #v, None => #b }))
                } else {
                    let e = self.fresh("e");
                    let b = self.apply(args[0], &[parse_quote!(#e)])?;
                    Some(parse_quote!(match #recv { Ok(#v) => #v, Err(#e) => #b }))
                }
            }
            ("ok_or_else", 1) => {
                let v = self.fresh("v");
                let b = self.apply(args[0], &[])?;
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            ("ok_or", 1) => {
                let v = self.fresh("v");
                let b = args[0];
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            ("transpose", 0) => {
                let v = self.fresh("v");
                let e = self.fresh("e");
                Some(parse_quote!(match #recv { Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#e)) => Err(#e), None => Ok(None) }))
            }
            _ => None,
        };
        if out.is_some() {
            self.tag("option/result-combinator->match");
        }
        Ok(out)
    }

    // closure application where `?` cannot occur
    fn apply_clo_q(&mut self, f: &Expr, args: &[Expr]) -> Result<Expr, String> {
        self.apply(f, args)
    }

    /// `r.map(f)` on an option
    fn opt_map(&self, e: &Expr) -> Option<(Expr, Expr)> {
        match strip(e) {
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(strip(&m.args[0]), Expr::Closure(_)) && self.kind(&m.receiver) == Kind::Opt => Some(((*m.receiver).clone(), m.args[0].clone())),
            _ => None,
        }
    }
    /// `r.map(f)` on an iterator, or on an option turned into one
    fn map_under(&self, e: &Expr) -> Option<(Expr, Expr)> {
        match strip(e) {
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && self.kind(&m.receiver) == Kind::Iter => Some(((*m.receiver).clone(), m.args[0].clone())),
            Expr::MethodCall(m) if m.method == "into_iter" => self.opt_map(&m.receiver).map(|(r, f)| (parse_quote!(#r.into_iter()), f)),
            _ => None,
        }
    }

    /// Produce statements that run `sink(x)` for every item x of the iterator expression.
    #[allow(clippy::type_complexity)]
    fn iter_loops(
        &mut self,
        e: &Expr,
        sink: &mut dyn FnMut(&mut Self, Expr) -> Result<Vec<Stmt>, String>,
        acc: Option<&Ident>,
        label: Option<&syn::Lifetime>,
    ) -> Result<Vec<Stmt>, String> {
        if let Expr::MethodCall(m) = strip(e) {
            let name = m.method.to_string();
            let args: Vec<&Expr> = m.args.iter().collect();
            let inner_iter = match self.kind(&m.receiver) { Kind::Iter => true, Kind::Unknown => matches!(name.as_str(), "flat_map" | "filter_map"), _ => false };
            match (name.as_str(), args.len()) {
                ("map", 1) if inner_iter => {
                    let f = args[0].clone();
                    let mut s2 = |me: &mut Self, x: Expr| {
                        let y = me.fresh("y");
                        let b = me.apply(&f, &[x])?;
                        let mut out: Vec<Stmt> = vec![parse_quote!(let #y = #b;)];
                        out.extend(sink(me, parse_quote!(#y))?);
                        Ok(out)
                    };
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("filter", 1) if inner_iter => {
                    let f = args[0].clone();
                    let mut s2 = |me: &mut Self, x: Expr| {
                        let y = me.fresh("y");
                        let b = me.apply(&f, &[parse_quote!(&#y)])?;
                        let inner = sink(me, parse_quote!(#y))?;
                        Ok(parse_quote!(let #y = #x; if #b { #(#inner)* }))
                    };
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("filter_map", 1) if inner_iter => {
                    let f = args[0].clone();
                    let mut s2 = |me: &mut Self, x: Expr| {
                        let y = me.fresh("y");
                        let b = me.apply(&f, &[x])?;
                        let inner = sink(me, parse_quote!(#y))?;
                        Ok(parse_quote!(match #b { Some(#y) => { #(#inner)* } None => {} }))
                    };
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("flat_map", 1) if inner_iter => {
                    let f = args[0].clone();
                    let mut s2 = |me: &mut Self, x: Expr| {
                        let (pre, inner): (Vec<Stmt>, Expr) = match strip(&f) {
                            Expr::Closure(c) => {
                                let p = c.inputs.first().ok_or("closure arity")?;
                                let mut pre: Vec<Stmt> = parse_quote!(let #p = #x;);
                                let body: Expr = match &*c.body {
                                    Expr::Block(b) => {
                                        let (last, init) = b.block.stmts.split_last().ok_or("flat_map closure block")?;
                                        if quote!(#(#init)*).into_iter().any(|t| matches!(t.to_string().as_str(), "return" | "?" | "break" | "continue")) {
                                            return Err("flat_map closure block with control flow".to_string());
                                        }
                                        pre.extend(init.iter().cloned());
                                        match last {
                                            Stmt::Expr(e, None) => e.clone(),
                                            _ => return Err("flat_map closure block".to_string()),
                                        }
                                    }
                                    b => b.clone(),
                                };
                                (pre, body)
                            }
                            Expr::Path(p) => (vec![], parse_quote!(#p(#x))),
                            _ => return Err("flat_map callee".to_string()),
                        };
                        let inner = me.iter_loops(&inner, sink, acc, None)?;
                        Ok(parse_quote!(#(#pre)* #(#inner)*))
                    };
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("into_iter", 0) if self.opt_map(&m.receiver).is_some() => {
                    // Option::map then into_iter: the iterator over the option, mapped
                    let (r, f) = self.opt_map(&m.receiver).unwrap();
                    let e: Expr = parse_quote!(#r.into_iter().map(#f));
                    return self.iter_loops(&e, sink, acc, label);
                }
                ("flatten", 0) if self.map_under(&m.receiver).is_some() => {
                    let (r, f) = self.map_under(&m.receiver).unwrap();
                    let e: Expr = parse_quote!(#r.flat_map(#f));
                    return self.iter_loops(&e, sink, acc, label);
                }
                ("flatten", 0) if inner_iter => {
                    let mut s2 = |me: &mut Self, x: Expr| me.iter_loops(&x, sink, acc, None);
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("copied", 0) | ("cloned", 0) if inner_iter => {
                    let copied = name == "copied";
                    let mut s2 = |me: &mut Self, x: Expr| {
                        if copied {
                            sink(me, parse_quote!(*#x))
                        } else {
                            sink(me, parse_quote!((#x).clone()))
                        }
                    };
                    return self.iter_loops(&m.receiver, &mut s2, acc, label);
                }
                ("chain", 1) if label.is_none() => {
                    let mut a = self.iter_loops(&m.receiver, sink, acc, None)?;
                    a.extend(self.iter_loops(args[0], sink, acc, None)?);
                    return Ok(a);
                }
                ("enumerate", 0) if inner_iter => {
                    let ix = self.fresh("ix");
                    let ix2 = ix.clone();
                    let mut s2 = |me: &mut Self, x: Expr| {
                        let y = me.fresh("y");
                        let inner = sink(me, parse_quote!((#y, #x)))?;
                        Ok(parse_quote!(let #y = #ix2; #ix2 = #ix2 + 1; #(#inner)*))
                    };
                    let l = self.iter_loops(&m.receiver, &mut s2, acc, label)?;
                    return Ok(parse_quote!(let mut #ix: usize = 0; #(#l)*));
                }
                _ => {}
            }
        }
        // leaf
        let it = self.fresh("it");
        let x = self.fresh("x");
        let body = sink(self, parse_quote!(#x))?;
        let src: Expr = match self.kind(e) {
            Kind::Iter => e.clone(),
            _ => parse_quote!(into_it(#e)),
        };
        let (gpre, gstep, gexit) = (format_ident!("__raw_gpre_{}", it), format_ident!("__raw_gstep_{}", it), format_ident!("__raw_gexit_{}", it));
        let accm: TokenStream = match acc {
            Some(a) => quote!(, #a),
            None => quote!(),
        };
        Ok(parse_quote!(
            let mut #it = #src;
            #gpre!();
            #label loop {
                __lowered_loop!(#it #accm);
                match #it.next() { Some(#x) => { #gstep!(); #(#body)* } None => { #gexit!(); break; } }
            }
        ))
    }

    fn iter_terminal(
        &mut self,
        name: &str,
        recv: &Expr,
        args: &[&Expr],
        m: &syn::ExprMethodCall,
    ) -> Result<Expr, String> {
        let acc = self.fresh("acc");
        let multi = recv.to_token_stream().to_string();
        let multi = multi.contains("flat_map") || multi.contains("flatten") || multi.contains("chain");
        let brk: Vec<Stmt> = if multi { vec![] } else { parse_quote!(break;) };
        let a2 = acc.clone();
        let a3 = acc.clone();
        let f = args.first().map(|a| (*a).clone());
        let (init, stmts): (Stmt, Vec<Stmt>) = match name {
            "any" => {
                let f = f.unwrap();
                let mut sink = |me: &mut Self, x: Expr| {
                    let b = me.apply(&f, &[x])?;
                    Ok(parse_quote!(if #b { #a2 = true; #(#brk)* }))
                };
                (parse_quote!(let mut #acc: bool = false;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "all" => {
                let f = f.unwrap();
                let mut sink = |me: &mut Self, x: Expr| {
                    let b = me.apply(&f, &[x])?;
                    Ok(parse_quote!(if !(#b) { #a2 = false; #(#brk)* }))
                };
                (parse_quote!(let mut #acc: bool = true;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "find" if !multi => {
                let f = f.unwrap();
                let mut sink = |me: &mut Self, x: Expr| {
                    let y = me.fresh("y");
                    let b = me.apply(&f, &[parse_quote!(&#y)])?;
                    Ok(parse_quote!(let #y = #x; if #b { #a2 = Some(#y); break; }))
                };
                (parse_quote!(let mut #acc = None;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "find_map" if !multi => {
                let f = f.unwrap();
                let mut sink = |me: &mut Self, x: Expr| {
                    let y = me.fresh("y");
                    let b = me.apply(&f, &[x])?;
                    Ok(parse_quote!(let #y = #b; if #y.is_some() { #a2 = #y; break; }))
                };
                (parse_quote!(let mut #acc = None;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "for_each" => {
                let f = f.unwrap();
                let mut sink = |me: &mut Self, x: Expr| {
                    let b = me.apply(&f, &[x])?;
                    Ok(parse_quote!(#b;))
                };
                let l = self.iter_loops(recv, &mut sink, None, None)?;
                return Ok(parse_quote!({ #(#l)* }));
            }
            "position" if !multi => {
                let f = f.unwrap();
                let ix = self.fresh("ix");
                let ix2 = ix.clone();
                let mut sink = |me: &mut Self, x: Expr| {
                    let b = me.apply(&f, &[x])?;
                    Ok(parse_quote!(if #b { #a2 = Some(#ix2); break; } #ix2 = #ix2 + 1;))
                };
                let l = self.iter_loops(recv, &mut sink, Some(&a3), None)?;
                return Ok(parse_quote!({ let mut #acc: Option<usize> = None; let mut #ix: usize = 0; #(#l)* #acc }));
            }
            "count" => {
                let mut sink = |_: &mut Self, _x: Expr| Ok(parse_quote!(#a2 = #a2 + 1;));
                (parse_quote!(let mut #acc: usize = 0;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "sum" => {
                let mut sink = |_: &mut Self, x: Expr| Ok(parse_quote!(#a2 = #a2 + #x;));
                (parse_quote!(let mut #acc: usize = 0;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "max" => {
                let mut sink = |_: &mut Self, x: Expr| Ok(parse_quote!(#a2 = opt_max(#a2, #x);));
                (parse_quote!(let mut #acc: Option<usize> = None;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "min" => {
                let mut sink = |_: &mut Self, x: Expr| Ok(parse_quote!(#a2 = opt_min(#a2, #x);));
                (parse_quote!(let mut #acc: Option<usize> = None;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "collect" => {
                // the collection: as annotated, else by the turbofish type, else a vector
                let by_type = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                    Some(syn::GenericArgument::Type(syn::Type::Path(p))) => Some(last_seg(&p.path)),
                    _ => None,
                });
                let dflt = match by_type.as_deref() {
                    Some(t @ ("HashSet" | "BTreeSet" | "HashMap" | "BTreeMap")) => format!("{t}::new() __ins"),
                    _ => "Vec::new() push".to_string(),
                };
                let ctor = self.cfg.collects.get(self.collect_ix).cloned().unwrap_or(dflt);
                self.collect_ix += 1;
                let (c, p) = ctor.rsplit_once(' ').unwrap();
                let c: Expr = syn::parse_str(c).map_err(|e| e.to_string())?;
                let p: Ident = format_ident!("{}", p);
                let mut sink = |_: &mut Self, x: Expr| Ok(parse_quote!(#a2.#p(#x);));
                (parse_quote!(let mut #acc = #c;), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "partition" => {
                let f = args[0].clone();
                let mut sink = |me: &mut Self, x: Expr| {
                    let y = me.fresh("y");
                    let b = me.apply(&f, &[parse_quote!(&#y)])?;
                    Ok(parse_quote!(let #y = #x; if #b { #a2.0.push(#y); } else { #a2.1.push(#y); }))
                };
                (parse_quote!(let mut #acc = (Vec::new(), Vec::new());), self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            "fold" => {
                let f = args[1].clone();
                let i = args[0].clone();
                let mut sink = |me: &mut Self, x: Expr| {
                    let b = me.apply(&f, &[parse_quote!(#a2), x])?;
                    Ok(parse_quote!(#a2 = #b;))
                };
                // a type given to the closure's accumulator parameter is the accumulator's type
                let ty = match strip(&args[1]) {
                    Expr::Closure(c) => match c.inputs.first() { Some(Pat::Type(t)) => Some((*t.ty).clone()), _ => None },
                    _ => None,
                };
                let init: Stmt = match ty { Some(t) => parse_quote!(let mut #acc: #t = #i;), None => parse_quote!(let mut #acc = #i;) };
                (init, self.iter_loops(recv, &mut sink, Some(&a3), None)?)
            }
            _ => return Err(format!("iterator terminal {name}")),
        };
        Ok(parse_quote!({ #init #(#stmts)* #acc }))
    }

    fn lower_macro(&mut self, mac: &syn::Macro) -> Result<Option<Expr>, String> {
        let name = last_seg(&mac.path);
        let parse_args = || -> Result<Vec<Expr>, String> {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
            Ok(p.parse2(mac.tokens.clone()).map_err(|e| e.to_string())?.into_iter().collect())
        };
        Ok(match name.as_str() {
            "matches" => {
                let toks = mac.tokens.clone();
                let m = parse_matches(toks)?;
                self.tag("matches!->match");
                Some(m)
            }
            "assert" | "debug_assert" => {
                let a = parse_args()?;
                let c = &a[0];
                self.tag("assert!->precondition");
                Some(parse_quote!(__runtime_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = parse_args()?;
                let (x, y) = (&a[0], &a[1]);
                self.tag("assert!->precondition");
                Some(parse_quote!(__runtime_assert(#x == #y)))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = parse_args()?;
                let (x, y) = (&a[0], &a[1]);
                self.tag("assert!->precondition");
                Some(parse_quote!(__runtime_assert(#x != #y)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.tag("panic!->unreachable-obligation");
                Some(parse_quote!(__runtime_unreachable()))
            }
            "vec" => {
                let s = mac.tokens.to_string();
                if s.trim().is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else if s.contains(';') {
                    return Err("vec![x; n]".into());
                } else {
                    let a = parse_args()?;
                    let v = self.fresh("vec");
                    self.tag("vec!->pushes");
                    Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }))
                }
            }
            "format" => {
                self.tag("format!->opaque string");
                Some(parse_quote!(__opaque_string()))
            }
            _ => None,
        })
    }
}

fn parse_matches(toks: TokenStream) -> Result<Expr, String> {
    // EXPR , PAT [if GUARD] [,]
    let mut depth0: Vec<TokenTree> = toks.into_iter().collect();
    if let Some(TokenTree::Punct(p)) = depth0.last() {
        if p.as_char() == ',' {
            depth0.pop();
        }
    }
    let ix = depth0
        .iter()
        .position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))
        .ok_or("matches! without comma")?;
    let rest: TokenStream = depth0[ix + 1..].iter().cloned().collect();
    let e: TokenStream = depth0[..ix].iter().cloned().collect();
    let m = quote!(match #e { #rest => true, _ => false });
    syn::parse2(m).map_err(|e| e.to_string())
}

/// string-literal patterns -> binding + guard
struct StrPat {
    n: usize,
    conds: Vec<(Ident, Vec<syn::Lit>)>,
}
impl StrPat {
    fn is_str(p: &Pat) -> bool {
        matches!(p, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
    }
}
impl VisitMut for StrPat {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let lits: Option<Vec<syn::Lit>> = match p {
            Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![l.lit.clone()]),
            Pat::Or(o) if o.cases.iter().all(Self::is_str) => Some(
                o.cases
                    .iter()
                    .map(|c| match c {
                        Pat::Lit(l) => l.lit.clone(),
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            Pat::Paren(pp) => {
                let mut inner = (*pp.pat).clone();
                self.visit_pat_mut(&mut inner);
                *p = inner;
                return;
            }
            _ => None,
        };
        if let Some(l) = lits {
            self.n += 1;
            let id = Ident::new(&format!("__s{}", self.n), Span::call_site());
            self.conds.push((id.clone(), l));
            *p = parse_quote!(#id);
            return;
        }
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}

struct BreakVal {
    var: Ident,
    label: Option<String>,
    depth: usize,
    found: bool,
}
impl VisitMut for BreakVal {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Break(b) => {
                visit_mut::visit_expr_break_mut(self, b);
                let mine = match (&b.label, &self.label) {
                    (None, _) => self.depth == 0,
                    (Some(l), Some(m)) => &l.to_string() == m,
                    _ => false,
                };
                if mine {
                    if let Some(v) = &b.expr {
                        self.found = true;
                        let var = &self.var;
                        let l = &b.label;
                        *e = parse_quote!({ #var = Some(#v); break #l; });
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

impl<'c> VisitMut for Lower<'c> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            match self.lower_macro(&m.mac) {
                Ok(Some(e)) => {
                    *s = if m.semi_token.is_some() { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
                }
                Ok(None) => {
                    let n = last_seg(&m.mac.path);
                    if !n.starts_with("__") {
                        self.errors.push(format!("unsupported macro {n}!"));
                    }
                }
                Err(e) => self.errors.push(e),
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewriting for chains, so that whole iterator chains are seen before their parts
        let mut fuel = 20;
        loop {
            fuel -= 1;
            if fuel == 0 {
                break;
            }
            let new: Result<Option<Expr>, String> = match e {
                Expr::MethodCall(m) => {
                    let m = m.clone();
                    self.lower_method(&m)
                }
                Expr::Macro(m) => {
                    let mac = m.mac.clone();
                    match self.lower_macro(&mac) {
                        Ok(None) => {
                            let n = last_seg(&mac.path);
                            if n.starts_with("__") {
                                Ok(None)
                            } else {
                                Err(format!("unsupported macro {n}!"))
                            }
                        }
                        r => r,
                    }
                }
                Expr::Call(c) => match strip(&c.func) {
                    Expr::Path(p) if last_seg(&p.path) == "try_from_tokens" && p.path.segments.len() >= 2 => {
                        self.tag("try_from_tokens blanket impl inlined");
                        let mut pm = p.path.clone();
                        let mut pf = p.path.clone();
                        pm.segments.last_mut().unwrap().ident = format_ident!("is_match");
                        pf.segments.last_mut().unwrap().ident = format_ident!("from_tokens");
                        let a = &c.args;
                        Ok(Some(parse_quote!(if #pm(#a) { Some(#pf(#a)) } else { None })))
                    }
                    Expr::Closure(_) => {
                        let c = c.clone();
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        self.apply(&c.func, &args).map(Some)
                    }
                    // `X::from_iter(it)`: an empty X into which every item is inserted
                    Expr::Path(p) if last_seg(&p.path) == "from_iter" && p.path.segments.len() >= 2 && c.args.len() == 1 && self.kind(&c.args[0]) == Kind::Iter => {
                        self.tag("from_iter->loop");
                        let mut pm = p.path.clone();
                        pm.segments.last_mut().unwrap().ident = format_ident!("new");
                        let acc = self.fresh("acc");
                        let a2 = acc.clone();
                        let a3 = acc.clone();
                        let src = c.args[0].clone();
                        let ins = format_ident!("{}", if p.path.segments.iter().any(|s| s.ident == "Vec") { "push" } else { "__ins" });
                        let mut sink = |_: &mut Self, x: Expr| -> Result<Vec<Stmt>, String> { Ok(parse_quote!(#a2.#ins(#x);)) };
                        match self.iter_loops(&src, &mut sink, Some(&a3), None) {
                            Ok(l) => Ok(Some(parse_quote!({ let mut #acc = #pm(); #(#l)* #acc }))),
                            Err(e) => Err(e),
                        }
                    }
                    _ => Ok(None),
                },
                Expr::ForLoop(f) => {
                    let f = f.clone();
                    let pat = &f.pat;
                    let body = &f.body;
                    self.tag("for->loop over next()");
                    let mut sink = |_: &mut Self, x: Expr| {
                        let st = &body.stmts;
                        let (pat, x) = peel((**pat).clone(), x);
                        Ok(parse_quote!(let #pat = #x; #(#st)*))
                    };
                    let multi = f.expr.to_token_stream().to_string();
                    if multi.contains("chain") || multi.contains("flat_map") {
                        let (c, _) = ctl_block(body);
                        if c {
                            Err("for over chained iterator with break/return".to_string())
                        } else {
                            let lab = f.label.clone();
                            let _ = lab;
                            self.iter_loops(&f.expr, &mut sink, None, None).map(|l| Some(parse_quote!({ #(#l)* })))
                        }
                    } else {
                        let lab = f.label.as_ref().map(|l| l.name.clone());
                        match self.iter_loops(&f.expr, &mut sink, None, None) {
                            Ok(mut l) => {
                                if let Some(lab) = lab {
                                    for st in l.iter_mut() {
                                        if let Stmt::Expr(Expr::Loop(lp), _) = st {
                                            lp.label = Some(syn::Label { name: lab.clone(), colon_token: Default::default() });
                                        }
                                    }
                                }
                                Ok(Some(parse_quote!({ #(#l)* })))
                            }
                            Err(e) => Err(e),
                        }
                    }
                }
                Expr::Loop(l) => {
                    let var = format_ident!("__brk{}", self.n + 1);
                    let mut bv = BreakVal { var: var.clone(), label: l.label.as_ref().map(|l| l.name.to_string()), depth: 0, found: false };
                    let mut l2 = l.clone();
                    for s in l2.body.stmts.iter_mut() {
                        bv.visit_stmt_mut(s);
                    }
                    if bv.found {
                        self.n += 1;
                        self.tag("break-value->flag");
                        l2.body.stmts.insert(0, parse_quote!(__brk!(#var);));
                        Ok(Some(parse_quote!({ let mut #var = None; #l2 __opt_take(#var) })))
                    } else {
                        Ok(None)
                    }
                }
                _ => Ok(None),
            };
            match new {
                Ok(Some(n)) => {
                    *e = n;
                    continue;
                }
                Ok(None) => break,
                Err(er) => {
                    self.errors.push(er);
                    break;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            let narms = m.arms.len();
            for (ai, arm) in m.arms.iter_mut().enumerate() {
                if let Pat::Slice(sl) = &arm.pat {
                    match slice_arm(sl, &mut self.n) {
                        Ok((id, cond, binds)) => {
                            self.tags.insert("slice pattern->length guard".to_string());
                            let body = &arm.body;
                            let body2: Expr = parse_quote!({ #(#binds)* #body });
                            if arm.guard.is_some() {
                                self.errors.push("slice pattern with guard".into());
                            }
                            arm.body = Box::new(body2);
                            arm.pat = parse_quote!(#id);
                            arm.comma = Some(Default::default());
                            if ai + 1 < narms {
                                arm.guard = Some((Default::default(), Box::new(cond)));
                            }
                        }
                        Err(x) => self.errors.push(x),
                    }
                    continue;
                }
                let mut sp = StrPat { n: self.n, conds: vec![] };
                sp.visit_pat_mut(&mut arm.pat);
                if !sp.conds.is_empty() {
                    self.n = sp.n;
                    self.tag("string pattern->guard");
                    let mut g: Option<Expr> = None;
                    for (id, lits) in &sp.conds {
                        let c: Expr = parse_quote!((#(#id == #lits)||*));
                        g = Some(match g {
                            None => c,
                            Some(g) => parse_quote!(#g && #c),
                        });
                    }
                    let g = g.unwrap();
                    let g2: Expr = match &arm.guard {
                        Some((_, old)) => parse_quote!(#g && (#old)),
                        None => g,
                    };
                    arm.guard = Some((Default::default(), Box::new(g2)));
                }
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

fn slice_arm(sl: &syn::PatSlice, n: &mut usize) -> Result<(Ident, Expr, Vec<Stmt>), String> {
    *n += 1;
    let id = Ident::new(&format!("__sl{}", n), Span::call_site());
    let rest = sl.elems.iter().position(|p| matches!(p, Pat::Rest(_)));
    let cnt = sl.elems.len();
    let mut binds: Vec<Stmt> = vec![];
    for (i, p) in sl.elems.iter().enumerate() {
        if Some(i) == rest || matches!(p, Pat::Wild(_)) {
            continue;
        }
        if !matches!(p, Pat::Ident(_)) {
            return Err("nested slice pattern".into());
        }
        match rest {
            Some(r) if i > r => {
                let k = cnt - i;
                binds.push(parse_quote!(let #p = &#id[#id.len() - #k];));
            }
            _ => binds.push(parse_quote!(let #p = &#id[#i];)),
        }
    }
    let cond: Expr = match rest {
        None => parse_quote!(#id.len() == #cnt),
        Some(_) => {
            let k = cnt - 1;
            parse_quote!(#id.len() >= #k)
        }
    };
    Ok((id, cond, binds))
}

/// constructors passed as functions become closures
pub struct Eta<'a>(pub &'a [String]);
impl<'a> Eta<'a> {
    fn fix(&self, a: &mut Expr) {
        if let Expr::Path(p) = a {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if self.0.iter().any(|x| *x == s) {
                *a = parse_quote!(|__e| #p(__e));
            }
        }
    }
}
impl<'a> VisitMut for Eta<'a> {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        for a in c.args.iter_mut() { self.fix(a) }
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, c);
        for a in c.args.iter_mut() { self.fix(a) }
    }
}

pub struct FindClosures(pub usize);
impl<'a> Visit<'a> for FindClosures {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {
        self.0 += 1;
    }
}
