//! extractor <repo> <unit.vrs> <out.rs> <report.json> [--disable id]...
//! Builds a Verus file from a unit template: text is copied, `//@fn`/`//@item` directives are replaced by the
//! current source text of the named functions/types of /repo with contracts attached and lowerings applied.
mod emit;
mod fmt;
mod alias;
mod letref;
mod inline;
mod lower;
use lower::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

pub struct FnDir {
    pub attrs: BTreeMap<String, String>,
    pub secs: Vec<(String, String)>,
}

fn parse_attrs(s: &str) -> BTreeMap<String, String> {
    // key=value or key="value with spaces"
    let mut m = BTreeMap::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        while i < b.len() && b[i].is_whitespace() {
            i += 1
        }
        let mut k = String::new();
        while i < b.len() && b[i] != '=' && !b[i].is_whitespace() {
            k.push(b[i]);
            i += 1
        }
        let mut v = String::new();
        if i < b.len() && b[i] == '=' {
            i += 1;
            if i < b.len() && b[i] == '"' {
                i += 1;
                while i < b.len() && b[i] != '"' {
                    v.push(b[i]);
                    i += 1
                }
                i += 1;
            } else {
                while i < b.len() && !b[i].is_whitespace() {
                    v.push(b[i]);
                    i += 1
                }
            }
        }
        if !k.is_empty() {
            m.insert(k, v);
        }
    }
    m
}

pub fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        syn::Type::Paren(r) => last_ident(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

/// all items including nested inline modules
pub fn all_items(items: &[syn::Item]) -> Vec<syn::Item> {
    let mut v = vec![];
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, it)) = &m.content {
                    v.extend(all_items(it))
                }
            }
            i => v.push(i.clone()),
        }
    }
    v
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: Option<String>,
    pub impl_ty: Option<String>,
    pub where_: Option<String>,
    pub line: usize,
}

pub struct Src {
    pub items: Vec<syn::Item>,
}

pub fn find_fn(src: &Src, imp: Option<&str>, name: &str) -> Option<Found> {
    for it in &src.items {
        match (it, imp) {
            (syn::Item::Fn(f), None) if f.sig.ident == name => {
                return Some(Found {
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    impl_generics: None,
                    impl_ty: None,
                    where_: None,
                    line: f.sig.ident.span().start().line,
                })
            }
            (syn::Item::Trait(t), Some(want)) if want == format!("trait:{}", t.ident) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(Found {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    impl_generics: Some(String::new()),
                                    impl_ty: Some("Self_".into()),
                                    where_: None,
                                    line: f.sig.ident.span().start().line,
                                });
                            }
                        }
                    }
                }
            }
            (syn::Item::Impl(i), Some(want)) => {
                let ty = last_ident(&i.self_ty);
                let full = i.self_ty.to_token_stream().to_string().replace(' ', "");
                let (wt, wty) = match want.split_once(':') {
                    Some((a, b)) => (Some(a), b),
                    None => (None, want),
                };
                if ty != wty && full != wty {
                    continue;
                }
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let trfull = i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', ""));
                match (wt, &tr) {
                    (None, None) => {}
                    (Some(a), Some(b)) if a == b || Some(a) == trfull.as_deref() => {}
                    _ => continue,
                }
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        if f.sig.ident == name && !is_test(&f.attrs) {
                            return Some(Found {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                impl_generics: Some(i.generics.to_token_stream().to_string()),
                                impl_ty: Some(i.self_ty.to_token_stream().to_string()),
                                where_: i.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()),
                                line: f.sig.ident.span().start().line,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn flat(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}

/// token-sequence substitution with `$x` wildcards for single token trees
pub struct Subst {
    lhs: Vec<TokenTree>,
    rhs: TokenStream,
    pub text: String,
}
fn tt_eq(a: &TokenTree, b: &TokenTree, env: &mut BTreeMap<String, TokenTree>) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let xs = flat(x.stream());
                let ys = flat(y.stream());
                match match_seq(&xs, &ys, env) {
                    Some(n) => n == ys.len(),
                    None => false,
                }
            }
        }
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}
fn match_seq(pat: &[TokenTree], toks: &[TokenTree], env: &mut BTreeMap<String, TokenTree>) -> Option<usize> {
    let mut i = 0;
    let mut j = 0;
    while i < pat.len() {
        if let TokenTree::Punct(p) = &pat[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = pat.get(i + 1) {
                    let t = toks.get(j)?;
                    let k = id.to_string();
                    if let Some(old) = env.get(&k) {
                        if old.to_string() != t.to_string() {
                            return None;
                        }
                    }
                    env.insert(k, t.clone());
                    i += 2;
                    j += 1;
                    continue;
                }
            }
        }
        let t = toks.get(j)?;
        if !tt_eq(&pat[i], t, env) {
            return None;
        }
        i += 1;
        j += 1;
    }
    Some(j)
}
fn inst(rhs: TokenStream, env: &BTreeMap<String, TokenTree>) -> TokenStream {
    let v = flat(rhs);
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(t) = env.get(&id.to_string()) {
                        out.push(t.clone());
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), inst(g.stream(), env));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
impl Subst {
    pub fn parse(line: &str) -> Subst {
        let (l, r) = line.split_once("==>").unwrap_or_else(|| panic!("bad subst {line}"));
        Subst {
            lhs: flat(l.parse().expect("subst lhs")),
            rhs: r.parse().expect("subst rhs"),
            text: line.trim().to_string(),
        }
    }
    pub fn apply(&self, ts: TokenStream, hit: &mut bool) -> TokenStream {
        let v: Vec<TokenTree> = flat(ts)
            .into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.apply(g.stream(), hit));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            })
            .collect();
        let mut out = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut env = BTreeMap::new();
            if let Some(n) = match_seq(&self.lhs, &v[i..], &mut env) {
                if n > 0 {
                    *hit = true;
                    out.extend(inst(self.rhs.clone(), &env));
                    i += n;
                    continue;
                }
            }
            out.push(v[i].clone());
            i += 1;
        }
        out.into_iter().collect()
    }
}

/// normalise: drop trailing commas in groups so that formatting cannot defeat substitutions
fn norm(ts: TokenStream) -> TokenStream {
    let mut v: Vec<TokenTree> = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let mut inner = flat(norm(g.stream()));
                if g.delimiter() == proc_macro2::Delimiter::Parenthesis && inner.len() > 1 {
                    // keep 1-tuples `(x,)`: only strip when another comma exists or content is a call argument list;
                    let commas = inner.iter().filter(|t| matches!(t, TokenTree::Punct(p) if p.as_char()==',')).count();
                    let prev_is_callee = matches!(v.last(), Some(TokenTree::Ident(_)))
                        || matches!(v.last(), Some(TokenTree::Punct(p)) if p.as_char()=='>' || p.as_char()=='!');
                    if let Some(TokenTree::Punct(p)) = inner.last() {
                        if p.as_char() == ',' && (commas > 1 || prev_is_callee) {
                            inner.pop();
                        }
                    }
                }
                let mut n = proc_macro2::Group::new(g.delimiter(), inner.into_iter().collect());
                n.set_span(g.span());
                v.push(TokenTree::Group(n));
            }
            t => v.push(t),
        }
    }
    v.into_iter().collect()
}

fn rename_kw(ts: TokenStream) -> TokenStream {
    const KW: &[&str] = &[
        "int", "nat", "spec", "proof", "ghost", "tracked", "forall", "exists", "choose", "requires", "ensures",
        "invariant", "decreases", "recommends", "exec", "open", "closed", "via",
    ];
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_kw(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            TokenTree::Ident(i) if KW.contains(&i.to_string().as_str()) => {
                TokenTree::Ident(proc_macro2::Ident::new(&format!("{i}_"), i.span()))
            }
            // Verus prints raw identifiers verbatim into SMT-LIB, where `#` ends the symbol
            TokenTree::Ident(i) if i.to_string().starts_with("r#") => {
                TokenTree::Ident(proc_macro2::Ident::new(&format!("{}_", &i.to_string()[2..]), i.span()))
            }
            t => t,
        })
        .collect()
}

struct Lets {
    muts: Vec<String>,
    lets: Vec<(String, String)>,
}
fn pat_ident(p: &syn::Pat) -> Option<(String, bool)> {
    match p {
        syn::Pat::Ident(i) => Some((i.ident.to_string(), i.mutability.is_some())),
        syn::Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some((n, m)) = pat_ident(&l.pat) {
            if m {
                self.muts.push(n.clone());
            }
            if let Some(i) = &l.init {
                self.lets.push((n, i.expr.to_token_stream().to_string()));
            }
        }
        syn::visit::visit_local(self, l);
    }
}

#[derive(Default)]
pub struct LoopInfo {
    pub it: Option<String>,
    pub acc: Option<String>,
    pub brk: Option<String>,
    pub own: std::collections::BTreeSet<String>,
    pub parent: Option<usize>,
}
/// identifiers used by a loop outside of the loops nested in it
struct OwnIdents(std::collections::BTreeSet<String>);
impl<'a> Visit<'a> for OwnIdents {
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_ident(&mut self, i: &'a syn::Ident) {
        self.0.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn go(t: TokenStream, o: &mut std::collections::BTreeSet<String>) {
            for x in t {
                match x {
                    TokenTree::Ident(i) => { o.insert(i.to_string()); }
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}

struct LoopMark {
    stack: Vec<usize>,
    n: usize,
    infos: Vec<LoopInfo>,
}
impl LoopMark {
    fn mark(&mut self, b: &mut syn::Block) -> usize {
        let k = self.n;
        self.n += 1;
        let mut info = LoopInfo::default();
        while let Some(syn::Stmt::Macro(m)) = b.stmts.first() {
            let nm = m.mac.path.to_token_stream().to_string();
            let ids: Vec<String> = m
                .mac
                .tokens
                .clone()
                .into_iter()
                .filter_map(|t| match t {
                    TokenTree::Ident(i) => Some(i.to_string()),
                    _ => None,
                })
                .collect();
            if nm == "__lowered_loop" {
                info.it = ids.first().cloned();
                info.acc = ids.get(1).cloned();
            } else if nm == "__brk" {
                info.brk = ids.first().cloned();
            } else {
                break;
            }
            b.stmts.remove(0);
        }
        let mut oi = OwnIdents(Default::default());
        oi.visit_block(b);
        info.own = oi.0;
        info.parent = self.stack.last().copied();
        self.infos.push(info);
        k
    }
    fn add(&self, b: &mut syn::Block, k: usize) {
        let e = format!("__raw_loop_{k}_end");
        let s = format!("__raw_loop_{k}_start");
        let i = format!("__inv_{k}");
        let (e, s, i) = (
            quote::format_ident!("{}", e),
            quote::format_ident!("{}", s),
            quote::format_ident!("{}", i),
        );
        b.stmts.insert(0, syn::parse_quote!(#s!();));
        b.stmts.insert(0, syn::parse_quote!(#i!();));
        // a trailing expression of type () before the end marker needs a semicolon
        if let Some(syn::Stmt::Expr(_, semi)) = b.stmts.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        b.stmts.push(syn::parse_quote!(#e!();));
    }
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Loop(l) => {
                let k = self.mark(&mut l.body);
                self.stack.push(k);
                syn::visit_mut::visit_block_mut(self, &mut l.body);
                self.stack.pop();
                self.add(&mut l.body, k);
            }
            syn::Expr::While(l) => {
                syn::visit_mut::visit_expr_mut(self, &mut l.cond);
                let k = self.mark(&mut l.body);
                self.stack.push(k);
                syn::visit_mut::visit_block_mut(self, &mut l.body);
                self.stack.pop();
                self.add(&mut l.body, k);
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// replaces whole-word `from` by `to`
fn word(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut cur = String::new();
    let mut flush = |cur: &mut String, o: &mut String| {
        if cur == from { o.push_str(to) } else { o.push_str(cur) }
        cur.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c)
        } else {
            flush(&mut cur, &mut o);
            o.push(c)
        }
    }
    flush(&mut cur, &mut o);
    o
}
/// Loop annotation shorthands for lowered iterator loops. `__s_it`: all items, `__k_it`: how many were taken.
fn loop_dsl(raw: &str, it: &str, acc: &str) -> Result<(String, String, String, String), String> {
    let (s, k, p) = (format!("__s_{it}"), format!("__k_{it}"), format!("__p_{it}"));
    let (mut exc, mut inv, mut ens) = (vec![], vec![format!("{it}@ == {s}.skip({k})"), format!("0 <= {k} <= {s}.len()")], vec![]);
    let mut pre = format!("let ghost mut {k}: int = 0; let ghost {s} = {it}@; proof {{ assert({s}.skip(0) =~= {s}); }}");
    let mut exit = String::new();
    let q = |x: &str, b: &str| word(b, x, &format!("{s}[__j]"));
    for l in raw.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
        if let Some(d) = l.strip_prefix('@') {
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            if cmd == "base" {
                ens.push(format!("{k} == {s}.len()"));
                continue;
            }
            if cmd == "breaks" {
                continue;
            }
            if cmd == "first" {
                // the first element whose name is the given one (spec fn `first`)
                let n = rest.trim();
                exc.push(format!("{acc} is None"));
                exc.push(format!("first({s}, {n}) == first({s}.skip({k}), {n})"));
                ens.push(format!("is_opt({acc}, first({s}, {n}))"));
                continue;
            }
            if cmd == "append" {
                // @append VEC: every item is pushed, in order
                let v = if rest.trim() == "acc" { acc } else { rest.trim() };
                pre.push_str(&format!(" let ghost {p} = {v}@; proof {{ assert({p} + {s}.take(0) =~= {p}); assert({s}.take({s}.len() as int) =~= {s}); }}"));
                inv.push(format!("{v}@ =~= {p} + {s}.take({k})"));
                ens.push(format!("{v}@ == {p} + {s}"));
                continue;
            }
            let (head, body) = rest.split_once(':').ok_or("loop shorthand without `:`")?;
            let (head, body) = (head.trim(), body.trim());
            match cmd {
                "any" => {
                    let b = q(head, body);
                    // works for `any(P)` (starts false) and `all(!P)` (starts true)
                    pre.push_str(&format!(" let ghost __i_{it}: bool = {acc};"));
                    exc.push(format!("{acc} == __i_{it}"));
                    exc.push(format!("forall|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} ==> !({b})"));
                    ens.push(format!("({acc} != __i_{it}) == exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {s}.len() && ({b})"));
                }
                "all" => {
                    let b = q(head, body);
                    exc.push(acc.to_string());
                    exc.push(format!("forall|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} ==> ({b})"));
                    ens.push(format!("{acc} == forall|__j: int| #![trigger {s}[__j]] 0 <= __j < {s}.len() ==> ({b})"));
                }
                "find" | "findv" => {
                    let b = q(head, body);
                    let d = if cmd == "find" { "*" } else { "" };
                    let bi = word(&b, "__j", "__i");
                    exc.push(format!("{acc} is None"));
                    exc.push(format!("forall|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} ==> !({b})"));
                    ens.push(format!("{acc} is None ==> forall|__j: int| #![trigger {s}[__j]] 0 <= __j < {s}.len() ==> !({b})"));
                    ens.push(format!("{acc} is Some ==> exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {s}.len() && {d}{acc}->0 == {s}[__j] && ({b}) && forall|__i: int| #![trigger {s}[__i]] 0 <= __i < __j ==> !({bi})"));
                }
                "push" => {
                    // @push VEC x: COND => ITEM
                    let (v, x) = head.split_once(' ').ok_or("@push VEC x: COND => ITEM")?;
                    let (c, f) = body.split_once("=>>").ok_or("@push VEC x: COND =>> ITEM")?;
                    let v = if v == "acc" { acc } else { v };
                    let (c, f) = (q(x, c), q(x, f));
                    pre.push_str(&format!(" let ghost {p} = {v}@;"));
                    inv.push(format!("forall|__c| #![trigger {v}@.contains(__c)] {v}@.contains(__c) <==> ({p}.contains(__c) || exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} && ({c}) && __c == {f})"));
                    ens.push(format!("{k} == {s}.len()"));
                }
                "grow" => {
                    // @grow VEC x: COND    VEC gets longer if and only if some item satisfies COND
                    let (v, x) = head.split_once(' ').ok_or("@grow VEC x: …")?;
                    let v = if v == "acc" { acc } else { v };
                    let b = q(x, body);
                    pre.push_str(&format!(" let ghost {p} = {v}@;"));
                    inv.push(format!("{v}@.len() >= {p}.len()"));
                    inv.push(format!("({v}@.len() > {p}.len()) <==> exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} && ({b})"));
                    ens.push(format!("{k} == {s}.len()"));
                }
                "pushd" => {
                    // @pushd MAP x: COND =>> KEY     the domain of a map
                    let (v, x) = head.split_once(' ').ok_or("@pushd MAP x: COND =>> KEY")?;
                    let (c, f) = body.split_once("=>>").ok_or("@pushd MAP x: COND =>> KEY")?;
                    let v = if v == "acc" { acc } else { v };
                    let (c, f) = (q(x, c), q(x, f));
                    pre.push_str(&format!(" let ghost {p} = {v}@;"));
                    inv.push(format!("forall|__c| #![trigger {v}@.contains_key(__c)] {v}@.contains_key(__c) <==> ({p}.contains_key(__c) || exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} && ({c}) && __c == {f})"));
                    ens.push(format!("{k} == {s}.len()"));
                }
                "pushc" | "extc" => {
                    // @pushc VEC x: COND =>> ITEM      @extc VEC x: PRED(__c)     (membership of views, spec fn `hasc`)
                    let (v, x) = head.split_once(' ').ok_or("@pushc VEC x: …")?;
                    let v = if v == "acc" { acc } else { v };
                    let b = match body.split_once("=>>") {
                        Some((c, f)) if cmd == "pushc" => format!("({}) && __c == {}", q(x, c), q(x, f)),
                        _ => q(x, body),
                    };
                    pre.push_str(&format!(" let ghost {p} = {v}@;"));
                    inv.push(format!("forall|__c| #![trigger hasc({v}@, __c)] hasc({v}@, __c) <==> (hasc({p}, __c) || exists|__j: int| #![trigger {s}[__j]] 0 <= __j < {k} && {b})"));
                    ens.push(format!("{k} == {s}.len()"));
                }
                _ => return Err(format!("loop shorthand @{cmd}")),
            }
        } else if let Some(x) = l.strip_prefix("invariant ") {
            inv.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("except ") {
            exc.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("ensures ") {
            ens.push(x.to_string());
            // known after the loop without being derived again
            exit.push_str(&format!("assert({x}); "));
        } else if let Some(x) = l.strip_prefix("pre ") {
            pre.push_str(&format!(" {x}"));
        } else {
            return Err(format!("loop annotation line: {l}"));
        }
    }
    let mut o = String::new();
    if !exc.is_empty() {
        o.push_str(&format!("invariant_except_break {},\n", exc.join(",\n")));
    }
    o.push_str(&format!("invariant {},\n", inv.join(",\n")));
    if !ens.is_empty() {
        o.push_str(&format!("ensures {},\n", ens.join(",\n")));
    }
    o.push_str(&format!("decreases {s}.len() - {k}"));
    let step = format!("proof {{ assert({s}.skip({k})[0] == {s}[{k}]); assert({s}.skip({k}).skip(1) =~= {s}.skip({k} + 1)); {k} = {k} + 1; }}");
    let exit = if exit.is_empty() { exit } else { format!("proof {{ {exit} }}") };
    Ok((o, pre, step, exit))
}

/// the leaf tokens of a token stream, delimiters included
fn leaves(ts: proc_macro2::TokenStream, o: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                o.push(a.into());
                leaves(g.stream(), o);
                o.push(b.into());
            }
            t => o.push(t.to_string()),
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Unit {
    pub substs: Vec<Subst>,
    pub cfg: Cfg,
    pub known: BTreeSet<String>,
    pub fmt: bool,
    pub text: bool,
    pub repo: String,
}

struct FnReport {
    id: String,
    src: String,
    line: usize,
    error: Option<String>,
    disabled: bool,
    tags: Vec<String>,
    inlined: Vec<String>,
    trusted: bool,
    hash: String,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, tpl, out, rep) = (&args[1], &args[2], &args[3], &args[4]);
    let mut disabled: BTreeSet<String> = Default::default();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--disable" {
            disabled.insert(args[i + 1].clone());
            i += 1;
        }
        i += 1;
    }
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let text = load(tpl, &dir);
    let mut unit = Unit { substs: vec![], cfg: Cfg::default(), known: Default::default(), fmt: false, text: false, repo: repo.to_string() };
    // pass 1: globals
    let mut known_re = vec![];
    for l in text.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@subst ") {
            unit.substs.push(Subst::parse(r));
        } else if let Some(r) = t.strip_prefix("//@rtype ") {
            for kv in r.split_whitespace() {
                let (k, v) = kv.split_once('=').unwrap();
                unit.cfg.rtypes.insert(k.to_string(), kindof(v));
            }
        } else if let Some(r) = t.strip_prefix("//@method ") {
            let (k, v) = r.split_once("==>").unwrap();
            unit.cfg.methods.insert(k.trim().to_string(), v.trim().to_string());
        } else if t == "//@text" {
            unit.text = true;
        } else if t == "//@fmt" {
            unit.fmt = true;
        } else if let Some(r) = t.strip_prefix("//@eta ") {
            unit.cfg.etas.extend(r.split_whitespace().map(String::from));
        } else if let Some(r) = t.strip_prefix("//@known ") {
            for k in r.split_whitespace() {
                known_re.push(k.to_string());
            }
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let a = parse_attrs(r);
            known_re.push(a["fn"].clone());
            if let Some(x) = a.get("as") {
                known_re.push(x.clone());
            }
        } else if !t.starts_with("//") {
            let mut rest = t;
            while let Some(p) = rest.find("fn ") {
                let n: String = rest[p + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !n.is_empty() {
                    known_re.push(n);
                }
                rest = &rest[p + 3..];
            }
        }
    }
    unit.known.extend(known_re);

    let mut srcs: BTreeMap<String, Result<Src, String>> = BTreeMap::new();
    let mut outs = String::new();
    let mut reports: Vec<FnReport> = vec![];
    let mut items_rep: Vec<String> = vec![];
    let mut lines = text.lines().peekable();
    let mut fatal: Vec<String> = vec![];
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut d = FnDir { attrs: parse_attrs(r), secs: vec![] };
            let mut cur = String::from("spec");
            let mut buf = String::new();
            for l2 in lines.by_ref() {
                let t2 = l2.trim();
                if t2 == "//@end" {
                    break;
                }
                if let Some(h) = t2.strip_prefix("//@ ") {
                    d.secs.push((std::mem::replace(&mut cur, h.trim().to_string()), std::mem::take(&mut buf)));
                } else {
                    buf.push_str(l2);
                    buf.push('\n');
                }
            }
            d.secs.push((cur, buf));
            let srcp = d.attrs["src"].clone();
            let id = d.attrs.get("id").cloned().unwrap_or_else(|| {
                let im = d.attrs.get("impl").map(|s| s.replace(':', "_for_") + "::").unwrap_or_default();
                format!("{}{}", im, d.attrs["fn"])
            });
            let src = srcs.entry(srcp.clone()).or_insert_with(|| load_src(repo, &srcp));
            let dis = disabled.contains(&id);
            let (txt, mut r) = gen_fn(&unit, src, &d, &id, dis);
            r.src = srcp;
            outs.push_str(&format!("//@@begin {}\n{}\n//@@end {}\n", id, txt, id));
            reports.push(r);
        } else if let Some(r) = t.strip_prefix("//@item ") {
            let a = parse_attrs(r);
            let srcp = a["src"].clone();
            let src = srcs.entry(srcp.clone()).or_insert_with(|| load_src(repo, &srcp));
            match gen_item(&unit, src, &a) {
                Ok(s) => {
                    outs.push_str(&s);
                    outs.push('\n');
                    items_rep.push(format!("{}::{}", srcp, a["name"]));
                }
                Err(e) => {
                    fatal.push(format!("item {} {}: {}", srcp, a["name"], e));
                }
            }
        } else if let Some(r) = t.strip_prefix("//@pin ") {
            // text that must be present (token-wise) in a source file: pinned glue
            let a = parse_attrs(r);
            let srcp = a["src"].clone();
            let src = srcs.entry(srcp.clone()).or_insert_with(|| load_src(repo, &srcp));
            let ok = match src {
                Ok(s) => {
                    // compared token by token (layout does not matter, the contents of literals do)
                    let mut all = vec![];
                    s.items.iter().for_each(|i| leaves(norm(i.to_token_stream()), &mut all));
                    let mut pin = vec![];
                    match a["text"].replace('`', "\"").parse::<proc_macro2::TokenStream>() {
                        Ok(t) => {
                            leaves(t, &mut pin);
                            !pin.is_empty() && all.windows(pin.len()).any(|w| w == pin.as_slice())
                        }
                        Err(_) => false,
                    }
                }
                Err(_) => false,
            };
            if !ok {
                fatal.push(format!("pinned text changed: {}: {}", srcp, a["text"]));
            }
        } else if t.starts_with("//@") {
            // global directive, already processed
        } else {
            outs.push_str(l);
            outs.push('\n');
        }
    }
    std::fs::write(out, &outs).unwrap();
    let mut j = String::from("{\"fns\":[");
    for (n, r) in reports.iter().enumerate() {
        if n > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "{{\"id\":{},\"src\":{},\"line\":{},\"error\":{},\"disabled\":{},\"trusted\":{},\"tags\":[{}],\"inlined\":[{}],\"hash\":{}}}",
            jstr(&r.id),
            jstr(&r.src),
            r.line,
            r.error.as_ref().map(|e| jstr(e)).unwrap_or("null".into()),
            r.disabled,
            r.trusted,
            r.tags.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","),
            r.inlined.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","),
            jstr(&r.hash)
        ));
    }
    j.push_str("],\"items\":[");
    j.push_str(&items_rep.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","));
    j.push_str("],\"fatal\":[");
    j.push_str(&fatal.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","));
    j.push_str("],\"substs\":[");
    j.push_str(&unit.substs.iter().map(|t| jstr(&t.text)).collect::<Vec<_>>().join(","));
    j.push_str("]}");
    std::fs::write(rep, j).unwrap();
}

fn kindof(v: &str) -> Kind {
    match v {
        "opt" | "option" => Kind::Opt,
        "res" | "result" => Kind::Res,
        "bool" => Kind::Bool,
        "iter" => Kind::Iter,
        _ => Kind::Unknown,
    }
}

fn load(p: &str, dir: &std::path::Path) -> String {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let mut o = String::new();
    for l in s.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            o.push_str(&load(dir.join(f.trim()).to_str().unwrap(), dir));
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    o
}

fn load_src(repo: &str, p: &str) -> Result<Src, String> {
    let s = std::fs::read_to_string(format!("{repo}/{p}")).map_err(|e| format!("{p}: {e}"))?;
    let f = syn::parse_file(&s).map_err(|e| format!("{p}: {e}"))?;
    Ok(Src { items: all_items(&f.items) })
}

fn gen_item(u: &Unit, src: &Result<Src, String>, a: &BTreeMap<String, String>) -> Result<String, String> {
    let src = src.as_ref().map_err(|e| e.clone())?;
    for it in &src.items {
        let mut it = it.clone();
        let id = match &it {
            syn::Item::Struct(s) => s.ident.to_string(),
            syn::Item::Enum(s) => s.ident.to_string(),
            syn::Item::Const(s) => s.ident.to_string(),
            syn::Item::Type(s) => s.ident.to_string(),
            _ => continue,
        };
        if id != a["name"] {
            continue;
        }
        StripAttrs.visit_item_mut(&mut it);
        let pubv: syn::Visibility = syn::parse_quote!(pub);
        match &mut it {
            syn::Item::Struct(s) => {
                s.vis = pubv.clone();
                for f in s.fields.iter_mut() {
                    f.vis = pubv.clone();
                }
            }
            syn::Item::Enum(s) => s.vis = pubv.clone(),
            syn::Item::Const(s) => s.vis = pubv.clone(),
            syn::Item::Type(s) => s.vis = pubv.clone(),
            _ => {}
        }
        let mut ts = rename_kw(norm(it.to_token_stream()));
        let mut hit = false;
        for s in &u.substs {
            ts = s.apply(ts, &mut hit);
        }
        if let Some(x) = a.get("subst") {
            for y in x.split(";;") {
                ts = Subst::parse(y).apply(ts, &mut hit);
            }
        }
        let mut s = emit::emit(ts, &|_| None);
        if let Some(p) = a.get("prefix") {
            s = format!("{p}\n{s}");
        }
        return Ok(s);
    }
    Err("not found".into())
}

struct FindGuards(bool);
impl<'a> Visit<'a> for FindGuards {
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if a.guard.is_some() { self.0 = true; }
        syn::visit::visit_arm(self, a);
    }
}

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn gen_fn(u: &Unit, src: &Result<Src, String>, d: &FnDir, id: &str, dis: bool) -> (String, FnReport) {
    let mut r = FnReport {
        id: id.to_string(),
        src: String::new(),
        line: 0,
        error: None,
        disabled: dis,
        tags: vec![],
        inlined: vec![],
        trusted: false,
        hash: String::new(),
    };
    // a panic inside syn/quote counts as "outside the extractor's reach", like any other extraction error
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gen_fn_inner(u, src, d, &mut r, dis)))
        .unwrap_or_else(|_| Err("internal panic while lowering".into()));
    match res {
        Ok(s) => (s, r),
        Err(e) => {
            // lost anchor: keep the contract (trusted, reported) so that the callers can still be checked
            r.error = Some(e);
            let s = gen_fn_inner(u, src, d, &mut r, true).unwrap_or_else(|e2| {
                // signature itself is gone; emit declared fallback signature if given
                if let Some(f) = d.secs.iter().find(|(k, _)| k == "fallback") {
                    f.1.clone()
                } else {
                    format!("/* lost: {e2} */")
                }
            });
            (s, r)
        }
    }
}

fn gen_fn_inner(
    u: &Unit,
    src: &Result<Src, String>,
    d: &FnDir,
    r: &mut FnReport,
    stub: bool,
) -> Result<String, String> {
    let src = src.as_ref().map_err(|e| e.clone())?;
    let imp = d.attrs.get("impl").map(|s| s.as_str());
    let name = &d.attrs["fn"];
    // a method the impl does not define is the trait's default (in the file `orsrc` names)
    let other = match (find_fn(src, imp, name), d.attrs.get("orsrc"), imp.and_then(|i| i.split_once(':'))) {
        (None, Some(o), Some((t, _))) => {
            let o = load_src(&u.repo, o)?;
            find_fn(&o, Some(&format!("trait:{t}")), name)
        }
        (f, _, _) => f,
    };
    let mut f = other.ok_or_else(|| format!("function {:?} {} not found", imp, name))?;
    r.line = f.line;
    r.hash = hash(&f.block.to_token_stream().to_string());
    // names before lowering
    let mut lets = Lets { muts: vec![], lets: vec![] };
    let mut stripped = f.block.clone();
    StripAttrs.visit_block_mut(&mut stripped);
    if alias::expand(&mut stripped) {
        r.tags.push("local type alias expanded".into());
    }
    // inline unknown same-file helpers
    let mut inl = inline::Inliner { src, imp, known: &u.known, done: vec![], errors: vec![], depth: 0, self_name: name.clone() };
    inl.run(&mut stripped);
    r.inlined = inl.done.clone();
    if u.fmt && !d.attrs.contains_key("trusted") {
        let mut fm = fmt::Fmt::new();
        fm.visit_block_mut(&mut stripped);
        if let Some(e) = fm.errors.first() {
            return Err(e.clone());
        }
        r.tags.push("format strings->token calls, ?->obligation".into());
    }
    if u.text && !d.attrs.contains_key("trusted") {
        fmt::Text.visit_block_mut(&mut stripped);
        r.tags.push("range indexing, range contains and += of text->calls".into());
    }
    lets.visit_block(&stripped);
    let ts = rename_kw(norm(stripped.to_token_stream()));
    // signature (wildcard parameters get a name)
    for (k, a) in f.sig.inputs.iter_mut().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            if matches!(&*t.pat, syn::Pat::Wild(_)) {
                let n = quote::format_ident!("__p{}", k);
                t.pat = Box::new(syn::parse_quote!(#n));
            }
        }
    }
    let params: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(pat_ident(&t.pat).map(|x| x.0).unwrap_or_else(|| "__anon".into())),
            _ => None,
        })
        .collect();
    let local: Vec<Subst> =
        d.secs.iter().filter(|(k, _)| k.starts_with("subst ")).map(|(k, _)| {
            let mut t = k[6..].to_string();
            for (i, p) in params.iter().enumerate().rev() {
                t = t.replace(&format!("${i}"), p);
            }
            Subst::parse(&t)
        }).collect();
    let mut hit = false;
    let mut ts = ts;
    for s in local.iter().chain(u.substs.iter()) {
        let mut h = false;
        ts = s.apply(ts, &mut h);
        if h {
            hit = true;
        }
    }
    if hit {
        r.tags.push("token substitution".into());
    }
    let mut block: syn::Block = syn::parse2(ts).map_err(|e| format!("after subst: {e}"))?;
    let mut ol = OptLists(false);
    ol.visit_block_mut(&mut block);
    if ol.0 {
        r.tags.push("iteration over an optional list->oiter".into());
    }
    // a function returning `impl Iterator<Item = T>` becomes one returning the collected items (its closures are pure)
    let mut ret_iter: Option<syn::Type> = None;
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if let syn::Type::ImplTrait(it) = &**t {
            for b in &it.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    if let Some(sg) = tb.path.segments.last() {
                        if sg.ident == "Iterator" {
                            if let syn::PathArguments::AngleBracketed(ab) = &sg.arguments {
                                for g in &ab.args {
                                    if let syn::GenericArgument::AssocType(a) = g {
                                        ret_iter = Some(a.ty.clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // a rule's error iterator (`Self::Errors`) given by an adapter chain: likewise the collected items
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        if t.to_token_stream().to_string().replace(' ', "") == "Self::Errors" || d.attrs.contains_key("retiter") {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last_mut() {
                if let syn::Expr::MethodCall(m) = &*e {
                    if ["map", "filter", "filter_map", "flat_map", "chain", "flatten"].contains(&m.method.to_string().as_str()) {
                        let e2 = e.clone();
                        *e = syn::parse_quote!(itv(#e2.collect()));
                        r.tags.push("returned iterator->collected items".into());
                    }
                }
            }
        }
    }
    if let Some(t) = &ret_iter {
        f.sig.output = syn::parse_quote!(-> ItV<#t>);
        r.tags.push("returned iterator->collected items".into());
        if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last_mut() {
            let e2 = e.clone();
            *e = syn::parse_quote!(itv(#e2.collect()));
        }
    }

    StripAttrs.visit_signature_mut(&mut f.sig);
    let mut cfg = u.cfg.clone();
    for (k, _) in &d.secs {
        if let Some(x) = k.strip_prefix("rtype ") {
            for kv in x.split_whitespace() {
                let (a, b) = kv.split_once('=').unwrap();
                // `var:$2` names a parameter by position
                let a = match a.strip_prefix("var:$").and_then(|n| n.parse::<usize>().ok()).and_then(|n| params.get(n)) {
                    Some(p) => format!("var:{p}"),
                    None => a.to_string(),
                };
                cfg.rtypes.insert(a, kindof(b));
            }
        }
        if let Some(x) = k.strip_prefix("method ") {
            let (a, b) = x.split_once("==>").unwrap();
            cfg.methods.insert(a.trim().to_string(), b.trim().to_string());
        }
        if let Some(x) = k.strip_prefix("collect ") {
            cfg.collects.push(x.to_string());
        }
    }
    let mut lm = LoopMark { stack: vec![], n: 0, infos: vec![] };
    let mut loop_secs: BTreeMap<usize, String> = BTreeMap::new();
    if !stub {
        let mut lw = Lower::new(&cfg);
        lw.visit_block_mut(&mut block);
        r.tags.extend(lw.tags.iter().cloned());
        if !lw.errors.is_empty() {
            return Err(lw.errors.join("; "));
        }
        let mut fc = FindClosures(0);
        fc.visit_block(&block);
        if fc.0 > 0 && !d.attrs.contains_key("closures") {
            return Err(format!("{} closure(s) left after lowering", fc.0));
        }
        if !cfg.etas.is_empty() {
            Eta(&cfg.etas).visit_block_mut(&mut block);
        }
        letref::LetRefs(false).visit_block_mut(&mut block);
        lm.visit_block_mut(&mut block);
        // annotations `loop ~a b !c` are matched by the identifiers a loop uses, `loop K` by position
        let keyed: Vec<&String> = d.secs.iter().map(|(k, _)| k).filter(|k| k.starts_with("loop ")).collect();
        let mut used = vec![false; keyed.len()];
        for (k, info) in lm.infos.iter().enumerate() {
            let mut hit = None;
            for (n, key) in keyed.iter().enumerate() {
                let key = key["loop ".len()..].trim();
                let (star, key) = match key.strip_prefix('*') { Some(x) => (true, x), None => (false, key) };
                if used[n] && !star { continue; }
                let ok = match key.strip_prefix('~') {
                    None => key == k.to_string(),
                    Some(q) => q.split_whitespace().all(|w| match w {
                        "+acc" => info.acc.is_some(),
                        "-acc" => info.acc.is_none(),
                        _ if w.starts_with('#') => true,
                        _ => match w.strip_prefix('!') { Some(w) => !info.own.contains(w), None => info.own.contains(w) },
                    }),
                };
                if ok { hit = Some(n); break; }
            }
            match hit {
                Some(n) => { used[n] = true; loop_secs.insert(k, keyed[n].clone()); }
                None if d.attrs.contains_key("anyloops") => {}
                None => return Err(format!("no annotation for loop {k} of {} (after lowering)", lm.n)),
            }
        }
        for (n, key) in keyed.iter().enumerate() {
            if !used[n] && !key["loop ".len()..].trim().starts_with('*') && !d.attrs.contains_key("anyloops") {
                return Err(format!("no loop for annotation `{key}` ({} loops after lowering)", lm.n));
            }
        }
    }
    let facc: Option<String> = {
        let t = quote::quote!(#block).to_string();
        let w: Vec<&str> = t.split_whitespace().collect();
        w.windows(5).find(|x| x[0] == "let" && x[1] == "mut" && x[3] == "=" && x[4].starts_with("__acc")).map(|x| x[2].to_string())
    };
    let fill = |s: &str, info: Option<&LoopInfo>| -> Result<String, String> {
        let mut o = String::new();
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '$' {
                let mut w = String::new();
                let mut j = i + 1;
                while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                    w.push(b[j]);
                    j += 1;
                }
                let rep = if let Ok(n) = w.parse::<usize>() {
                    params.get(n).cloned().ok_or_else(|| format!("no parameter {n}"))?
                } else if let Some(n) = w.strip_prefix("mut").and_then(|x| x.parse::<usize>().ok()) {
                    lets.muts.get(n).cloned().ok_or_else(|| format!("no mutable local {n}"))?
                } else if w == "let" && j < b.len() && b[j] == '(' {
                    let mut k = j + 1;
                    let mut key = String::new();
                    while b[k] != ')' {
                        key.push(b[k]);
                        k += 1;
                    }
                    j = k + 1;
                    let (key, nth) = match key.split_once('#') {
                        Some((a, n)) => (a.to_string(), n.parse::<usize>().unwrap()),
                        None => (key, 0),
                    };
                    let hits: Vec<String> = lets
                        .lets
                        .iter()
                        .filter(|(_, e)| e.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == key))
                        .map(|x| x.0.clone())
                        .collect();
                    hits.get(nth).cloned().ok_or_else(|| format!("no local initialised from {key}"))?
                } else if w == "it" {
                    info.and_then(|i| i.it.clone()).ok_or("no iterator variable")?
                } else if w == "ix" {
                    // the counter `enumerate` lowers to, declared just before the iterator
                    let it = info.and_then(|i| i.it.clone()).ok_or("no iterator variable")?;
                    let n: usize = it.trim_start_matches("__it").parse().map_err(|_| "no counter")?;
                    format!("__ix{}", n.checked_sub(1).ok_or("no counter")?)
                } else if w == "pos" {
                    // the counter `position` lowers to, declared just after the accumulator
                    let a = info.and_then(|i| i.acc.clone()).ok_or("no accumulator variable")?;
                    let n: usize = a.trim_start_matches("__acc").parse().map_err(|_| "no counter")?;
                    format!("__ix{}", n + 1)
                } else if w == "acc" {
                    info.and_then(|i| i.acc.clone()).ok_or("no accumulator variable")?
                } else if w == "s" || w == "k" || w == "p" {
                    format!("__{w}_{}", info.and_then(|i| i.it.clone()).ok_or("no iterator variable")?)
                } else if let Some((c, n)) = w.split_at_checked(1).and_then(|(c, n)| n.parse::<usize>().ok().filter(|_| ["s", "k", "p"].contains(&c)).map(|n| (c, n))) {
                    format!("__{c}_{}", lm.infos.get(n).and_then(|i| i.it.clone()).ok_or("no iterator variable")?)
                } else if w == "up" || w == "up2" {
                    // the item the enclosing loop is looking at
                    let mut i = info.and_then(|i| i.parent).ok_or("no enclosing loop")?;
                    if w == "up2" { i = lm.infos[i].parent.ok_or("no enclosing loop")?; }
                    let it = lm.infos[i].it.clone().ok_or("no iterator variable")?;
                    format!("__s_{it}[__k_{it} - 1]")
                } else if w == "facc" {
                    // the accumulator a fold's body works on (or the first mutable local)
                    let f = facc.clone();
                    f.or(lets.muts.first().cloned()).ok_or("no fold accumulator")?
                } else if w == "brk" {
                    info.and_then(|i| i.brk.clone()).ok_or("no break-value variable")?
                } else if let Some(n) = w.strip_prefix("it").and_then(|x| x.parse::<usize>().ok()) {
                    lm.infos.get(n).and_then(|i| i.it.clone()).ok_or("no iterator variable")?
                } else if let Some(n) = w.strip_prefix("acc").and_then(|x| x.parse::<usize>().ok()) {
                    lm.infos.get(n).and_then(|i| i.acc.clone()).ok_or("no accumulator variable")?
                } else {
                    format!("${w}")
                };
                // keyword renaming applies to placeholders too
                let rep = if ["int", "nat", "spec", "proof", "exists", "open", "via"].contains(&rep.as_str()) { format!("{rep}_") } else if let Some(x) = rep.strip_prefix("r#") { format!("{x}_") } else { rep };
                o.push_str(&rep);
                i = j;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        Ok(o)
    };
    let get = |k: &str| d.secs.iter().filter(|(a, _)| a == k).map(|x| x.1.clone()).collect::<String>();
    let spec = fill(&get("spec"), None)?;
    let newname = d.attrs.get("as").cloned().unwrap_or(name.clone());
    let newname = match newname.strip_prefix("r#") { Some(x) => format!("{x}_"), None => newname };
    f.sig.ident = quote::format_ident!("{}", newname);
    f.sig.asyncness = None;
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    };
    let mut sig2 = f.sig.clone();
    sig2.output = syn::ReturnType::Default;
    let wh = sig2.generics.where_clause.take().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let tosub = |s: String| -> Result<String, String> {
        let mut ts: TokenStream = norm(rename_kw(s.parse().map_err(|e| format!("{e}"))?));
        let mut h = false;
        for s in local.iter().chain(u.substs.iter()) {
            ts = s.apply(ts, &mut h);
        }
        Ok(ts.to_string())
    };
    let sigs = match d.secs.iter().find(|(k, _)| k.starts_with("sig ")) {
        Some((k, _)) => fill(&k[4..], None)?,
        None => {
            let a = tosub(sig2.to_token_stream().to_string())?;
            let rr = tosub(ret.clone())?;
            let wh = tosub(wh)?;
            if rr.is_empty() {
                format!("{a} {wh}")
            } else {
                format!("{a} -> (r: {rr}) {wh}")
            }
        }
    };
    let header = match d.attrs.get("header") {
        Some(h) => h.clone(),
        None => match (&f.impl_generics, &f.impl_ty) {
            (Some(g), Some(t)) => {
                let g = tosub(g.clone())?;
                let t = tosub(t.clone())?;
                let w = tosub(f.where_.clone().unwrap_or_default())?;
                format!("impl {g} {t} {w}")
            }
            _ => String::new(),
        },
    };
    let trusted = d.attrs.contains_key("trusted");
    r.trusted = trusted;
    let mut attrs = String::new();
    if let Some((k, _)) = d.secs.iter().find(|(k, _)| k.starts_with("attrs ")) {
        attrs.push_str(&k[6..]);
        attrs.push('\n');
    }
    let body = if stub || trusted {
        attrs.push_str("#[verifier::external_body]\n");
        let mut s = String::from("{ unimplemented!() }");
        if sigs.contains("decreases") {
            s.push(' ');
        }
        s
    } else {
        if lm.n > 0 {
            attrs.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        attrs.push_str("#[allow(unused)]\n");
        // start marker / tail marker
        let mut start = fill(&get("at start"), None)?;
        if std::env::var_os("EXTRACT_CANARY").is_some() {
            start = format!("{start}\nproof {{ assert(false); }}");
        }
        let tail = fill(&get("at tail"), None)?;
        block.stmts.insert(0, syn::parse_quote!(__raw_start!();));
        // Verus places no prophecy resolution on the failing edge of a guarded pattern; keeping the
        // mutable parameters live to the end of the body (a contract-free no-op call) avoids that.
        let mut fg = FindGuards(false);
        fg.visit_block(&block);
        if fg.0 && !ret.contains('&') {
            let mutp: Vec<syn::Ident> = f.sig.inputs.iter().filter_map(|a| match a {
                syn::FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                    (syn::Pat::Ident(p), syn::Type::Reference(r)) if r.mutability.is_some() => Some(p.ident.clone()),
                    _ => None,
                },
                syn::FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => Some(proc_macro2::Ident::new("self", proc_macro2::Span::call_site())),
                _ => None,
            }).collect();
            if !mutp.is_empty() {
                if let Some(syn::Stmt::Expr(_, None)) = block.stmts.last() {
                    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.pop() {
                        let t: TokenStream = tosub(ret.clone())?.parse().map_err(|e| format!("{e}"))?;
                        block.stmts.push(if ret.is_empty() { syn::parse_quote!(#e;) } else { syn::parse_quote!(let __ret: #t = #e;) });
                        for p in &mutp { block.stmts.push(syn::parse_quote!(__hold(#p);)); }
                        if !ret.is_empty() { block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__ret), None)); }
                    }
                } else {
                    for p in &mutp { block.stmts.push(syn::parse_quote!(__hold(#p);)); }
                }
            }
        }
        if !tail.trim().is_empty() {
            if let Some(syn::Stmt::Expr(_, None)) = block.stmts.last() {
                if let Some(syn::Stmt::Expr(e, None)) = block.stmts.pop() {
                    block.stmts.push(syn::parse_quote!(let __tail = #e;));
                    block.stmts.push(syn::parse_quote!(__raw_tail!();));
                    block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__tail), None));
                }
            } else {
                block.stmts.push(syn::parse_quote!(__raw_tail!();));
            }
        }
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        map.insert("__raw_start".into(), start);
        map.insert("__raw_tail".into(), tail);
        for k in 0..lm.n {
            let info = &lm.infos[k];
            let key = loop_secs.get(&k).cloned().unwrap_or(format!("loop {k}"));
            let raw = fill(&get(&key), Some(info))?;
            if raw.lines().any(|l| l.trim().starts_with('@')) {
                let it = info.it.clone().ok_or("no iterator variable")?;
                let (inv, pre, step, exit) = loop_dsl(&raw, &it, info.acc.as_deref().unwrap_or("__noacc"))?;
                map.insert(format!("__raw_gpre_{it}"), pre);
                map.insert(format!("__raw_gstep_{it}"), step);
                map.insert(format!("__raw_gexit_{it}"), exit);
                map.insert(format!("__inv_{k}"), inv);
                map.insert(format!("__raw_loop_{k}_start"), fill(&get(&format!("at {key} start")), Some(info))?);
                map.insert(format!("__raw_loop_{k}_end"), fill(&get(&format!("at {key} end")), Some(info))?);
                continue;
            }
            map.insert(format!("__inv_{k}"), fill(&get(&key), Some(info))?);
            map.insert(format!("__raw_loop_{k}_start"), fill(&get(&format!("at {key} start")), Some(info))?);
            map.insert(format!("__raw_loop_{k}_end"), fill(&get(&format!("at {key} end")), Some(info))?);
        }
        emit::emit(block.to_token_stream(), &|n| map.get(n).cloned())
    };
    let pubs = if d.attrs.contains_key("priv") { "" } else { "pub " };
    let s = if header.trim().is_empty() {
        format!("{attrs}{pubs}{sigs}\n{spec}\n{body}")
    } else if d.attrs.contains_key("traitimpl") {
        format!("{header} {{\n{attrs}{sigs}\n{spec}\n{body}\n}}")
    } else {
        format!("{header} {{\n{attrs}{pubs}{sigs}\n{spec}\n{body}\n}}")
    };
    let _ = f.block.span();
    Ok(s)
}
