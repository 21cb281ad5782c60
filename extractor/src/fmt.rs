//! `//@fmt` units: what a formatter is given becomes tokens.
//! `write!`/`writeln!`/`format!` with a literal format string become a sequence of calls: one per token of the literal text
//! (white space and commas: `__ws`), and `ARG.fmt(f)` (`ARG.fmt_debug(f)` for `{:?}`) per placeholder.
//! `E?` becomes `__ok(E)` (obligation: E is Ok) and `try_for_each(|x| E)` becomes `for_each(|x| __ok(E))` followed by Ok.
use syn::parse::Parser;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Stmt};

pub struct Fmt {
    pub errors: Vec<String>,
    n: usize,
    /// immutable local variables bound to a choice of literal texts
    texts: std::collections::HashMap<String, Expr>,
}
impl Fmt {
    pub fn new() -> Self {
        Fmt { errors: vec![], n: 0, texts: Default::default() }
    }
}
enum Piece {
    Lit(String),
    Arg(String, bool),
}
fn pieces(s: &str) -> Result<Vec<Piece>, String> {
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') {
            lit.push('{');
            i += 2;
        } else if c[i] == '}' && c.get(i + 1) == Some(&'}') {
            lit.push('}');
            i += 2;
        } else if c[i] == '{' {
            let j = c[i..].iter().position(|x| *x == '}').ok_or("format string")? + i;
            let inner: String = c[i + 1..j].iter().collect();
            let (name, spec) = inner.split_once(':').unwrap_or((&inner, ""));
            if !lit.is_empty() {
                out.push(Piece::Lit(std::mem::take(&mut lit)));
            }
            match spec {
                "" => out.push(Piece::Arg(name.to_string(), false)),
                "?" => out.push(Piece::Arg(name.to_string(), true)),
                _ => return Err(format!("format spec {spec:?}")),
            }
            i = j + 1;
        } else {
            lit.push(c[i]);
            i += 1;
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}
/// calls that emit the tokens of literal text
fn literal(s: &str, f: &Expr) -> Result<Vec<Stmt>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out: Vec<Stmt> = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() || c[i] == ',' {
            while i < c.len() && (c[i].is_whitespace() || c[i] == ',') {
                i += 1;
            }
            out.push(parse_quote!(__ws(#f);));
            continue;
        }
        if c[i].is_ascii_alphabetic() || c[i] == '_' {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[st..i].iter().collect();
            out.push(parse_quote!(__kw(#f, #w);));
            continue;
        }
        if c[i..].starts_with(&['.', '.', '.']) {
            out.push(parse_quote!(__punct(#f, PunctuatorType::Ellipse);));
            i += 3;
            continue;
        }
        if c[i] == '$' {
            out.push(parse_quote!(__dollar(#f);));
            i += 1;
            continue;
        }
        let p = match c[i] {
            '!' => "Bang",
            '(' => "OpenRoundBracket",
            ')' => "CloseRoundBracket",
            ':' => "Colon",
            '=' => "Equals",
            '@' => "At",
            '[' => "OpenSquareBracket",
            ']' => "CloseSquareBracket",
            '{' => "OpenBrace",
            '}' => "CloseBrace",
            '|' => "Pipe",
            '&' => "Ampersand",
            x => return Err(format!("{x:?} in a format literal")),
        };
        let p = quote::format_ident!("{}", p);
        out.push(parse_quote!(__punct(#f, PunctuatorType::#p);));
        i += 1;
    }
    Ok(out)
}
fn lit_str(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => lit_str(e),
            _ => None,
        },
        _ => None,
    }
}
/// a literal text, or a choice between literal texts
fn choice(a: &Expr) -> bool {
    lit_str(a).is_some()
        || match a {
            Expr::If(i) => i.then_branch.stmts.len() == 1
                && lit_str(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() })).is_some()
                && i.else_branch.as_ref().is_some_and(|(_, e)| lit_str(e).is_some()),
            Expr::Match(m) => m.arms.iter().all(|a| lit_str(&a.body).is_some()),
            _ => false,
        }
}
fn show(a: &Expr, dbg: bool, f: &Expr) -> Result<Vec<Stmt>, String> {
    match a {
        Expr::If(i) => {
            let t = lit_str(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }));
            let e = i.else_branch.as_ref().and_then(|(_, e)| lit_str(e));
            if let (Some(t), Some(e)) = (t, e) {
                let (t, e, c) = (literal(&t, f)?, literal(&e, f)?, &i.cond);
                return Ok(parse_quote!(if #c { #(#t)* } else { #(#e)* }));
            }
        }
        Expr::Match(m) => {
            let mut arms: Vec<syn::Arm> = vec![];
            for arm in &m.arms {
                let Some(t) = lit_str(&arm.body) else { break };
                let (p, t) = (&arm.pat, literal(&t, f)?);
                let g = arm.guard.as_ref().map(|(_, g)| quote::quote!(if #g));
                arms.push(parse_quote!(#p #g => { #(#t)* }));
            }
            if arms.len() == m.arms.len() {
                let c = &m.expr;
                return Ok(parse_quote!(match #c { #(#arms)* }));
            }
        }
        _ => {}
    }
    if let Some(s) = lit_str(a) {
        return literal(&s, f);
    }
    Ok(if dbg { parse_quote!(__ok((#a).fmt_debug(#f));) } else { parse_quote!(__ok((#a).fmt(#f));) })
}
impl Fmt {
    fn write(&mut self, args: &[Expr], f: &Expr, nl: bool) -> Result<Vec<Stmt>, String> {
        let mut out: Vec<Stmt> = vec![];
        if let Some(s) = args.first() {
            let s = lit_str(s).ok_or("format string is not a literal")?;
            let mut k = 1;
            for p in pieces(&s)? {
                match p {
                    Piece::Lit(l) => out.extend(literal(&l, f)?),
                    Piece::Arg(n, d) => {
                        let a: Expr = if n.is_empty() {
                            k += 1;
                            args.get(k - 1).cloned().ok_or("format argument missing")?
                        } else if let Ok(ix) = n.parse::<usize>() {
                            args.get(ix + 1).cloned().ok_or("format argument missing")?
                        } else {
                            syn::parse_str(&n).map_err(|e| e.to_string())?
                        };
                        let a = match &a {
                            Expr::Path(p) => p.path.get_ident().and_then(|i| self.texts.get(&i.to_string())).cloned().unwrap_or(a),
                            _ => a,
                        };
                        out.extend(show(&a, d, f)?);
                    }
                }
            }
        }
        if nl {
            out.push(parse_quote!(__ws(#f);));
        }
        Ok(out)
    }
    fn mac(&mut self, m: &syn::Macro) -> Result<Option<Expr>, String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if !matches!(name.as_str(), "write" | "writeln" | "format") {
            return Ok(None);
        }
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let args: Vec<Expr> = p.parse2(m.tokens.clone()).map_err(|e| e.to_string())?.into_iter().collect();
        if name == "format" {
            let id = quote::format_ident!("__f{}", self.n);
            self.n += 1;
            let st = self.write(&args, &parse_quote!(&mut #id), false)?;
            return Ok(Some(parse_quote!({ let mut #id = Formatter::new(); #(#st)* #id.finish() })));
        }
        let f = args[0].clone();
        let st = self.write(&args[1..], &f, name == "writeln")?;
        Ok(Some(parse_quote!({ #(#st)* __fmt_done() })))
    }
}
impl VisitMut for Fmt {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                self.texts.remove(&i.ident.to_string());
                if i.mutability.is_none() && i.by_ref.is_none() && init.diverge.is_none() && choice(&init.expr) {
                    self.texts.insert(i.ident.to_string(), (*init.expr).clone());
                }
            }
        }
        if let Stmt::Macro(m) = s {
            match self.mac(&m.mac) {
                Ok(Some(e)) => *s = Stmt::Expr(e, m.semi_token),
                Ok(None) => {}
                Err(e) => self.errors.push(e),
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac) {
                Ok(Some(x)) => *e = x,
                Ok(None) => {}
                Err(x) => self.errors.push(x),
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "try_for_each" && m.args.len() == 1 {
                let mut ok = true;
                let mut m2 = m.clone();
                match &mut m2.args[0] {
                    Expr::Closure(c) => {
                        let b = &c.body;
                        c.body = parse_quote!(__ok(#b));
                    }
                    _ => ok = false,
                }
                if ok {
                    m2.method = quote::format_ident!("for_each");
                    *e = parse_quote!({ #m2; __fmt_done() });
                }
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Add(_)) {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(__plus(#l, #r));
            }
        }
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(__ok(#x));
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// `//@text`: `e[a..b]` -> `(*__rng(&e, a, b))`, `(a..=b).contains(&x)` -> comparisons, `e += x` (x no number) -> `__add_to(&mut e, x)`
pub struct Text;
fn number(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Float(_)))
}
impl VisitMut for Text {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match &*e {
            Expr::Index(i) => match &*i.index {
                Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                    let b = &i.expr;
                    match (&r.start, &r.end) {
                        (Some(x), Some(y)) => Some(parse_quote!((*__rng(&#b, #x, #y)))),
                        (Some(x), None) => Some(parse_quote!((*__rng_from(&#b, #x)))),
                        (None, Some(y)) => Some(parse_quote!((*__rng(&#b, 0, #y)))),
                        (None, None) => Some(parse_quote!((*__rng_from(&#b, 0)))),
                    }
                }
                _ => None,
            },
            // `while let`: the verifier takes no `ensures` on it
            Expr::While(w) => match &*w.cond {
                Expr::Let(l) => {
                    let (p, x, b, la) = (&l.pat, &l.expr, &w.body, &w.label);
                    Some(parse_quote!(#la loop { match #x { #p => #b, _ => { break; } } }))
                }
                _ => None,
            },
            Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && !number(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(__add_to(&mut #l, #r)))
            }
            Expr::MethodCall(m) if m.method == "contains" && m.args.len() == 1 => {
                let mut rcv: &Expr = &m.receiver;
                while let Expr::Paren(p) = rcv {
                    rcv = &p.expr;
                }
                match rcv {
                    Expr::Range(r) => match (&r.start, &r.end) {
                        (Some(x), Some(y)) => {
                            let a = &m.args[0];
                            Some(if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { parse_quote!({ let __v = *#a; #x <= __v && __v < #y }) } else { parse_quote!({ let __v = *#a; #x <= __v && __v <= #y }) })
                        }
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
