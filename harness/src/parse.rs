//! An independent recursive-descent parser over the independent lexer's tokens.
use crate::ast::*;
use crate::lex::{Tok, T};

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
}
type R<X> = Result<X, usize>;
pub const LOCATIONS: &[&str] = &[
    "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT",
    "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE",
    "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
];

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i).map(|t| &t.t)
    }
    fn peek_at(&self, n: usize) -> Option<&'a T> {
        self.t.get(self.i + n).map(|t| &t.t)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }
    fn is_name(&self, n: &str) -> bool {
        matches!(self.peek(), Some(T::Name(m)) if m == n)
    }
    pub fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    pub fn name(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Name(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            _ => Err(self.i),
        }
    }
    fn kw(&mut self, k: &str) -> R<()> {
        if self.is_name(k) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn opkind(s: &str) -> Option<OpKind> {
        match s {
            "query" => Some(OpKind::Query),
            "mutation" => Some(OpKind::Mutation),
            "subscription" => Some(OpKind::Subscription),
            _ => None,
        }
    }
    pub fn value(&mut self, cst: bool) -> R<Val> {
        let v = match self.peek() {
            Some(T::Var(v)) if !cst => Val::Var(v.clone()),
            Some(T::Int(i)) => Val::Int(*i),
            Some(T::Float(f)) => Val::Float(*f),
            Some(T::Str(s)) => Val::Str(s.clone()),
            Some(T::Name(n)) => match n.as_str() {
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                "null" => Val::Null,
                _ => Val::Enum(n.clone()),
            },
            Some(T::P("[")) => {
                self.i += 1;
                let mut l = vec![];
                while !self.eat("]") {
                    l.push(self.value(cst)?);
                }
                return Ok(Val::List(l));
            }
            Some(T::P("{")) => {
                self.i += 1;
                let mut l = vec![];
                while !self.eat("}") {
                    let n = self.name()?;
                    self.need(":")?;
                    l.push((n, self.value(cst)?));
                }
                return Ok(Val::Obj(l));
            }
            _ => return Err(self.i),
        };
        self.i += 1;
        Ok(v)
    }
    pub fn ty(&mut self) -> R<Ty> {
        if self.eat("[") {
            let t = self.ty()?;
            self.need("]")?;
            let r = self.eat("!");
            Ok(Ty::List(Box::new(t), r))
        } else {
            let n = self.name()?;
            let r = self.eat("!");
            Ok(Ty::Named(n, r))
        }
    }
    pub fn args(&mut self, cst: bool) -> R<Args> {
        let mut out = vec![];
        if self.eat("(") {
            loop {
                let n = self.name()?;
                self.need(":")?;
                out.push((n, self.value(cst)?));
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(out)
    }
    pub fn dirs(&mut self, cst: bool) -> R<Vec<Dir>> {
        let mut out = vec![];
        while self.eat("@") {
            let name = self.name()?;
            out.push(Dir { name, args: self.args(cst)? });
        }
        Ok(out)
    }
    pub fn sels(&mut self) -> R<Vec<Sel>> {
        self.need("{")?;
        let mut out = vec![];
        loop {
            out.push(self.sel()?);
            if self.eat("}") {
                return Ok(out);
            }
        }
    }
    pub fn sel(&mut self) -> R<Sel> {
        if self.eat("...") {
            match self.peek() {
                Some(T::Name(n)) if n != "on" => {
                    self.i += 1;
                    return Ok(Sel::Spread { name: n.clone(), dirs: self.dirs(false)? });
                }
                _ => {}
            }
            let cond = if self.is_name("on") {
                self.i += 1;
                Some(self.name()?)
            } else {
                None
            };
            let dirs = self.dirs(false)?;
            return Ok(Sel::Inline { cond, dirs, sels: self.sels()? });
        }
        let first = self.name()?;
        let (alias, name) = if self.eat(":") { (Some(first), self.name()?) } else { (None, first) };
        let args = self.args(false)?;
        let dirs = self.dirs(false)?;
        let sels = if self.is("{") { Some(self.sels()?) } else { None };
        Ok(Sel::Field(FieldSel { alias, name, args, dirs, sels }))
    }
    pub fn doc(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        if self.t.is_empty() {
            return Err(0);
        }
        while self.i < self.t.len() {
            if self.is("{") {
                d.ops.push(Op {
                    implicit: true,
                    kind: OpKind::Query,
                    name: None,
                    vars: vec![],
                    dirs: vec![],
                    sels: self.sels()?,
                });
                continue;
            }
            let at = self.i;
            let n = self.name()?;
            if n == "fragment" {
                if self.is_name("on") {
                    return Err(self.i);
                }
                let name = self.name()?;
                self.kw("on")?;
                let cond = self.name()?;
                let dirs = self.dirs(false)?;
                d.frags.push(Frag { name, cond, dirs, sels: self.sels()? });
                continue;
            }
            let kind = Self::opkind(&n).ok_or(at)?;
            let name = match self.peek() {
                Some(T::Name(n)) => {
                    self.i += 1;
                    Some(n.clone())
                }
                _ => None,
            };
            let mut vars = vec![];
            if self.eat("(") {
                loop {
                    let name = match self.peek() {
                        Some(T::Var(v)) => v.clone(),
                        _ => return Err(self.i),
                    };
                    self.i += 1;
                    self.need(":")?;
                    let ty = self.ty()?;
                    let default = if self.eat("=") { Some(self.value(true)?) } else { None };
                    let dirs = self.dirs(true)?;
                    vars.push(VarDef { name, ty, default, dirs });
                    if self.eat(")") {
                        break;
                    }
                }
            }
            let dirs = self.dirs(false)?;
            d.ops.push(Op { implicit: false, kind, name, vars, dirs, sels: self.sels()? });
        }
        Ok(d)
    }

    // ------------------------------------------------------------ SDL
    fn desc(&mut self) -> Option<String> {
        if let Some(T::Str(s)) = self.peek() {
            self.i += 1;
            Some(s.clone())
        } else {
            None
        }
    }
    fn input_val(&mut self) -> R<InputVal> {
        let desc = self.desc();
        let name = self.name()?;
        self.need(":")?;
        let ty = self.ty()?;
        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
        Ok(InputVal { desc, name, ty, default, dirs: self.dirs(true)? })
    }
    fn arg_defs(&mut self) -> R<Vec<InputVal>> {
        let mut v = vec![];
        if self.eat("(") {
            loop {
                v.push(self.input_val()?);
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(v)
    }
    fn braced<X>(&mut self, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
        self.need("{")?;
        let mut v = vec![];
        loop {
            v.push(f(self)?);
            if self.eat("}") {
                return Ok(v);
            }
        }
    }
    fn sep_names(&mut self, sep: &str) -> R<Vec<String>> {
        self.eat(sep);
        let mut v = vec![self.name()?];
        while self.eat(sep) {
            v.push(self.name()?);
        }
        Ok(v)
    }
    /// Bodies (`{..}` of object, interface, enum and input types, `= ..` of unions) are required,
    /// as the type system requires at least one field, value or member.
    pub fn sdl(&mut self) -> R<Sdl> {
        let mut d = Sdl::default();
        if self.t.is_empty() {
            return Err(0);
        }
        while self.i < self.t.len() {
            let _ = self.peek_at(1);
            let desc = self.desc();
            let at = self.i;
            let k = self.name()?;
            match k.as_str() {
                "schema" => {
                    let dirs = self.dirs(true)?;
                    let roots = self.braced(|p| {
                        let at = p.i;
                        let k = P::opkind(&p.name()?).ok_or(at)?;
                        p.need(":")?;
                        Ok((k, p.name()?))
                    })?;
                    d.schema.push(SchemaDef { desc, dirs, roots });
                }
                "directive" => {
                    self.need("@")?;
                    let name = self.name()?;
                    let args = self.arg_defs()?;
                    let repeatable = if self.is_name("repeatable") {
                        self.i += 1;
                        true
                    } else {
                        false
                    };
                    self.kw("on")?;
                    self.eat("|");
                    let mut locs = vec![];
                    loop {
                        let at = self.i;
                        let l = self.name()?;
                        if !LOCATIONS.contains(&l.as_str()) {
                            return Err(at);
                        }
                        locs.push(l);
                        if !self.eat("|") {
                            break;
                        }
                    }
                    d.dirdefs.push(DirDef { desc, name, args, repeatable, locs });
                }
                "scalar" => {
                    let name = self.name()?;
                    let mut t = TypeDef::new(Kind::Scalar, &name);
                    t.desc = desc;
                    t.dirs = self.dirs(true)?;
                    d.types.push(t);
                }
                "type" | "interface" => {
                    let name = self.name()?;
                    let mut t =
                        TypeDef::new(if k == "type" { Kind::Object } else { Kind::Interface }, &name);
                    t.desc = desc;
                    if self.is_name("implements") {
                        self.i += 1;
                        t.interfaces = self.sep_names("&")?;
                    }
                    t.dirs = self.dirs(true)?;
                    t.fields = self.braced(|p| {
                        let desc = p.desc();
                        let name = p.name()?;
                        let args = p.arg_defs()?;
                        p.need(":")?;
                        let ty = p.ty()?;
                        Ok(FieldDef { desc, name, args, ty, dirs: p.dirs(true)? })
                    })?;
                    d.types.push(t);
                }
                "union" => {
                    let name = self.name()?;
                    let mut t = TypeDef::new(Kind::Union, &name);
                    t.desc = desc;
                    t.dirs = self.dirs(true)?;
                    self.need("=")?;
                    t.members = self.sep_names("|")?;
                    d.types.push(t);
                }
                "enum" => {
                    let name = self.name()?;
                    let mut t = TypeDef::new(Kind::Enum, &name);
                    t.desc = desc;
                    t.dirs = self.dirs(true)?;
                    t.values = self.braced(|p| {
                        let desc = p.desc();
                        let at = p.i;
                        let name = p.name()?;
                        if matches!(name.as_str(), "true" | "false" | "null") {
                            return Err(at);
                        }
                        Ok(EnumVal { desc, name, dirs: p.dirs(true)? })
                    })?;
                    d.types.push(t);
                }
                "input" => {
                    let name = self.name()?;
                    let mut t = TypeDef::new(Kind::Input, &name);
                    t.desc = desc;
                    t.dirs = self.dirs(true)?;
                    t.inputs = self.braced(|p| p.input_val())?;
                    d.types.push(t);
                }
                _ => return Err(at),
            }
        }
        Ok(d)
    }
}
pub fn parse_doc(src: &str) -> Result<Doc, String> {
    let t = crate::lex::lex(src).map_err(|e| format!("lexical error at byte {e}"))?;
    P { t: &t, i: 0 }.doc().map_err(|i| format!("syntax error at token {i}"))
}
pub fn parse_sdl(src: &str) -> Result<Sdl, String> {
    let t = crate::lex::lex(src).map_err(|e| format!("lexical error at byte {e}"))?;
    P { t: &t, i: 0 }.sdl().map_err(|i| format!("syntax error at token {i}"))
}
