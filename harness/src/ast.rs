//! The harness's own syntax trees. They share no code with the crates under test.
use std::fmt::Write;

#[derive(Debug, Clone)]
pub enum Val {
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
    Bool(bool),
    Null,
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Var(a), Var(b)) | (Str(a), Str(b)) | (Enum(a), Enum(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
            (Bool(a), Bool(b)) => a == b,
            (Null, Null) => true,
            (List(a), List(b)) => a == b,
            (Obj(a), Obj(b)) => a == b,
            _ => false,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    pub fn base(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            Ty::List(t, _) => t.base(),
        }
    }
    pub fn req(&self) -> bool {
        match self {
            Ty::Named(_, r) | Ty::List(_, r) => *r,
        }
    }
    pub fn with_req(&self, r: bool) -> Ty {
        match self {
            Ty::Named(n, _) => Ty::Named(n.clone(), r),
            Ty::List(t, _) => Ty::List(t.clone(), r),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Ty::Named(n, r) => format!("{n}{}", if *r { "!" } else { "" }),
            Ty::List(t, r) => format!("[{}]{}", t.text(), if *r { "!" } else { "" }),
        }
    }
}
pub type Args = Vec<(String, Val)>;
#[derive(Debug, Clone, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Args,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sel {
    Field(FieldSel),
    Spread { name: String, dirs: Vec<Dir> },
    Inline { cond: Option<String>, dirs: Vec<Dir>, sels: Vec<Sel> },
}
#[derive(Debug, Clone, PartialEq)]
pub struct FieldSel {
    pub alias: Option<String>,
    pub name: String,
    pub args: Args,
    pub dirs: Vec<Dir>,
    pub sels: Option<Vec<Sel>>,
}
impl FieldSel {
    pub fn resp(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}
impl OpKind {
    pub fn text(self) -> &'static str {
        match self {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Op {
    pub implicit: bool,
    pub kind: OpKind,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Frag {
    pub name: String,
    pub cond: String,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Doc {
    pub ops: Vec<Op>,
    pub frags: Vec<Frag>,
}
impl Doc {
    pub fn frag(&self, n: &str) -> Option<&Frag> {
        self.frags.iter().find(|f| f.name == n)
    }
}

// ---------------------------------------------------------------- SDL
#[derive(Debug, Clone, PartialEq)]
pub struct InputVal {
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}
impl InputVal {
    pub fn required(&self) -> bool {
        self.ty.req() && self.default.is_none()
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct FieldDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct EnumVal {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}
#[derive(Debug, Clone, PartialEq)]
pub struct TypeDef {
    pub kind: Kind,
    pub name: String,
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub interfaces: Vec<String>,
    pub fields: Vec<FieldDef>,
    pub members: Vec<String>,
    pub values: Vec<EnumVal>,
    pub inputs: Vec<InputVal>,
}
impl TypeDef {
    pub fn new(kind: Kind, name: &str) -> TypeDef {
        TypeDef {
            kind,
            name: name.into(),
            desc: None,
            dirs: vec![],
            interfaces: vec![],
            fields: vec![],
            members: vec![],
            values: vec![],
            inputs: vec![],
        }
    }
    pub fn field(&self, n: &str) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.name == n)
    }
    pub fn input(&self, n: &str) -> Option<&InputVal> {
        self.inputs.iter().find(|f| f.name == n)
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct DirDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub repeatable: bool,
    pub locs: Vec<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SchemaDef {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub roots: Vec<(OpKind, String)>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Sdl {
    pub schema: Vec<SchemaDef>,
    pub types: Vec<TypeDef>,
    pub dirdefs: Vec<DirDef>,
}

// ---------------------------------------------------------------- printing (own)
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn float_text(f: f64) -> String {
    let s = format!("{f:e}");
    // "1e5", "1.5e-7": valid GraphQL floats as they are
    s
}
impl Val {
    pub fn text(&self) -> String {
        match self {
            Val::Var(v) => format!("${v}"),
            Val::Int(i) => i.to_string(),
            Val::Float(f) => float_text(*f),
            Val::Str(s) => quote(s),
            Val::Bool(b) => b.to_string(),
            Val::Null => "null".into(),
            Val::Enum(e) => e.clone(),
            Val::List(l) => format!("[{}]", l.iter().map(|v| v.text()).collect::<Vec<_>>().join(" , ")),
            Val::Obj(o) => format!(
                "{{ {} }}",
                o.iter().map(|(k, v)| format!("{k} : {}", v.text())).collect::<Vec<_>>().join(" , ")
            ),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Val::Var(_) => "variable",
            Val::Int(_) => "integer",
            Val::Float(_) => "float",
            Val::Str(_) => "string",
            Val::Bool(_) => "boolean",
            Val::Null => "null",
            Val::Enum(_) => "enum",
            Val::List(_) => "list",
            Val::Obj(_) => "object",
        }
    }
}
pub fn args_text(a: &Args) -> String {
    if a.is_empty() {
        return String::new();
    }
    format!(
        "( {} ) ",
        a.iter().map(|(n, v)| format!("{n} : {}", v.text())).collect::<Vec<_>>().join(" , ")
    )
}
pub fn dirs_text(d: &[Dir]) -> String {
    d.iter().map(|d| format!("@ {} {}", d.name, args_text(&d.args))).collect()
}
pub fn sels_text(s: &[Sel]) -> String {
    let mut o = String::from("{ ");
    for s in s {
        match s {
            Sel::Field(f) => {
                if let Some(a) = &f.alias {
                    let _ = write!(o, "{a} : ");
                }
                let _ = write!(o, "{} {}{}", f.name, args_text(&f.args), dirs_text(&f.dirs));
                if let Some(s) = &f.sels {
                    o.push_str(&sels_text(s));
                }
            }
            Sel::Spread { name, dirs } => {
                let _ = write!(o, "... {name} {}", dirs_text(dirs));
            }
            Sel::Inline { cond, dirs, sels } => {
                o.push_str("... ");
                if let Some(c) = cond {
                    let _ = write!(o, "on {c} ");
                }
                o.push_str(&dirs_text(dirs));
                o.push_str(&sels_text(sels));
            }
        }
    }
    o.push_str("} ");
    o
}
impl Op {
    pub fn text(&self) -> String {
        if self.implicit {
            return sels_text(&self.sels);
        }
        let mut o = format!("{} ", self.kind.text());
        if let Some(n) = &self.name {
            let _ = write!(o, "{n} ");
        }
        if !self.vars.is_empty() {
            o.push_str("( ");
            for v in &self.vars {
                let _ = write!(o, "${} : {} ", v.name, v.ty.text());
                if let Some(d) = &v.default {
                    let _ = write!(o, "= {} ", d.text());
                }
                o.push_str(&dirs_text(&v.dirs));
            }
            o.push_str(") ");
        }
        o.push_str(&dirs_text(&self.dirs));
        o.push_str(&sels_text(&self.sels));
        o
    }
}
impl Frag {
    pub fn text(&self) -> String {
        format!("fragment {} on {} {}{}", self.name, self.cond, dirs_text(&self.dirs), sels_text(&self.sels))
    }
}
impl Doc {
    pub fn text(&self) -> String {
        let mut v: Vec<String> = self.ops.iter().map(|o| o.text()).collect();
        v.extend(self.frags.iter().map(|f| f.text()));
        v.join("\n")
    }
}
fn desc_text(d: &Option<String>) -> String {
    match d {
        Some(d) => format!("{} ", quote(d)),
        None => String::new(),
    }
}
impl InputVal {
    pub fn text(&self) -> String {
        let mut o = format!("{}{} : {} ", desc_text(&self.desc), self.name, self.ty.text());
        if let Some(d) = &self.default {
            let _ = write!(o, "= {} ", d.text());
        }
        o.push_str(&dirs_text(&self.dirs));
        o
    }
}
fn inputs_text(a: &[InputVal]) -> String {
    if a.is_empty() {
        return String::new();
    }
    format!("( {}) ", a.iter().map(|i| i.text()).collect::<String>())
}
impl FieldDef {
    pub fn text(&self) -> String {
        format!(
            "{}{} {}: {} {}",
            desc_text(&self.desc),
            self.name,
            inputs_text(&self.args),
            self.ty.text(),
            dirs_text(&self.dirs)
        )
    }
}
impl TypeDef {
    pub fn text(&self) -> String {
        let mut o = desc_text(&self.desc);
        let kw = match self.kind {
            Kind::Scalar => "scalar",
            Kind::Object => "type",
            Kind::Interface => "interface",
            Kind::Union => "union",
            Kind::Enum => "enum",
            Kind::Input => "input",
        };
        let _ = write!(o, "{kw} {} ", self.name);
        if !self.interfaces.is_empty() {
            let _ = write!(o, "implements {} ", self.interfaces.join(" & "));
        }
        o.push_str(&dirs_text(&self.dirs));
        match self.kind {
            Kind::Scalar => {}
            Kind::Object | Kind::Interface => {
                let _ = write!(o, "{{ {}}} ", self.fields.iter().map(|f| f.text()).collect::<String>());
            }
            Kind::Union => {
                let _ = write!(o, "= {} ", self.members.join(" | "));
            }
            Kind::Enum => {
                let _ = write!(
                    o,
                    "{{ {}}} ",
                    self.values
                        .iter()
                        .map(|v| format!("{}{} {}", desc_text(&v.desc), v.name, dirs_text(&v.dirs)))
                        .collect::<String>()
                );
            }
            Kind::Input => {
                let _ = write!(o, "{{ {}}} ", self.inputs.iter().map(|f| f.text()).collect::<String>());
            }
        }
        o
    }
}
impl DirDef {
    pub fn text(&self) -> String {
        format!(
            "{}directive @ {} {}{}on {} ",
            desc_text(&self.desc),
            self.name,
            inputs_text(&self.args),
            if self.repeatable { "repeatable " } else { "" },
            self.locs.join(" | ")
        )
    }
}
impl SchemaDef {
    pub fn text(&self) -> String {
        format!(
            "{}schema {}{{ {}}} ",
            desc_text(&self.desc),
            dirs_text(&self.dirs),
            self.roots.iter().map(|(k, n)| format!("{} : {n} ", k.text())).collect::<String>()
        )
    }
}
impl Sdl {
    pub fn text(&self) -> String {
        let mut v: Vec<String> = self.schema.iter().map(|o| o.text()).collect();
        v.extend(self.dirdefs.iter().map(|f| f.text()));
        v.extend(self.types.iter().map(|f| f.text()));
        v.join("\n")
    }
    pub fn ty(&self, n: &str) -> Option<&TypeDef> {
        self.types.iter().find(|t| t.name == n)
    }
}
