//! Random schemas, documents, values and texts.
use crate::ast::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability p per cent
    pub fn pc(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}

pub fn weird_string(r: &mut Rng) -> String {
    const PIECES: &[&str] = &[
        "a", "b", "xy", " ", "  ", "\t", "\n", "\n\n", "\r", "\r\n", "\"", "\"\"\"", "\\", "\\\"", "/", "é", "🔥",
        "\u{8}", "\u{c}", "\u{feff}", "#", "{", "$a", "\u{1}", "\u{7f}", "\u{2028}", "end\\",
    ];
    let n = r.below(6);
    (0..n).map(|_| *r.pick(PIECES)).collect()
}
pub fn plain_string(r: &mut Rng) -> String {
    ["", "x", "hello", "a b", "1", "V0", "true"][r.below(7)].to_string()
}
pub fn int(r: &mut Rng) -> i32 {
    *r.pick(&[0, 1, -1, 7, 42, i32::MAX, i32::MIN, 2, 3])
}
pub fn float(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, 1.5, -2.25, 1e10, 1e-10, 3.14, 1e300, 5e-324, 0.1, 123456789.125, 1e21, 1e-7, 2.00000000001, 1e16])
}

// ------------------------------------------------------------------ schemas
pub struct SchemaCfg {
    pub descs: bool,
    pub weird_descs: bool,
    pub dirs: bool,
    pub oneof: bool,
    pub explicit_roots: bool,
}
impl Default for SchemaCfg {
    fn default() -> Self {
        SchemaCfg { descs: false, weird_descs: false, dirs: false, oneof: true, explicit_roots: true }
    }
}
fn wrap(r: &mut Rng, n: &str) -> Ty {
    match r.below(9) {
        0 | 1 | 2 => Ty::Named(n.into(), false),
        3 | 4 => Ty::Named(n.into(), true),
        5 => Ty::List(Box::new(Ty::Named(n.into(), r.pc(50))), false),
        6 => Ty::List(Box::new(Ty::Named(n.into(), r.pc(50))), true),
        7 => Ty::List(Box::new(Ty::List(Box::new(Ty::Named(n.into(), r.pc(50))), r.pc(50))), r.pc(50)),
        _ => Ty::Named(n.into(), false),
    }
}
fn desc(r: &mut Rng, c: &SchemaCfg) -> Option<String> {
    if !c.descs || !r.pc(35) {
        return None;
    }
    Some(if c.weird_descs { weird_string(r) } else { plain_string(r) + " text" })
}
pub const BUILTIN: &[&str] = &["Int", "Float", "String", "Boolean", "ID"];

pub fn lookup<'a>(s: &'a Sdl, n: &str) -> Option<&'a TypeDef> {
    s.types.iter().find(|t| t.name == n)
}

/// A value of the type, mostly valid; `bad` is the percentage of deliberate deviations at each node.
pub fn value_of(r: &mut Rng, s: &Sdl, t: &Ty, depth: usize, bad: usize) -> Val {
    if bad > 0 && r.pc(bad) {
        return any_const(r, 2);
    }
    if !t.req() && r.pc(12) {
        return Val::Null;
    }
    match t {
        Ty::List(i, _) => {
            if r.pc(20) {
                return value_of(r, s, &i.with_req(true), depth, bad);
            }
            let n = if depth == 0 { 0 } else { r.below(3) };
            Val::List((0..n).map(|_| value_of(r, s, i, depth.saturating_sub(1), bad)).collect())
        }
        Ty::Named(n, _) => match n.as_str() {
            "Int" => Val::Int(int(r)),
            "Float" => {
                if r.pc(40) {
                    Val::Int(int(r))
                } else {
                    Val::Float(float(r))
                }
            }
            "String" => Val::Str(plain_string(r)),
            "Boolean" => Val::Bool(r.pc(50)),
            "ID" => {
                if r.pc(50) {
                    Val::Int(int(r))
                } else {
                    Val::Str(plain_string(r))
                }
            }
            _ => match lookup(s, n) {
                None => Val::Null,
                Some(td) => match td.kind {
                    Kind::Scalar => any_const(r, 2),
                    Kind::Enum => Val::Enum(r.pick(&td.values).name.clone()),
                    Kind::Input => {
                        let td = td.clone();
                        if td.dirs.iter().any(|d| d.name == "oneOf") {
                            let f = r.pick(&td.inputs).clone();
                            let v = value_of(r, s, &f.ty.with_req(true), depth.saturating_sub(1), bad);
                            let mut o = vec![(f.name.clone(), v)];
                            if r.pc(bad) {
                                let f = r.pick(&td.inputs).clone();
                                o.push((f.name.clone(), value_of(r, s, &f.ty, depth.saturating_sub(1), bad)));
                            }
                            return Val::Obj(o);
                        }
                        let mut o = vec![];
                        for f in &td.inputs {
                            let need = f.required();
                            if (need && !r.pc(bad)) || (!need && depth > 0 && r.pc(45)) {
                                o.push((f.name.clone(), value_of(r, s, &f.ty, depth.saturating_sub(1), bad)));
                            }
                        }
                        if r.pc(bad) {
                            let n = ["f0", "f1", "zz", "f2"][r.below(4)].to_string();
                            o.push((n, any_const(r, 1)));
                        }
                        if o.len() > 1 && r.pc(30) {
                            let i = r.below(o.len());
                            let x = o.remove(i);
                            o.push(x);
                        }
                        Val::Obj(o)
                    }
                    _ => Val::Null,
                },
            },
        },
    }
}
pub fn any_const(r: &mut Rng, depth: usize) -> Val {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => Val::Int(int(r)),
        1 => Val::Float(float(r)),
        2 => Val::Str(plain_string(r)),
        3 => Val::Bool(r.pc(50)),
        4 => Val::Null,
        5 => Val::Enum(["V0", "V1", "NOPE", "f0"][r.below(4)].to_string()),
        6 => Val::Str("V0".into()),
        7 => Val::List((0..r.below(3)).map(|_| any_const(r, depth - 1)).collect()),
        _ => Val::Obj(
            (0..r.below(3)).map(|_| (["f0", "f1", "zz"][r.below(3)].to_string(), any_const(r, depth - 1))).collect(),
        ),
    }
}

fn input_val(r: &mut Rng, s: &Sdl, c: &SchemaCfg, name: String, pool: &[String], loc: &str) -> InputVal {
    let n = r.pick(pool).clone();
    let ty = wrap(r, &n);
    let default = if r.pc(25) { Some(value_of(r, s, &ty, 1, 0)) } else { None };
    let mut dirs = app_dirs(r, s, c, loc);
    if r.pc(8) && (default.is_some() || !ty.req()) {
        dirs.push(deprecated(r));
    }
    InputVal { desc: desc(r, c), name, ty, default, dirs }
}
fn deprecated(r: &mut Rng) -> Dir {
    Dir {
        name: "deprecated".into(),
        args: if r.pc(60) { vec![("reason".into(), Val::Str(format!("because {}", r.below(3))))] } else { vec![] },
    }
}
/// Applied directives at a type-system location, valid.
fn app_dirs(r: &mut Rng, s: &Sdl, c: &SchemaCfg, loc: &str) -> Vec<Dir> {
    let mut v: Vec<Dir> = vec![];
    if !c.dirs {
        return v;
    }
    for d in &s.dirdefs {
        if d.locs.iter().any(|l| l == loc) && r.pc(18) {
            let n = if d.repeatable && r.pc(30) { 2 } else { 1 };
            for _ in 0..n {
                let args = dir_args(r, s, d);
                v.push(Dir { name: d.name.clone(), args });
            }
        }
    }
    v
}
fn dir_args(r: &mut Rng, s: &Sdl, d: &DirDef) -> Args {
    let mut a = vec![];
    for i in &d.args {
        if i.required() || r.pc(50) {
            a.push((i.name.clone(), value_of(r, s, &i.ty, 1, 0)));
        }
    }
    a
}

pub fn schema(r: &mut Rng, c: &SchemaCfg) -> Sdl {
    let mut s = Sdl::default();
    // enums and scalars first: default values need them
    for i in 0..r.range(1, 2) {
        let mut t = TypeDef::new(Kind::Enum, &format!("E{i}"));
        t.desc = desc(r, c);
        for k in 0..r.range(1, 4) {
            let mut dirs = vec![];
            if r.pc(15) {
                dirs.push(deprecated(r));
            }
            t.values.push(EnumVal { desc: desc(r, c), name: format!("V{k}"), dirs });
        }
        s.types.push(t);
    }
    for i in 0..r.below(3) {
        let mut t = TypeDef::new(Kind::Scalar, &format!("S{i}"));
        t.desc = desc(r, c);
        if r.pc(20) {
            t.dirs.push(Dir { name: "specifiedBy".into(), args: vec![("url".into(), Val::Str("http://x".into()))] });
        }
        s.types.push(t);
    }
    let mut leaf: Vec<String> = BUILTIN.iter().map(|b| b.to_string()).collect();
    leaf.extend(s.types.iter().map(|t| t.name.clone()));
    // directive definitions (arguments of leaf types only)
    let ndir = r.below(4);
    for i in 0..ndir {
        let mut locs: Vec<String> = vec![];
        for l in crate::parse::LOCATIONS {
            if r.pc(30) {
                locs.push(l.to_string());
            }
        }
        if locs.is_empty() {
            locs.push("FIELD".into());
        }
        if r.pc(20) {
            locs.reverse();
        }
        let args = (0..r.below(3))
            .map(|k| {
                let plain = SchemaCfg { descs: c.descs, weird_descs: c.weird_descs, dirs: false, oneof: false, explicit_roots: false };
                input_val(r, &s, &plain, format!("a{k}"), &leaf, "ARGUMENT_DEFINITION")
            })
            .collect();
        let d = DirDef { desc: desc(r, c), name: format!("d{i}"), args, repeatable: r.pc(40), locs };
        s.dirdefs.push(d);
    }
    // attach directives to enums/scalars now
    let snap = s.clone();
    for t in &mut s.types {
        let loc = if t.kind == Kind::Enum { "ENUM" } else { "SCALAR" };
        t.dirs.extend(app_dirs(r, &snap, c, loc));
        for v in &mut t.values {
            v.dirs.extend(app_dirs(r, &snap, c, "ENUM_VALUE"));
        }
    }
    // input objects
    let ninp = r.range(1, 3);
    let mut ipool = leaf.clone();
    for i in 0..ninp {
        let mut t = TypeDef::new(Kind::Input, &format!("I{i}"));
        t.desc = desc(r, c);
        let oneof = c.oneof && r.pc(20);
        t.dirs = app_dirs(r, &s, c, "INPUT_OBJECT");
        if oneof {
            t.dirs.push(Dir { name: "oneOf".into(), args: vec![] });
        }
        for k in 0..r.range(1, 4) {
            let mut f = input_val(r, &s, c, format!("f{k}"), &ipool, "INPUT_FIELD_DEFINITION");
            if oneof {
                f.ty = f.ty.with_req(false);
                f.default = None;
            }
            t.inputs.push(f);
        }
        if r.pc(25) {
            // a nullable self reference
            let ty = if r.pc(50) {
                Ty::Named(t.name.clone(), false)
            } else {
                Ty::List(Box::new(Ty::Named(t.name.clone(), r.pc(50))), !oneof && r.pc(40))
            };
            t.inputs.push(InputVal { desc: None, name: "self".into(), ty, default: None, dirs: vec![] });
        }
        ipool.push(t.name.clone());
        s.types.push(t);
    }
    // output types
    let nint = r.below(4);
    let nobj = r.range(2, 4);
    let nuni = r.below(3);
    let mut onames: Vec<String> = (0..nobj).map(|i| format!("O{i}")).collect();
    let explicit = c.explicit_roots && r.pc(35);
    let (q, m, sub) = if explicit { ("Root", "Mut", "Subs") } else { ("Query", "Mutation", "Subscription") };
    onames.push(q.into());
    let has_mut = r.pc(40);
    let has_sub = r.pc(40);
    if has_mut {
        onames.push(m.into());
    }
    if has_sub {
        onames.push(sub.into());
    }
    let inames: Vec<String> = (0..nint).map(|i| format!("N{i}")).collect();
    let unames: Vec<String> = (0..nuni).map(|i| format!("U{i}")).collect();
    let mut opool = leaf.clone();
    opool.extend(onames.iter().take(nobj).cloned());
    opool.extend(onames.iter().take(nobj).cloned());
    opool.extend(inames.iter().cloned());
    opool.extend(inames.iter().cloned());
    opool.extend(unames.iter().cloned());
    opool.extend(unames.iter().cloned());
    let mk_field = |r: &mut Rng, s: &Sdl, name: String| -> FieldDef {
        let n = r.pick(&opool).clone();
        let args = (0..if r.pc(50) { 0 } else { r.range(1, 3) })
            .map(|k| input_val(r, s, c, format!("a{k}"), &ipool, "ARGUMENT_DEFINITION"))
            .collect();
        let mut dirs = app_dirs(r, s, c, "FIELD_DEFINITION");
        if r.pc(8) {
            dirs.push(deprecated(r));
        }
        FieldDef { desc: desc(r, c), name, args, ty: wrap(r, &n), dirs }
    };
    let mut ifs: Vec<TypeDef> = vec![];
    for (i, n) in inames.iter().enumerate() {
        let mut t = TypeDef::new(Kind::Interface, n);
        t.desc = desc(r, c);
        t.dirs = app_dirs(r, &s, c, "INTERFACE");
        // an interface may implement one earlier interface
        if i > 0 && r.pc(35) {
            let p = ifs[r.below(i)].clone();
            t.interfaces = p.interfaces.clone();
            t.interfaces.push(p.name.clone());
            t.fields = p.fields.clone();
        }
        for k in 0..r.range(1, 2) {
            let nm = format!("f{}", i + k);
            if t.field(&nm).is_none() {
                let f = mk_field(r, &s, nm);
                t.fields.push(f);
            }
        }
        ifs.push(t);
    }
    let mut objs = vec![];
    for n in &onames {
        let mut t = TypeDef::new(Kind::Object, n);
        t.desc = desc(r, c);
        t.dirs = app_dirs(r, &s, c, "OBJECT");
        for i in &ifs {
            if r.pc(40) {
                // implement it and its parents, unless field definitions clash
                let mut all: Vec<&TypeDef> =
                    i.interfaces.iter().filter_map(|x| ifs.iter().find(|y| &y.name == x)).collect();
                all.push(i);
                let clash = all
                    .iter()
                    .any(|i| i.fields.iter().any(|f| t.field(&f.name).map_or(false, |g| g.ty != f.ty || g.args != f.args)));
                if clash {
                    continue;
                }
                for i in all {
                    if t.interfaces.contains(&i.name) {
                        continue;
                    }
                    t.interfaces.push(i.name.clone());
                    for f in &i.fields {
                        if t.field(&f.name).is_none() {
                            t.fields.push(f.clone());
                        }
                    }
                }
            }
        }
        let want = r.range(1, 4);
        for k in 0..want {
            let nm = format!("f{k}");
            if t.field(&nm).is_none() {
                let f = mk_field(r, &s, nm);
                t.fields.push(f);
            }
        }
        objs.push(t);
    }
    s.types.extend(ifs);
    s.types.extend(objs);
    for n in unames {
        let mut t = TypeDef::new(Kind::Union, &n);
        t.desc = desc(r, c);
        t.dirs = app_dirs(r, &s, c, "UNION");
        for o in onames.iter().take(nobj) {
            if r.pc(55) {
                t.members.push(o.clone());
            }
        }
        if t.members.is_empty() {
            t.members.push(onames[0].clone());
        }
        s.types.push(t);
    }
    if explicit || (c.explicit_roots && r.pc(15)) {
        let mut roots = vec![(OpKind::Query, q.to_string())];
        if has_mut {
            roots.push((OpKind::Mutation, m.to_string()));
        }
        if has_sub {
            roots.push((OpKind::Subscription, sub.to_string()));
        }
        let d = SchemaDef { desc: desc(r, c), dirs: app_dirs(r, &s, c, "SCHEMA"), roots };
        s.schema.push(d);
    }
    if r.pc(30) {
        let n = s.types.len();
        for i in (1..n).rev() {
            let j = r.below(i + 1);
            s.types.swap(i, j);
        }
    }
    s
}

// ------------------------------------------------------------------ documents
pub struct DocGen<'a> {
    pub r: &'a mut Rng,
    pub s: &'a Sdl,
    /// percentage of deliberate deviations at each decision
    pub bad: usize,
    /// percentage of argument positions filled with variables
    pub varpc: usize,
    pub dirpc: usize,
    pub cycles: bool,
    pub deep_dups: bool,
    pub vars: Vec<(String, Ty)>,
    pub fragnames: Vec<String>,
    pub frag_conds: Vec<String>,
}
pub fn root_of(s: &Sdl, k: OpKind) -> Option<String> {
    if let Some(d) = s.schema.first() {
        d.roots.iter().find(|(x, _)| *x == k).map(|(_, n)| n.clone())
    } else {
        let n = match k {
            OpKind::Query => "Query",
            OpKind::Mutation => "Mutation",
            OpKind::Subscription => "Subscription",
        };
        s.ty(n).map(|_| n.to_string())
    }
}
pub fn possible(s: &Sdl, n: &str) -> Vec<String> {
    match s.ty(n) {
        Some(t) => match t.kind {
            Kind::Object => vec![n.to_string()],
            Kind::Union => t.members.clone(),
            Kind::Interface => s
                .types
                .iter()
                .filter(|o| o.kind == Kind::Object && o.interfaces.iter().any(|i| i == n))
                .map(|o| o.name.clone())
                .collect(),
            _ => vec![],
        },
        None => vec![],
    }
}
impl<'a> DocGen<'a> {
    pub fn new(r: &'a mut Rng, s: &'a Sdl) -> Self {
        DocGen {
            r,
            s,
            bad: 0,
            varpc: 20,
            dirpc: 12,
            cycles: false,
            deep_dups: true,
            vars: vec![],
            fragnames: vec![],
            frag_conds: vec![],
        }
    }
    fn composites(&self) -> Vec<String> {
        self.s
            .types
            .iter()
            .filter(|t| matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union))
            .map(|t| t.name.clone())
            .collect()
    }
    fn arg_value(&mut self, t: &Ty, depth: usize) -> Val {
        if self.r.pc(self.varpc) {
            // reuse or declare a variable
            if !self.vars.is_empty() && self.r.pc(45) {
                let fit: Vec<String> = self.vars.iter().filter(|(_, x)| x == t).map(|x| x.0.clone()).collect();
                if !fit.is_empty() {
                    return Val::Var(self.r.pick(&fit).clone());
                }
                if self.r.pc(self.bad * 2) {
                    return Val::Var(self.r.pick(&self.vars).0.clone());
                }
            }
            let n = format!("v{}", self.vars.len());
            let ty = if self.r.pc(self.bad) {
                let names: Vec<String> = BUILTIN
                    .iter()
                    .map(|b| b.to_string())
                    .chain(self.s.types.iter().map(|t| t.name.clone()))
                    .chain(std::iter::once("Zzz".to_string()))
                    .collect();
                let b = self.r.pick(&names).clone();
                wrap(self.r, &b)
            } else {
                match self.r.below(6) {
                    0 => t.with_req(true),
                    1 => t.with_req(!t.req()),
                    2 if self.r.pc(self.bad + 10) => match t {
                        Ty::List(i, _) => (**i).clone(),
                        t => Ty::List(Box::new(t.clone()), false),
                    },
                    3 if self.r.pc(self.bad + 10) => match t {
                        Ty::List(i, r) => Ty::List(Box::new(i.with_req(!i.req())), *r),
                        t => t.clone(),
                    },
                    _ => t.clone(),
                }
            };
            self.vars.push((n.clone(), ty));
            return Val::Var(n);
        }
        if self.r.pc(self.bad) {
            return any_const(self.r, 1);
        }
        if !t.req() && self.r.pc(8) {
            return Val::Null;
        }
        match t {
            Ty::List(i, _) => {
                if self.r.pc(20) {
                    return self.arg_value(&i.with_req(true), depth);
                }
                let n = if depth == 0 { 0 } else { self.r.below(3) };
                Val::List((0..n).map(|_| self.arg_value(i, depth.saturating_sub(1))).collect())
            }
            Ty::Named(n, _) => match self.s.ty(n) {
                Some(td) if td.kind == Kind::Input && !td.dirs.iter().any(|d| d.name == "oneOf") => {
                    let mut o = vec![];
                    let td = td.clone();
                    for f in &td.inputs {
                        let need = f.required();
                        if (need && !self.r.pc(self.bad)) || (!need && depth > 0 && self.r.pc(45)) {
                            o.push((f.name.clone(), self.arg_value(&f.ty, depth.saturating_sub(1))));
                        }
                    }
                    if self.r.pc(self.bad) {
                        o.push(("zz".into(), Val::Int(1)));
                    }
                    Val::Obj(o)
                }
                _ => value_of(self.r, self.s, t, depth, 0),
            },
        }
    }
    fn args(&mut self, defs: &[InputVal]) -> Args {
        let mut a = vec![];
        for d in defs {
            let need = d.required();
            if (need && !self.r.pc(self.bad)) || (!need && self.r.pc(45)) {
                a.push((d.name.clone(), self.arg_value(&d.ty, 2)));
            }
        }
        if self.r.pc(self.bad) {
            let n = ["a0", "a1", "nope", "if"][self.r.below(4)].to_string();
            a.push((n, any_const(self.r, 1)));
        }
        if a.len() > 1 && self.r.pc(20) {
            a.reverse();
        }
        a
    }
    fn all_dirdefs(&self) -> Vec<DirDef> {
        let mut v = self.s.dirdefs.clone();
        v.extend(builtin_dirdefs());
        v
    }
    pub fn dirs(&mut self, loc: &str) -> Vec<Dir> {
        let mut out = vec![];
        if self.r.pc(self.dirpc) {
            let defs = self.all_dirdefs();
            let ok: Vec<DirDef> = defs.iter().filter(|d| d.locs.iter().any(|l| l == loc)).cloned().collect();
            if !ok.is_empty() {
                let d = self.r.pick(&ok).clone();
                let args = self.args(&d.args);
                out.push(Dir { name: d.name.clone(), args });
                if (d.repeatable && self.r.pc(30)) || self.r.pc(self.bad) {
                    let args = self.args(&d.args);
                    out.push(Dir { name: d.name, args });
                }
            }
        }
        if self.r.pc(self.bad) {
            let defs = self.all_dirdefs();
            let mut names: Vec<String> = defs.iter().map(|d| d.name.clone()).collect();
            names.push("unknown".into());
            let n = self.r.pick(&names).clone();
            let defs = defs.iter().find(|d| d.name == n).map(|d| d.args.clone()).unwrap_or_default();
            let args = self.args(&defs);
            out.push(Dir { name: n, args });
        }
        out
    }
    /// `lowest`: only fragments with a higher index may be spread (no cycles) unless `cycles`.
    pub fn sels(&mut self, ty: &str, depth: usize, lowest: usize) -> Vec<Sel> {
        let n = self.r.range(1, 3);
        let mut out: Vec<Sel> = vec![];
        for _ in 0..n {
            let s = self.sel(ty, depth, lowest);
            out.push(s);
        }
        if self.deep_dups && self.r.pc(15) {
            // repeat a selection (mergeable by construction), sometimes with other children
            let mut c = self.r.pick(&out).clone();
            if let Sel::Field(f) = &mut c {
                if let (Some(_), Some(fd)) = (&f.sels, self.s.ty(ty).and_then(|t| t.field(&f.name))) {
                    let b = fd.ty.base().to_string();
                    if depth > 0 {
                        f.sels = Some(self.sels(&b, depth - 1, lowest));
                    }
                }
                if self.r.pc(self.bad) {
                    f.args.clear();
                }
            }
            out.push(c);
        }
        out
    }
    fn sel(&mut self, ty: &str, depth: usize, lowest: usize) -> Sel {
        let td = self.s.ty(ty).cloned();
        let has_fields = td.as_ref().map_or(false, |t| !t.fields.is_empty());
        let roll = self.r.below(100);
        let avail: Vec<usize> = (0..self.fragnames.len()).filter(|i| self.cycles || *i >= lowest).collect();
        if roll < 14 && !avail.is_empty() {
            let fits: Vec<usize> = avail
                .iter()
                .copied()
                .filter(|i| {
                    let a = possible(self.s, ty);
                    possible(self.s, &self.frag_conds[*i]).iter().any(|x| a.contains(x))
                })
                .collect();
            let i = if !fits.is_empty() && !self.r.pc(self.bad) {
                Some(*self.r.pick(&fits))
            } else if self.r.pc(self.bad * 3) {
                Some(*self.r.pick(&avail))
            } else {
                None
            };
            if let Some(i) = i {
                let name = if self.r.pc(self.bad) { "Undef".to_string() } else { self.fragnames[i].clone() };
                return Sel::Spread { name, dirs: self.dirs("FRAGMENT_SPREAD") };
            }
        }
        if (roll < 34 && depth > 0) || !has_fields && roll < 70 && depth > 0 {
            let comps = self.composites();
            let a = possible(self.s, ty);
            let fit: Vec<String> =
                comps.iter().filter(|c| possible(self.s, c).iter().any(|x| a.contains(x))).cloned().collect();
            let cond = if self.r.pc(20) {
                None
            } else if self.r.pc(self.bad) {
                let mut all: Vec<String> = self.s.types.iter().map(|t| t.name.clone()).collect();
                all.extend(["Int".to_string(), "Nope".to_string(), "__Type".to_string()]);
                Some(self.r.pick(&all).clone())
            } else if fit.is_empty() {
                None
            } else {
                Some(self.r.pick(&fit).clone())
            };
            let inner = cond.clone().unwrap_or_else(|| ty.to_string());
            let dirs = self.dirs("INLINE_FRAGMENT");
            return Sel::Inline { cond, dirs, sels: self.sels(&inner, depth - 1, lowest) };
        }
        let alias = if self.r.pc(18) { Some(format!("f{}", self.r.below(4))) } else if self.r.pc(10) { Some(format!("x{}", self.r.below(3))) } else { None };
        let leaf_only = depth == 0;
        let fd = td.as_ref().and_then(|t| {
            let c: Vec<&FieldDef> = t
                .fields
                .iter()
                .filter(|f| !leaf_only || self.s.ty(f.ty.base()).map_or(true, |t| matches!(t.kind, Kind::Scalar | Kind::Enum)))
                .collect();
            if c.is_empty() {
                None
            } else {
                Some((*self.r.pick(&c)).clone())
            }
        });
        match fd {
            Some(fd) if !self.r.pc(6) && !self.r.pc(self.bad) => {
                let args = self.args(&fd.args);
                let dirs = self.dirs("FIELD");
                let b = fd.ty.base().to_string();
                let comp = self.s.ty(&b).map_or(false, |t| matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union));
                let want = if self.r.pc(self.bad) { !comp } else { comp };
                let sels = if want { Some(self.sels(&b, depth.saturating_sub(1), lowest)) } else { None };
                Sel::Field(FieldSel { alias, name: fd.name, args, dirs, sels })
            }
            _ => {
                let name = if self.r.pc(self.bad * 2) {
                    ["f0", "f1", "f7", "__schema", "__type"][self.r.below(5)].to_string()
                } else {
                    "__typename".to_string()
                };
                Sel::Field(FieldSel { alias, name, args: vec![], dirs: self.dirs("FIELD"), sels: None })
            }
        }
    }
    pub fn doc(&mut self) -> Doc {
        let mut d = Doc::default();
        let nf = self.r.below(4);
        let comps = self.composites();
        for i in 0..nf {
            let mut c = self.r.pick(&comps).clone();
            if self.r.pc(self.bad) {
                c = ["Int", "Nope", "E0", "I0"][self.r.below(4)].to_string();
            }
            self.fragnames.push(format!("F{i}"));
            self.frag_conds.push(c);
        }
        // fragments use variables too: one shared variable environment
        for i in 0..nf {
            let cond = self.frag_conds[i].clone();
            let dirs = self.dirs("FRAGMENT_DEFINITION");
            let sels = self.sels(&cond, 2, i + 1);
            let name = if self.r.pc(self.bad / 2) { "F0".to_string() } else { format!("F{i}") };
            d.frags.push(Frag { name, cond, dirs, sels });
        }
        let nops = if self.r.pc(70) { 1 } else { self.r.range(1, 3) };
        for k in 0..nops {
            let mut kinds = vec![OpKind::Query, OpKind::Query];
            for x in [OpKind::Mutation, OpKind::Subscription] {
                if root_of(self.s, x).is_some() || self.r.pc(self.bad) {
                    kinds.push(x);
                }
            }
            let kind = *self.r.pick(&kinds);
            let root = root_of(self.s, kind).unwrap_or_else(|| "Query".into());
            let dirs = self.dirs(match kind {
                OpKind::Query => "QUERY",
                OpKind::Mutation => "MUTATION",
                OpKind::Subscription => "SUBSCRIPTION",
            });
            let depth = self.r.range(1, 3);
            let mut sels = self.sels(&root, depth, 0);
            if kind == OpKind::Subscription && !self.r.pc(self.bad) {
                if let Some(i) = sels.iter().position(|s| matches!(s, Sel::Field(f) if f.name != "__typename")) {
                    sels = vec![sels.swap_remove(i)];
                }
            }
            // make every fragment reachable most of the time
            if k == 0 && !self.r.pc(self.bad) {
                for i in 0..nf {
                    if !spread_somewhere(&d, &sels, &format!("F{i}")) {
                        let wrap_cond = self.frag_conds[i].clone();
                        let a = possible(self.s, &root);
                        let b = possible(self.s, &wrap_cond);
                        if a.iter().any(|x| b.contains(x)) || self.r.pc(self.bad) {
                            sels.push(Sel::Spread { name: format!("F{i}"), dirs: vec![] });
                        }
                    }
                }
            }
            let used = vars_reached(&d, &sels, &dirs);
            let mut vars = vec![];
            for (n, t) in self.vars.clone() {
                let is_used = used.contains(&n);
                if (is_used && !self.r.pc(self.bad)) || (!is_used && self.r.pc(self.bad)) {
                    let default = if self.r.pc(25) { Some(value_of(self.r, self.s, &t, 1, self.bad)) } else { None };
                    let dirs = if self.r.pc(self.dirpc) { self.const_dirs("VARIABLE_DEFINITION") } else { vec![] };
                    vars.push(VarDef { name: n, ty: t, default, dirs });
                }
            }
            if !vars.is_empty() && self.r.pc(self.bad) {
                let v = self.r.pick(&vars).clone();
                vars.push(v);
            }
            let anonymous = nops == 1 && self.r.pc(40) || self.r.pc(self.bad);
            let implicit = anonymous && kind == OpKind::Query && vars.is_empty() && dirs.is_empty() && self.r.pc(60);
            let name = if anonymous {
                None
            } else if self.r.pc(self.bad) {
                Some("Op0".to_string())
            } else {
                Some(format!("Op{k}"))
            };
            d.ops.push(Op { implicit, kind, name, vars, dirs, sels });
        }
        if self.r.pc(20) {
            d.ops.reverse();
        }
        if self.r.pc(20) {
            d.frags.reverse();
        }
        d
    }
    fn const_dirs(&mut self, loc: &str) -> Vec<Dir> {
        let keep = self.varpc;
        self.varpc = 0;
        let v = self.dirs(loc);
        self.varpc = keep;
        v
    }
}
pub fn builtin_dirdefs() -> Vec<DirDef> {
    let arg = |n: &str, t: Ty, d: Option<Val>| InputVal { desc: None, name: n.into(), ty: t, default: d, dirs: vec![] };
    let l = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let bt = Ty::Named("Boolean".into(), true);
    vec![
        DirDef { desc: None, name: "skip".into(), args: vec![arg("if", bt.clone(), None)], repeatable: false, locs: l(&["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"]) },
        DirDef { desc: None, name: "include".into(), args: vec![arg("if", bt, None)], repeatable: false, locs: l(&["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"]) },
        DirDef { desc: None, name: "deprecated".into(), args: vec![arg("reason", Ty::Named("String".into(), false), Some(Val::Str("No longer supported".into())))], repeatable: false, locs: l(&["FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"]) },
        DirDef { desc: None, name: "specifiedBy".into(), args: vec![arg("url", Ty::Named("String".into(), true), None)], repeatable: false, locs: l(&["SCALAR"]) },
        DirDef { desc: None, name: "oneOf".into(), args: vec![], repeatable: false, locs: l(&["INPUT_OBJECT"]) },
    ]
}
pub fn walk<'x>(sels: &'x [Sel], f: &mut dyn FnMut(&'x Sel)) {
    for s in sels {
        f(s);
        match s {
            Sel::Field(x) => {
                if let Some(s) = &x.sels {
                    walk(s, f)
                }
            }
            Sel::Inline { sels, .. } => walk(sels, f),
            _ => {}
        }
    }
}
fn spread_somewhere(d: &Doc, sels: &[Sel], n: &str) -> bool {
    let mut hit = false;
    let mut look = |s: &[Sel]| {
        walk(s, &mut |s| {
            if let Sel::Spread { name, .. } = s {
                if name == n {
                    hit = true;
                }
            }
        })
    };
    look(sels);
    for o in &d.ops {
        look(&o.sels);
    }
    hit
}
pub fn val_vars(v: &Val, out: &mut Vec<String>) {
    match v {
        Val::Var(n) => out.push(n.clone()),
        Val::List(l) => l.iter().for_each(|v| val_vars(v, out)),
        Val::Obj(o) => o.iter().for_each(|(_, v)| val_vars(v, out)),
        _ => {}
    }
}
fn dirs_vars(d: &[Dir], out: &mut Vec<String>) {
    for d in d {
        for (_, v) in &d.args {
            val_vars(v, out);
        }
    }
}
/// Every variable used in the selections, through fragments.
pub fn vars_reached(d: &Doc, sels: &[Sel], dirs: &[Dir]) -> Vec<String> {
    let mut out = vec![];
    dirs_vars(dirs, &mut out);
    let mut todo: Vec<&[Sel]> = vec![sels];
    let mut seen: Vec<String> = vec![];
    while let Some(s) = todo.pop() {
        walk(s, &mut |s| match s {
            Sel::Field(f) => {
                for (_, v) in &f.args {
                    val_vars(v, &mut out);
                }
                dirs_vars(&f.dirs, &mut out);
            }
            Sel::Inline { dirs, .. } => dirs_vars(dirs, &mut out),
            Sel::Spread { name, dirs } => {
                dirs_vars(dirs, &mut out);
                if !seen.contains(name) {
                    seen.push(name.clone());
                    if let Some(f) = d.frag(name) {
                        dirs_vars(&f.dirs, &mut out);
                        todo.push(&f.sels);
                    }
                }
            }
        });
    }
    out
}

// ------------------------------------------------------------------ free documents (no schema)
pub fn free_value(r: &mut Rng, depth: usize, cst: bool, weird: bool) -> Val {
    match r.below(if depth == 0 { 8 } else { 10 }) {
        0 => Val::Int(int(r)),
        1 => Val::Float(float(r)),
        2 | 3 => Val::Str(if weird { weird_string(r) } else { plain_string(r) }),
        4 => Val::Bool(r.pc(50)),
        5 => Val::Null,
        6 => Val::Enum(["A", "on", "query", "truex", "type"][r.below(5)].to_string()),
        7 => {
            if cst {
                Val::Int(1)
            } else {
                Val::Var(["a", "b", "on"][r.below(3)].to_string())
            }
        }
        8 => Val::List((0..r.below(4)).map(|_| free_value(r, depth - 1, cst, weird)).collect()),
        _ => Val::Obj((0..r.below(4)).map(|i| (["k", "on", "x"][i % 3].to_string(), free_value(r, depth - 1, cst, weird))).collect()),
    }
}
const NAMES: &[&str] = &["a", "b", "on", "fragment", "query", "type", "null", "true", "_x", "Abc1", "mutation", "input"];
pub fn free_args(r: &mut Rng, cst: bool) -> Args {
    if r.pc(65) {
        return vec![];
    }
    (0..r.range(1, 3)).map(|_| (r.pick(NAMES).to_string(), free_value(r, 2, cst, true))).collect()
}
pub fn free_dirs(r: &mut Rng, cst: bool) -> Vec<Dir> {
    if r.pc(75) {
        return vec![];
    }
    (0..r.range(1, 2)).map(|_| Dir { name: r.pick(NAMES).to_string(), args: free_args(r, cst) }).collect()
}
pub fn free_ty(r: &mut Rng) -> Ty {
    let n = r.pick(NAMES).to_string();
    let mut t = Ty::Named(n, r.pc(40));
    for _ in 0..r.below(3) {
        t = Ty::List(Box::new(t), r.pc(40));
    }
    t
}
pub fn free_sels(r: &mut Rng, depth: usize) -> Vec<Sel> {
    (0..r.range(1, 3))
        .map(|_| match r.below(if depth == 0 { 3 } else { 5 }) {
            0 => {
                let mut n = r.pick(NAMES).to_string();
                if n == "on" {
                    n = "b".into();
                }
                Sel::Spread { name: n, dirs: free_dirs(r, false) }
            }
            4 => Sel::Inline {
                cond: if r.pc(60) { Some(r.pick(NAMES).to_string()) } else { None },
                dirs: free_dirs(r, false),
                sels: free_sels(r, depth - 1),
            },
            _ => Sel::Field(FieldSel {
                alias: if r.pc(25) { Some(r.pick(NAMES).to_string()) } else { None },
                name: r.pick(NAMES).to_string(),
                args: free_args(r, false),
                dirs: free_dirs(r, false),
                sels: if depth > 0 && r.pc(40) { Some(free_sels(r, depth - 1)) } else { None },
            }),
        })
        .collect()
}
pub fn free_doc(r: &mut Rng) -> Doc {
    let mut d = Doc::default();
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.below(5) {
            0 => d.ops.push(Op { implicit: true, kind: OpKind::Query, name: None, vars: vec![], dirs: vec![], sels: free_sels(r, 3) }),
            1 | 2 => {
                let mut name = r.pick(NAMES).to_string();
                if name == "on" {
                    name = "F".into();
                }
                d.frags.push(Frag { name, cond: r.pick(NAMES).to_string(), dirs: free_dirs(r, false), sels: free_sels(r, 2) })
            }
            _ => {
                let vars = (0..if r.pc(50) { 0 } else { r.range(1, 3) })
                    .map(|_| VarDef {
                        name: r.pick(NAMES).to_string(),
                        ty: free_ty(r),
                        default: if r.pc(40) { Some(free_value(r, 2, true, true)) } else { None },
                        dirs: free_dirs(r, true),
                    })
                    .collect();
                d.ops.push(Op {
                    implicit: false,
                    kind: *r.pick(&[OpKind::Query, OpKind::Mutation, OpKind::Subscription]),
                    name: if r.pc(60) { Some(r.pick(NAMES).to_string()) } else { None },
                    vars,
                    dirs: free_dirs(r, false),
                    sels: free_sels(r, 3),
                })
            }
        }
    }
    d
}

// ------------------------------------------------------------------ text-level noise
/// Re-renders the tokens of a text with random trivia and, for strings, random notations.
pub fn respace(r: &mut Rng, text: &str) -> String {
    let toks = match crate::lex::lex(text) {
        Ok(t) => t,
        Err(_) => return text.to_string(),
    };
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        let raw = &text[t.s..t.e];
        let glue = i > 0 && needs_space(&toks[i - 1].t, &t.t);
        match r.below(12) {
            0 => o.push_str("\n"),
            1 => o.push_str(" , "),
            2 => o.push_str(" # note \" { \n"),
            3 => o.push_str("\u{feff}"),
            4 => o.push_str("\r\n\t"),
            5 | 6 if !glue => {}
            7 => o.push_str("#\r"),
            _ => o.push_str(" "),
        }
        if let crate::lex::T::Str(s) = &t.t {
            if r.pc(30) {
                o.push_str(&alt_string(r, s));
                continue;
            }
        }
        o.push_str(raw);
    }
    if r.pc(20) {
        o.push_str("# tail");
    }
    o
}
fn needs_space(a: &crate::lex::T, b: &crate::lex::T) -> bool {
    use crate::lex::T::*;
    let wordy = |t: &crate::lex::T| matches!(t, Name(_) | Var(_) | Int(_) | Float(_));
    let tail = wordy(a);
    let head = matches!(b, Name(_) | Int(_) | Float(_)) || matches!(b, P("..."));
    (tail && head) || (matches!(a, Str(_)) && matches!(b, Str(_)))
}
/// Another notation for the same string value.
pub fn alt_string(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if r.pc(50) {
            let mut b = [0u16; 2];
            if r.pc(30) {
                o.push_str(&format!("\\u{{{:x}}}", c as u32));
            } else {
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04X}"));
                }
            }
        } else {
            let q = quote(&c.to_string());
            o.push_str(&q[1..q.len() - 1]);
        }
    }
    o.push('"');
    o
}
/// Deletes, duplicates, swaps or replaces tokens.
pub fn mutate_tokens(r: &mut Rng, text: &str, soup: &[&str]) -> String {
    let toks = match crate::lex::lex(text) {
        Ok(t) => t,
        Err(_) => return text.to_string(),
    };
    let mut v: Vec<String> = toks.iter().map(|t| text[t.s..t.e].to_string()).collect();
    for _ in 0..r.range(1, 2) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v[i] = r.pick(soup).to_string(),
            _ => v.insert(i, r.pick(soup).to_string()),
        }
    }
    v.join(" ")
}
pub const SOUP: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ":", "=", "@", "!", "|", "&", "...", "$a", "a", "on", "fragment", "query", "true",
    "null", "1", "-1.5", "\"s\"", "type", "schema", "directive", "enum", "input", "union", "scalar", "interface",
    "implements", "repeatable", "mutation", "FIELD", "\"\"\"b\"\"\"",
];
pub fn soup(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(SOUP)).collect::<Vec<_>>().join(" ")
}
