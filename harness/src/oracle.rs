//! The GraphQL October 2021 semantics of schemas and documents, written from the specification over the harness's own trees.
use crate::ast::*;
use crate::gen;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn nm(n: &str, r: bool) -> Ty {
    Ty::Named(n.into(), r)
}
pub fn li(t: Ty, r: bool) -> Ty {
    Ty::List(Box::new(t), r)
}
pub const BUILTIN_SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

fn fd(name: &str, args: Vec<InputVal>, ty: Ty) -> FieldDef {
    FieldDef { desc: None, name: name.into(), args, ty, dirs: vec![] }
}
fn iv(name: &str, ty: Ty, default: Option<Val>) -> InputVal {
    InputVal { desc: None, name: name.into(), ty, default, dirs: vec![] }
}
fn obj(name: &str, fields: Vec<FieldDef>) -> TypeDef {
    let mut t = TypeDef::new(Kind::Object, name);
    t.fields = fields;
    t
}
fn introspection() -> Vec<TypeDef> {
    let s = || nm("String", false);
    let sr = || nm("String", true);
    let b = || nm("Boolean", true);
    let dep = || iv("includeDeprecated", nm("Boolean", false), Some(Val::Bool(false)));
    let l = |n: &str, r: bool| li(nm(n, true), r);
    let mut kinds = TypeDef::new(Kind::Enum, "__TypeKind");
    for n in ["SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL"] {
        kinds.values.push(EnumVal { desc: None, name: n.into(), dirs: vec![] });
    }
    let mut locs = TypeDef::new(Kind::Enum, "__DirectiveLocation");
    for n in crate::parse::LOCATIONS {
        locs.values.push(EnumVal { desc: None, name: n.to_string(), dirs: vec![] });
    }
    vec![
        obj("__Schema", vec![
            fd("description", vec![], s()),
            fd("types", vec![], l("__Type", true)),
            fd("queryType", vec![], nm("__Type", true)),
            fd("mutationType", vec![], nm("__Type", false)),
            fd("subscriptionType", vec![], nm("__Type", false)),
            fd("directives", vec![], l("__Directive", true)),
        ]),
        obj("__Type", vec![
            fd("kind", vec![], nm("__TypeKind", true)),
            fd("name", vec![], s()),
            fd("description", vec![], s()),
            fd("fields", vec![dep()], l("__Field", false)),
            fd("interfaces", vec![], l("__Type", false)),
            fd("possibleTypes", vec![], l("__Type", false)),
            fd("enumValues", vec![dep()], l("__EnumValue", false)),
            fd("inputFields", vec![dep()], l("__InputValue", false)),
            fd("ofType", vec![], nm("__Type", false)),
            fd("specifiedByURL", vec![], s()),
        ]),
        obj("__Field", vec![
            fd("name", vec![], sr()),
            fd("description", vec![], s()),
            fd("args", vec![dep()], l("__InputValue", true)),
            fd("type", vec![], nm("__Type", true)),
            fd("isDeprecated", vec![], b()),
            fd("deprecationReason", vec![], s()),
        ]),
        obj("__InputValue", vec![
            fd("name", vec![], sr()),
            fd("description", vec![], s()),
            fd("type", vec![], nm("__Type", true)),
            fd("defaultValue", vec![], s()),
            fd("isDeprecated", vec![], b()),
            fd("deprecationReason", vec![], s()),
        ]),
        obj("__EnumValue", vec![
            fd("name", vec![], sr()),
            fd("description", vec![], s()),
            fd("isDeprecated", vec![], b()),
            fd("deprecationReason", vec![], s()),
        ]),
        obj("__Directive", vec![
            fd("name", vec![], sr()),
            fd("description", vec![], s()),
            fd("locations", vec![], l("__DirectiveLocation", true)),
            fd("args", vec![dep()], l("__InputValue", true)),
            fd("isRepeatable", vec![], b()),
        ]),
        kinds,
        locs,
    ]
}

pub struct Sch {
    pub sdl: Sdl,
    pub types: HashMap<String, TypeDef>,
    pub dirs: HashMap<String, DirDef>,
    possible: HashMap<String, BTreeSet<String>>,
}
impl Sch {
    pub fn new(sdl: &Sdl) -> Sch {
        let mut types = HashMap::new();
        for b in BUILTIN_SCALARS {
            types.insert(b.to_string(), TypeDef::new(Kind::Scalar, b));
        }
        for t in introspection() {
            types.insert(t.name.clone(), t);
        }
        for t in &sdl.types {
            types.insert(t.name.clone(), t.clone());
        }
        let q = gen::root_of(sdl, OpKind::Query);
        for t in types.values_mut() {
            if matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union) {
                if Some(&t.name) == q.as_ref() {
                    t.fields.push(fd("__schema", vec![], nm("__Schema", true)));
                    t.fields.push(fd("__type", vec![iv("name", nm("String", true), None)], nm("__Type", false)));
                }
                t.fields.push(fd("__typename", vec![], nm("String", true)));
            }
        }
        let mut dirs = HashMap::new();
        for d in gen::builtin_dirdefs() {
            dirs.insert(d.name.clone(), d);
        }
        for d in &sdl.dirdefs {
            dirs.insert(d.name.clone(), d.clone());
        }
        let mut possible: HashMap<String, BTreeSet<String>> = HashMap::new();
        for t in types.values() {
            match t.kind {
                Kind::Object => {
                    possible.entry(t.name.clone()).or_default().insert(t.name.clone());
                    for i in &t.interfaces {
                        possible.entry(i.clone()).or_default().insert(t.name.clone());
                    }
                }
                Kind::Union => possible.entry(t.name.clone()).or_default().extend(t.members.iter().cloned()),
                _ => {}
            }
        }
        Sch { sdl: sdl.clone(), types, dirs, possible }
    }
    pub fn ty(&self, n: &str) -> Option<&TypeDef> {
        self.types.get(n)
    }
    pub fn root(&self, k: OpKind) -> Option<&TypeDef> {
        gen::root_of(&self.sdl, k).and_then(|n| self.ty(&n))
    }
    pub fn possible(&self, n: &str) -> BTreeSet<String> {
        self.possible.get(n).cloned().unwrap_or_default()
    }
    pub fn composite(&self, n: &str) -> bool {
        self.ty(n).map_or(false, is_composite)
    }
    pub fn input(&self, n: &str) -> bool {
        self.ty(n).map_or(false, |t| matches!(t.kind, Kind::Scalar | Kind::Enum | Kind::Input))
    }
    pub fn leaf(&self, n: &str) -> bool {
        self.ty(n).map_or(false, |t| matches!(t.kind, Kind::Scalar | Kind::Enum))
    }
}
pub fn is_composite(t: &TypeDef) -> bool {
    matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union)
}

/// What must be reported and what may additionally be reported.
#[derive(Default, Debug, Clone)]
pub struct Keys {
    pub must: Vec<String>,
    pub may: Vec<String>,
}
impl Keys {
    pub fn add(&mut self, dark: bool, k: String) {
        if dark {
            self.may.push(k)
        } else {
            self.must.push(k)
        }
    }
    /// None when `actual` fits
    pub fn judge(&self, actual: &[String]) -> Option<(String, String)> {
        let mut n: BTreeMap<&str, (usize, usize, usize)> = BTreeMap::new();
        for k in &self.must {
            n.entry(k).or_default().0 += 1;
        }
        for k in &self.may {
            n.entry(k).or_default().1 += 1;
        }
        for k in actual {
            n.entry(k).or_default().2 += 1;
        }
        for (k, (must, may, act)) in n {
            let kind = k.split(' ').next().unwrap_or("").to_string();
            if act < must {
                return Some((format!("{kind} not reported"), format!("{k}: expected {must}, reported {act} times")));
            }
            if act > must + may {
                return Some((format!("{kind} reported wrongly"), format!("{k}: expected at most {}, reported {act} times", must + may)));
            }
        }
        None
    }
}

#[derive(Clone, Debug)]
pub struct Loc {
    pub ty: Ty,
    /// the position's own default
    pub default: Option<Val>,
}
pub enum Ev<'d, 's> {
    Field { f: &'d FieldSel, def: Option<&'s FieldDef>, parent: Option<&'s TypeDef>, dark: bool },
    Spread { name: &'d str, parent: Option<&'s TypeDef>, dark: bool },
    Inline { cond: Option<&'d str>, parent: Option<&'s TypeDef>, dark: bool },
    Dirs { dirs: &'d [Dir], loc: &'static str, dark: bool },
    /// a variable in an argument; `loc` when the position's type is known
    Use { var: &'d str, loc: Option<Loc>, dark: bool },
    /// an argument with its definition
    Arg { def: &'s InputVal, val: &'d Val, dark: bool },
}
pub struct W<'s> {
    pub s: &'s Sch,
}
impl<'s> W<'s> {
    pub fn sels<'d>(&self, sels: &'d [Sel], parent: Option<&'s TypeDef>, dark: bool, out: &mut Vec<Ev<'d, 's>>) {
        let dark = dark || !parent.map_or(false, is_composite);
        for x in sels {
            match x {
                Sel::Field(f) => {
                    let def = parent.and_then(|p| p.field(&f.name));
                    out.push(Ev::Field { f, def, parent, dark });
                    let d = dark || def.is_none();
                    self.dirs(&f.dirs, "FIELD", d, out);
                    for (n, v) in &f.args {
                        match def.and_then(|d| d.args.iter().find(|a| a.name == *n)) {
                            Some(a) => self.arg(a, v, d, out),
                            None => self.unknown(v, out),
                        }
                    }
                    if let Some(s) = &f.sels {
                        self.sels(s, def.and_then(|d| self.s.ty(d.ty.base())), d, out);
                    }
                }
                Sel::Spread { name, dirs } => {
                    self.dirs(dirs, "FRAGMENT_SPREAD", dark, out);
                    out.push(Ev::Spread { name, parent, dark });
                }
                Sel::Inline { cond, dirs, sels } => {
                    self.dirs(dirs, "INLINE_FRAGMENT", dark, out);
                    out.push(Ev::Inline { cond: cond.as_deref(), parent, dark });
                    let p = match cond {
                        Some(c) => self.s.ty(c),
                        None => parent,
                    };
                    self.sels(sels, p, dark, out);
                }
            }
        }
    }
    pub fn dirs<'d>(&self, dirs: &'d [Dir], loc: &'static str, dark: bool, out: &mut Vec<Ev<'d, 's>>) {
        if dirs.is_empty() {
            return;
        }
        out.push(Ev::Dirs { dirs, loc, dark });
        for d in dirs {
            let def = self.s.dirs.get(&d.name);
            for (n, v) in &d.args {
                match def.and_then(|d| d.args.iter().find(|a| a.name == *n)) {
                    Some(a) => self.arg(a, v, dark, out),
                    None => self.unknown(v, out),
                }
            }
        }
    }
    fn unknown<'d>(&self, v: &'d Val, out: &mut Vec<Ev<'d, 's>>) {
        let mut vars = vec![];
        vars_of(v, &mut vars);
        for var in vars {
            out.push(Ev::Use { var, loc: None, dark: true });
        }
    }
    fn arg<'d>(&self, a: &'s InputVal, v: &'d Val, dark: bool, out: &mut Vec<Ev<'d, 's>>) {
        out.push(Ev::Arg { def: a, val: v, dark });
        self.val(v, Some(Loc { ty: a.ty.clone(), default: a.default.clone() }), dark, out);
    }
    fn val<'d>(&self, v: &'d Val, loc: Option<Loc>, dark: bool, out: &mut Vec<Ev<'d, 's>>) {
        match v {
            Val::Var(var) => out.push(Ev::Use { var, loc, dark }),
            Val::List(l) => {
                let inner = match loc {
                    Some(Loc { ty: Ty::List(t, _), .. }) => Some(Loc { ty: *t, default: None }),
                    _ => None,
                };
                for x in l {
                    self.val(x, inner.clone(), dark, out);
                }
            }
            Val::Obj(o) => {
                let td = loc.as_ref().and_then(|l| self.s.ty(l.ty.base())).filter(|t| t.kind == Kind::Input);
                for (k, x) in o {
                    let l = td.and_then(|t| t.input(k)).map(|i| Loc { ty: i.ty.clone(), default: i.default.clone() });
                    self.val(x, l, dark, out);
                }
            }
            _ => {}
        }
    }
}
fn dup_keys(v: &Val) -> bool {
    match v {
        Val::List(l) => l.iter().any(dup_keys),
        Val::Obj(o) => {
            o.iter().enumerate().any(|(i, (k, _))| o[..i].iter().any(|(l, _)| k == l)) || o.iter().any(|(_, v)| dup_keys(v))
        }
        _ => false,
    }
}
pub fn vars_of<'d>(v: &'d Val, out: &mut Vec<&'d str>) {
    match v {
        Val::Var(n) => out.push(n),
        Val::List(l) => l.iter().for_each(|x| vars_of(x, out)),
        Val::Obj(o) => o.iter().for_each(|(_, x)| vars_of(x, out)),
        _ => {}
    }
}
fn dups<'x>(names: impl Iterator<Item = &'x str>) -> Vec<(String, usize)> {
    let mut m: BTreeMap<&str, usize> = BTreeMap::new();
    for n in names {
        *m.entry(n).or_default() += 1;
    }
    m.into_iter().filter(|(_, n)| *n > 1).map(|(k, n)| (k.to_string(), n)).collect()
}
pub fn op_loc(k: OpKind) -> &'static str {
    match k {
        OpKind::Query => "QUERY",
        OpKind::Mutation => "MUTATION",
        OpKind::Subscription => "SUBSCRIPTION",
    }
}

/// Expected reports, one `Keys` per property P07..P15.
#[derive(Default)]
pub struct Expect {
    pub keys: BTreeMap<&'static str, Keys>,
    pub dup_frags: bool,
    pub null_required: bool,
    /// Some(doc must be reported by the merging rule)
    pub conflict: Option<bool>,
    pub subs: Vec<(String, Option<bool>)>,
}
pub fn expect(s: &Sch, d: &Doc) -> Expect {
    let w = W { s };
    let mut e = Expect::default();
    let mut k: BTreeMap<&'static str, Keys> = BTreeMap::new();
    for p in ["P07", "P08", "P09", "P10", "P11", "P12", "P14", "P15"] {
        k.insert(p, Keys::default());
    }
    macro_rules! add {
        ($p:literal, $dark:expr, $($f:tt)*) => { k.get_mut($p).unwrap().add($dark, format!($($f)*)) };
    }
    // ---- events
    let mut ops: Vec<Vec<Ev>> = vec![];
    for o in &d.ops {
        let mut ev = vec![];
        w.dirs(&o.dirs, op_loc(o.kind), false, &mut ev);
        for v in &o.vars {
            w.dirs(&v.dirs, "VARIABLE_DEFINITION", false, &mut ev);
        }
        w.sels(&o.sels, s.root(o.kind), false, &mut ev);
        ops.push(ev);
    }
    let mut frags: Vec<Vec<Ev>> = vec![];
    for f in &d.frags {
        let mut ev = vec![];
        w.dirs(&f.dirs, "FRAGMENT_DEFINITION", false, &mut ev);
        w.sels(&f.sels, s.ty(&f.cond), false, &mut ev);
        frags.push(ev);
    }
    let fragdups = dups(d.frags.iter().map(|f| f.name.as_str()));
    e.dup_frags = !fragdups.is_empty();
    let fidx: HashMap<&str, usize> = d.frags.iter().enumerate().map(|(i, f)| (f.name.as_str(), i)).collect();
    // ---- P10, P11, P12, P14
    for ev in ops.iter().chain(frags.iter()).flatten() {
        match ev {
            Ev::Field { f, def, parent, dark } => {
                match def {
                    None => add!("P12", *dark, "nofield {} on {}", f.name, parent.map_or("?", |p| &p.name)),
                    Some(def) => {
                        if s.leaf(def.ty.base()) && f.sels.is_some() {
                            add!("P12", *dark, "leaf {}", def.ty.text());
                        }
                        if !s.leaf(def.ty.base()) && f.sels.is_none() {
                            add!("P12", *dark, "nonleaf {}:{}", f.name, def.ty.text());
                        }
                        for (n, _) in &f.args {
                            if !def.args.iter().any(|a| a.name == *n) {
                                add!("P11", *dark, "unknown-arg {n} on field {}", f.name);
                            }
                        }
                        missing(&def.args, &f.args, |m| add!("P11", *dark, "missing {m} on field {}", f.name));
                    }
                }
                for (n, c) in dups(f.args.iter().map(|a| a.0.as_str())) {
                    add!("P11", *dark || def.is_none(), "dup-arg {n} x{c}");
                }
            }
            Ev::Spread { name, parent, dark } => match fidx.get(name) {
                None => add!("P10", *dark, "undef-target {name}"),
                Some(i) => {
                    let c = &d.frags[*i].cond;
                    if let Some(p) = parent {
                        if is_composite(p) && s.composite(c) && s.possible(&p.name).is_disjoint(&s.possible(c)) {
                            add!("P10", *dark, "impossible-spread {name} in {}", p.name);
                        }
                    }
                }
            },
            Ev::Inline { cond: Some(c), parent, dark } => {
                if s.ty(c).is_none() {
                    add!("P10", *dark, "unknown-inline {c}");
                } else if !s.composite(c) {
                    add!("P10", *dark, "noncomposite-inline {c}");
                } else if let Some(p) = parent {
                    if is_composite(p) && s.possible(&p.name).is_disjoint(&s.possible(c)) {
                        add!("P10", *dark, "impossible-inline {c} in {}", p.name);
                    }
                }
            }
            Ev::Inline { .. } => {}
            Ev::Dirs { dirs, loc, dark } => {
                for x in dirs.iter() {
                    match s.dirs.get(&x.name) {
                        None => add!("P14", *dark, "undef @{}", x.name),
                        Some(def) => {
                            if !def.locs.iter().any(|l| l == loc) {
                                add!("P14", *dark, "misplaced @{} at {loc}", x.name);
                            }
                            for (n, _) in &x.args {
                                if !def.args.iter().any(|a| a.name == *n) {
                                    add!("P11", *dark, "unknown-arg {n} on @{}", x.name);
                                }
                            }
                            missing(&def.args, &x.args, |m| add!("P11", *dark, "missing {m} on @{}", x.name));
                        }
                    }
                    for (n, c) in dups(x.args.iter().map(|a| a.0.as_str())) {
                        add!("P11", *dark, "dup-arg {n} x{c}");
                    }
                }
                for (n, c) in dups(dirs.iter().map(|x| x.name.as_str())) {
                    if s.dirs.get(&n).map_or(false, |x| !x.repeatable) {
                        add!("P14", *dark, "dup @{n} x{c}");
                    }
                }
            }
            Ev::Use { .. } => {}
            Ev::Arg { def, val, dark } => {
                if def.ty.req() && **val == Val::Null && !dark {
                    e.null_required = true;
                }
            }
        }
    }
    for f in &d.frags {
        if s.ty(&f.cond).is_none() {
            add!("P10", false, "unknown-frag {}", f.name);
        } else if !s.composite(&f.cond) {
            add!("P10", false, "noncomposite-frag {}", f.name);
        }
    }
    // ---- fragment graph: (target, dark)
    let spreads = |ev: &Vec<Ev>| -> Vec<(usize, bool)> {
        ev.iter()
            .filter_map(|x| match x {
                Ev::Spread { name, dark, .. } => fidx.get(name).map(|i| (*i, *dark)),
                _ => None,
            })
            .collect()
    };
    let fs: Vec<Vec<(usize, bool)>> = frags.iter().map(spreads).collect();
    let reach = |start: &Vec<(usize, bool)>, darks: bool| -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<usize> = start.iter().filter(|x| darks || !x.1).map(|x| x.0).collect();
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(fs[i].iter().filter(|x| darks || !x.1).map(|x| x.0));
            }
        }
        seen
    };
    // ---- P09
    for (i, f) in d.frags.iter().enumerate() {
        if reach(&fs[i], true).contains(&i) {
            add!("P09", false, "cycle {}", f.name);
        }
    }
    // ---- P07, P08
    for (oi, o) in d.ops.iter().enumerate() {
        let oname = o.name.clone().unwrap_or_else(|| "-".into());
        let vd = dups(o.vars.iter().map(|v| v.name.as_str()));
        for (n, c) in &vd {
            add!("P08", false, "dup-var {n} x{c}");
        }
        for v in &o.vars {
            if !s.input(v.ty.base()) {
                add!("P08", false, "notinput {}:{}", v.name, v.ty.text());
            }
        }
        let st = spreads(&ops[oi]);
        let light = reach(&st, false);
        let all = reach(&st, true);
        let mut uses: Vec<(&str, &Option<Loc>, bool)> = vec![];
        for (ev, shade) in
            std::iter::once((&ops[oi], false)).chain(all.iter().map(|i| (&frags[*i], !light.contains(i))))
        {
            for x in ev {
                if let Ev::Use { var, loc, dark } = x {
                    uses.push((var, loc, *dark || shade));
                }
            }
        }
        for (var, loc, dark) in &uses {
            match o.vars.iter().find(|v| v.name == *var) {
                None => add!("P08", *dark, "undefined {var} in {oname}"),
                Some(v) => {
                    if let Some(l) = loc {
                        if s.input(v.ty.base()) {
                            let bad = !usage_allowed(v, l);
                            let doubtful = vd.iter().any(|(n, _)| n == var) || matches!(l.default, Some(Val::Null));
                            if bad || doubtful {
                                add!("P07", *dark || doubtful, "usage ${var}:{} at {}", v.ty.text(), l.ty.text());
                            }
                        }
                    }
                }
            }
        }
        for v in &o.vars {
            let lit = uses.iter().any(|u| u.0 == v.name && !u.2);
            let any = uses.iter().any(|u| u.0 == v.name);
            if !lit {
                add!("P08", any, "unused {}:{}", v.name, v.ty.text());
            }
        }
    }
    // ---- P15
    for (n, c) in dups(d.ops.iter().filter_map(|o| o.name.as_deref())) {
        add!("P15", false, "dup-op {n} x{c}");
    }
    for (n, c) in &fragdups {
        add!("P15", false, "dup-frag {n} x{c}");
    }
    let anon = d.ops.iter().filter(|o| o.name.is_none()).count();
    if anon > 0 && d.ops.len() > 1 {
        add!("P15", false, "anonymous x{anon}");
    }
    let mut used: BTreeSet<(usize, bool)> = BTreeSet::new();
    for ev in ops.iter().chain(frags.iter()) {
        used.extend(spreads(ev));
    }
    for (i, f) in d.frags.iter().enumerate() {
        if fragdups.iter().any(|(n, _)| *n == f.name) {
            add!("P15", true, "unused-frag {}", f.name);
        } else if !used.contains(&(i, false)) {
            add!("P15", used.contains(&(i, true)), "unused-frag {}", f.name);
        }
    }
    for o in &d.ops {
        if s.root(o.kind).is_none() {
            add!("P15", false, "notype {}", o.kind.text());
        }
        if o.kind == OpKind::Subscription {
            let mut names = BTreeSet::new();
            let mut doubt = BTreeSet::new();
            let mut seen = BTreeSet::new();
            let mut unsure = false;
            let root = s.root(o.kind).map(|t| t.name.clone());
            collect_root(s, d, root.as_deref(), &o.sels, &mut seen, &mut names, &mut doubt, &mut unsure);
            unsure |= names.is_empty() || doubt.iter().any(|n| !names.contains(n)) || names.iter().any(|n| n.1.starts_with("__")) || e.dup_frags;
            let resp: BTreeSet<&String> = names.iter().map(|n| &n.0).collect();
            if resp.len() != 1 || unsure {
                add!("P15", unsure, "subscription {}", o.name.as_deref().unwrap_or("-"));
            }
        }
    }
    // ---- P13
    let clean = ["P09", "P10", "P12"].iter().all(|p| k[p].must.is_empty() && k[p].may.is_empty())
        && !e.dup_frags
        && !k["P11"].must.iter().any(|x| x.starts_with("dup-arg"))
        && !ops.iter().chain(frags.iter()).flatten().any(|ev| matches!(ev, Ev::Arg { val, .. } if dup_keys(val)));
    if clean {
        let mut m = Merge { s, d, fuel: 200_000 };
        let mut bad = false;
        for o in &d.ops {
            if let Some(r) = s.root(o.kind) {
                bad |= m.conflict_in(&o.sels, r);
            }
        }
        for f in &d.frags {
            if let Some(t) = s.ty(&f.cond) {
                bad |= m.conflict_in(&f.sels, t);
            }
        }
        if m.fuel > 0 {
            e.conflict = Some(bad);
        }
    }
    e.keys = k;
    e
}
fn missing(defs: &[InputVal], args: &Args, mut f: impl FnMut(String)) {
    let m: Vec<&str> =
        defs.iter().filter(|a| a.required() && !args.iter().any(|(n, _)| *n == a.name)).map(|a| a.name.as_str()).collect();
    if !m.is_empty() {
        f(m.join(","));
    }
}
/// IsVariableUsageAllowed
pub fn usage_allowed(v: &VarDef, l: &Loc) -> bool {
    let lt = &l.ty;
    if lt.req() && !v.ty.req() {
        let has_default = matches!(&v.default, Some(x) if *x != Val::Null);
        if !has_default && l.default.is_none() {
            return false;
        }
        return compatible(&v.ty, &lt.with_req(false));
    }
    compatible(&v.ty, lt)
}
/// AreTypesCompatible
pub fn compatible(v: &Ty, l: &Ty) -> bool {
    if l.req() {
        return v.req() && compatible(&v.with_req(false), &l.with_req(false));
    }
    if v.req() {
        return compatible(&v.with_req(false), l);
    }
    match (v, l) {
        (Ty::List(a, _), Ty::List(b, _)) => compatible(a, b),
        (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
        _ => false,
    }
}
#[allow(clippy::too_many_arguments)]
fn collect_root(
    s: &Sch, d: &Doc, root: Option<&str>, sels: &[Sel], seen: &mut BTreeSet<String>, names: &mut BTreeSet<(String, String)>,
    doubt: &mut BTreeSet<(String, String)>, unsure: &mut bool,
) {
    let cond = |dirs: &[Dir]| dirs.iter().any(|d| d.name == "skip" || d.name == "include");
    for x in sels {
        match x {
            Sel::Field(f) => {
                let k = (f.resp().to_string(), f.name.clone());
                if cond(&f.dirs) {
                    *unsure = true;
                    doubt.insert(k);
                } else {
                    names.insert(k);
                }
            }
            Sel::Spread { name, dirs } => {
                if cond(dirs) {
                    *unsure = true;
                }
                if seen.insert(name.clone()) {
                    match d.frag(name) {
                        Some(f) => {
                            if applies(s, root, &f.cond) != Some(true) {
                                *unsure = true;
                            }
                            collect_root(s, d, root, &f.sels, seen, names, doubt, unsure)
                        }
                        None => *unsure = true,
                    }
                }
            }
            Sel::Inline { cond: c, dirs, sels } => {
                if cond(dirs) {
                    *unsure = true;
                }
                if let Some(c) = c {
                    if applies(s, root, c) != Some(true) {
                        *unsure = true;
                    }
                }
                collect_root(s, d, root, sels, seen, names, doubt, unsure)
            }
        }
    }
}
fn applies(s: &Sch, root: Option<&str>, cond: &str) -> Option<bool> {
    let r = root?;
    s.ty(cond)?;
    Some(s.possible(cond).contains(r))
}

// ------------------------------------------------------------------ merging
#[derive(Clone)]
struct FC<'x> {
    f: &'x FieldSel,
    parent: &'x TypeDef,
    ty: &'x Ty,
}
struct Merge<'x> {
    s: &'x Sch,
    d: &'x Doc,
    fuel: usize,
}
type Groups<'x> = BTreeMap<&'x str, Vec<FC<'x>>>;
impl<'x> Merge<'x> {
    /// any selection set at or below `sels` that cannot merge
    fn conflict_in(&mut self, sels: &'x [Sel], t: &'x TypeDef) -> bool {
        let mut g = Groups::new();
        self.collect(sels, t, &mut BTreeSet::new(), &mut g);
        if self.bad(&g) {
            return true;
        }
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if let (Some(ss), Some(td)) =
                        (&f.sels, t.field(&f.name).and_then(|d| self.s.ty(d.ty.base())))
                    {
                        if self.conflict_in(ss, td) {
                            return true;
                        }
                    }
                }
                Sel::Inline { cond, sels, .. } => {
                    let td = match cond {
                        Some(c) => self.s.ty(c),
                        None => Some(t),
                    };
                    if let Some(td) = td {
                        if self.conflict_in(sels, td) {
                            return true;
                        }
                    }
                }
                Sel::Spread { .. } => {}
            }
        }
        false
    }
    fn collect(&mut self, sels: &'x [Sel], t: &'x TypeDef, seen: &mut BTreeSet<&'x str>, g: &mut Groups<'x>) {
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if let Some(def) = t.field(&f.name) {
                        g.entry(f.resp()).or_default().push(FC { f, parent: t, ty: &def.ty });
                    }
                }
                Sel::Spread { name, .. } => {
                    if seen.insert(name) {
                        if let Some(fr) = self.d.frag(name) {
                            if let Some(td) = self.s.ty(&fr.cond) {
                                self.collect(&fr.sels, td, seen, g);
                            }
                        }
                    }
                }
                Sel::Inline { cond, sels, .. } => {
                    let td = match cond {
                        Some(c) => self.s.ty(c),
                        None => Some(t),
                    };
                    if let Some(td) = td {
                        self.collect(sels, td, seen, g);
                    }
                }
            }
        }
    }
    fn sub(&mut self, a: &FC<'x>, b: &FC<'x>) -> Groups<'x> {
        let mut g = Groups::new();
        let mut seen = BTreeSet::new();
        for c in [a, b] {
            if let (Some(ss), Some(td)) = (&c.f.sels, self.s.ty(c.ty.base())) {
                self.collect(ss, td, &mut seen, &mut g);
            }
        }
        g
    }
    fn bad(&mut self, g: &Groups<'x>) -> bool {
        for v in g.values() {
            for (i, a) in v.iter().enumerate() {
                for b in &v[i + 1..] {
                    if self.fuel == 0 {
                        return false;
                    }
                    self.fuel -= 1;
                    if self.shape_differs(a, b) {
                        return true;
                    }
                    if a.parent.name == b.parent.name || a.parent.kind != Kind::Object || b.parent.kind != Kind::Object {
                        if a.f.name != b.f.name || !same_args(&a.f.args, &b.f.args) {
                            return true;
                        }
                        let m = self.sub(a, b);
                        if self.bad(&m) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    fn shape_differs(&mut self, a: &FC<'x>, b: &FC<'x>) -> bool {
        let (mut x, mut y) = (a.ty, b.ty);
        loop {
            if x.req() != y.req() {
                return true;
            }
            match (x, y) {
                (Ty::List(p, _), Ty::List(q, _)) => {
                    x = p;
                    y = q;
                }
                (Ty::Named(..), Ty::Named(..)) => break,
                _ => return true,
            }
        }
        let (lx, ly) = (self.s.leaf(x.base()), self.s.leaf(y.base()));
        if lx || ly {
            return x.base() != y.base();
        }
        let m = self.sub(a, b);
        for v in m.values() {
            for (i, p) in v.iter().enumerate() {
                for q in &v[i + 1..] {
                    if self.fuel == 0 {
                        return false;
                    }
                    self.fuel -= 1;
                    if self.shape_differs(p, q) {
                        return true;
                    }
                }
            }
        }
        false
    }
}
pub fn same_args(a: &Args, b: &Args) -> bool {
    a.len() == b.len() && a.iter().all(|(n, v)| b.iter().any(|(m, w)| n == m && same_val(v, w)))
}
pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_val(p, q)),
        (Val::Obj(x), Val::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && same_val(v, w))),
        (Val::Float(x), Val::Float(y)) => x == y,
        _ => a == b,
    }
}

// ------------------------------------------------------------------ input coercion
/// The offending sub-values of `v` at type `t`: must-report into `k.must`, possible extras into `k.may`.
#[allow(clippy::too_many_arguments)]
pub fn coerce(s: &Sch, t: &Ty, v: &Val, json: bool, implicit: bool, path: &str, dark: bool, k: &mut Keys) {
    let at = |p: &str| if p.is_empty() { "/".to_string() } else { p.to_string() };
    match v {
        Val::Null => {
            if t.req() {
                k.add(dark, format!("null {} at {}", t.text(), at(path)));
            }
            return;
        }
        Val::Var(_) => return,
        _ => {}
    }
    let conv = |k: &mut Keys| k.add(dark, format!("conversion {} at {}", t.text(), at(path)));
    match t {
        Ty::List(i, _) => match v {
            Val::List(l) => {
                for (n, x) in l.iter().enumerate() {
                    coerce(s, i, x, json, false, &format!("{path}/{n}"), dark, k);
                }
            }
            _ if implicit => coerce(s, i, v, json, true, path, dark, k),
            _ => conv(k),
        },
        Ty::Named(n, _) => {
            let Some(td) = s.ty(n) else { return };
            match td.kind {
                Kind::Scalar => {
                    let ok = match (n.as_str(), v) {
                        ("Int", Val::Int(_)) | ("Float", Val::Int(_) | Val::Float(_)) | ("Boolean", Val::Bool(_)) => true,
                        ("String", Val::Str(_)) | ("ID", Val::Str(_) | Val::Int(_)) => true,
                        (n, _) => !BUILTIN_SCALARS.contains(&n),
                    };
                    if !ok {
                        conv(k);
                    }
                }
                Kind::Enum => match v {
                    Val::Enum(e) => {
                        if !td.values.iter().any(|x| x.name == *e) {
                            k.add(dark, format!("enum {e} of {n} at {}", at(path)));
                        }
                    }
                    Val::Str(e) if json => {
                        if !td.values.iter().any(|x| x.name == *e) {
                            k.add(dark, format!("enum {e} of {n} at {}", at(path)));
                        }
                    }
                    _ => conv(k),
                },
                Kind::Input => {
                    let Val::Obj(o) = v else { return conv(k) };
                    for (n, _) in dups(o.iter().map(|x| x.0.as_str())) {
                        k.add(dark, format!("duplicate {n} at {}", at(path)));
                    }
                    for (n, _) in o {
                        if td.input(n).is_none() {
                            k.add(dark, format!("unknown {n} at {path}/{n}"));
                        }
                    }
                    let mut missing = vec![];
                    for f in &td.inputs {
                        let mut vals = o.iter().filter(|x| x.0 == f.name);
                        match vals.next() {
                            None => {
                                if f.required() {
                                    missing.push(f.name.as_str());
                                }
                            }
                            Some((_, x)) => coerce(s, &f.ty, x, json, true, &format!("{path}/{}", f.name), dark, k),
                        }
                        for (_, x) in vals {
                            coerce(s, &f.ty, x, json, true, &format!("{path}/{}", f.name), true, k);
                        }
                    }
                    if !missing.is_empty() {
                        k.add(dark, format!("missing {} at {}", missing.join(","), at(path)));
                    }
                    if td.dirs.iter().any(|d| d.name == "oneOf") {
                        let nulls = o.iter().filter(|x| x.1 == Val::Null).count();
                        if nulls > 0 {
                            k.add(dark, format!("oneof-null x{nulls} at {}", at(path)));
                        }
                        if o.len() - nulls != 1 {
                            k.add(dark, format!("oneof-count x{} at {}", o.len() - nulls, at(path)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
