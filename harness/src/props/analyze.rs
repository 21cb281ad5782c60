//! P16..P19: the operation analyses.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::oracle::{self, Keys, Sch};
use crate::{parse, Prop};
use bluejay_core::definition::{self as cd, InputValueDefinition as _};
use bluejay_core::executable::{self as ce, VariableDefinition as _};
use bluejay_core::Argument as _;
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};
use bluejay_validator::executable::operation::{
    analyzers::{
        complexity_cost::RelayCostComputer, ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValueError,
        VariableValuesAreValid,
    },
    Analyzer, Orchestrator, VariableValues, Visitor,
};
use bluejay_validator::executable::Cache;
use serde_json::{Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:literal, $gen:ident, $check:ident) => {
            Prop {
                id: $id,
                rule: "random schema, document (valid by construction, then perturbed), operation name and JSON variable \
                       values; non-trivial: the operation resolves and has a selection the analysis looks at",
                gen: $gen,
                check: $check,
                fixed: || fixed($id),
            }
        };
    }
    vec![
        p!("P16", gen_flow, check_p16),
        p!("P17", gen_cost, check_p17),
        p!("P18", gen_flow, check_p18),
        p!("P19", gen_depr, check_p19),
    ]
}
type Vars = Map<String, J>;

// ------------------------------------------------------------------ generation
fn add_deprecations(r: &mut Rng, s: &mut Sdl) {
    let mut n = 0;
    let mut d = |r: &mut Rng, v: &mut Vec<Dir>| {
        if r.pc(35) && !v.iter().any(|d| d.name == "deprecated") {
            n += 1;
            let args = match r.below(5) {
                0 => vec![],
                _ => vec![("reason".to_string(), Val::Str(format!("r{n}")))],
            };
            v.push(Dir { name: "deprecated".into(), args });
        }
    };
    for t in &mut s.types {
        for f in &mut t.fields {
            d(r, &mut f.dirs);
            for a in &mut f.args {
                d(r, &mut a.dirs);
            }
        }
        for f in &mut t.inputs {
            d(r, &mut f.dirs);
        }
        for v in &mut t.values {
            d(r, &mut v.dirs);
        }
    }
    for x in &mut s.dirdefs {
        for a in &mut x.args {
            d(r, &mut a.dirs);
        }
    }
}
fn vars_for(r: &mut Rng, s: &Sdl, d: &Doc, bad: usize) -> String {
    let mut m = Map::new();
    for op in &d.ops {
        for v in &op.vars {
            if r.pc(6) {
                m.insert(v.name.clone(), J::Null);
            } else if r.pc(70) {
                let x = gen::value_of(r, s, &v.ty, 3, bad);
                if let Some(j) = super::coerce::to_json(&x) {
                    m.insert(v.name.clone(), j);
                }
            }
        }
    }
    if r.pc(bad * 2) {
        m.insert(["zz", "v0", "v9", ""][r.below(4)].into(), J::from(1));
    }
    J::Object(m).to_string()
}
struct Knobs {
    bad: usize,
    varpc: usize,
    dirpc: usize,
    cycles: bool,
}
fn finish(r: &mut Rng, s: Sdl, k: Knobs) -> Case {
    let mut doc = {
        let mut g = gen::DocGen::new(r, &s);
        g.bad = k.bad;
        g.varpc = k.varpc;
        g.dirpc = k.dirpc;
        g.cycles = k.cycles;
        g.doc()
    };
    for v in doc.ops.iter_mut().flat_map(|o| o.vars.iter_mut()) {
        if matches!(&v.ty, Ty::Named(n, _) if n == "Boolean") && r.pc(30) {
            v.ty = v.ty.with_req(false);
            v.default = Some(Val::Bool(r.pc(50)));
        }
    }
    let vars = vars_for(r, &s, &doc, k.bad);
    let op = match r.below(10) {
        0 => String::new(),
        1 => "Nope".to_string(),
        _ => {
            let o = r.pick(&doc.ops);
            o.name.clone().unwrap_or_default()
        }
    };
    let limit = r.below(4).to_string();
    let mut text = doc.text();
    if r.pc(5) {
        text = gen::mutate_tokens(r, &text, &gen::SOUP);
    }
    Case::default().gql("schema", s.text()).gql("document", text).raw("variables", vars).fixed("operation", op).fixed("limit", limit)
}
fn gen_flow(r: &mut Rng) -> Case {
    let dirs = r.pc(25);
    let roots = r.pc(20);
    let cfg = gen::SchemaCfg { descs: false, weird_descs: false, dirs, oneof: r.pc(10), explicit_roots: roots };
    let s = gen::schema(r, &cfg);
    let k = Knobs { bad: [0, 0, 3, 8][r.below(4)], varpc: [20, 50][r.below(2)], dirpc: [35, 60][r.below(2)], cycles: r.pc(15) };
    finish(r, s, k)
}
fn gen_depr(r: &mut Rng) -> Case {
    let dirs = r.pc(40);
    let cfg = gen::SchemaCfg { descs: false, weird_descs: false, dirs, oneof: false, explicit_roots: false };
    let mut s = gen::schema(r, &cfg);
    add_deprecations(r, &mut s);
    let k = Knobs { bad: [0, 0, 3, 8][r.below(4)], varpc: 30, dirpc: 25, cycles: r.pc(10) };
    finish(r, s, k)
}
fn rename_ids(text: &str, pairs: &[(&str, &str)]) -> String {
    let mut t = text.to_string();
    for (a, b) in pairs {
        t = super::print::rename(&t, a, b);
    }
    t
}
fn gen_cost(r: &mut Rng) -> Case {
    let cfg = gen::SchemaCfg { descs: false, weird_descs: false, dirs: false, oneof: false, explicit_roots: false };
    let mut s = gen::schema(r, &cfg);
    // a0/a1 become Int arguments called first/last on some fields, and costs are attached
    for t in &mut s.types {
        for f in &mut t.fields {
            if r.pc(60) {
                f.args.retain(|a| a.name != "a0" && a.name != "a1");
                for n in ["a0", "a1"] {
                    if r.pc(60) {
                        f.args.insert(0, InputVal { desc: None, name: n.into(), ty: Ty::Named("Int".into(), false), default: None, dirs: vec![] });
                    }
                }
            }
            if r.pc(60) {
                let mut args = vec![];
                if r.pc(80) {
                    let w = ["2.0", "0", "5", "3.7", "-1", "x", "1e1", "", "100"][r.below(9)];
                    args.push(("weight".to_string(), Val::Str(w.into())));
                }
                if r.pc(60) {
                    args.push(("kind".to_string(), Val::Str(["connection", "connection", "connection", "other"][r.below(4)].into())));
                }
                f.dirs.push(Dir { name: "cost".into(), args });
            }
        }
    }
    let iv = |n: &str| InputVal { desc: None, name: n.into(), ty: Ty::Named("String".into(), false), default: None, dirs: vec![] };
    s.dirdefs.retain(|d| d.name != "cost");
    s.dirdefs.push(DirDef { desc: None, name: "cost".into(), args: vec![iv("weight"), iv("kind")], repeatable: false, locs: vec!["FIELD_DEFINITION".into()] });
    let k = Knobs { bad: 0, varpc: 25, dirpc: 10, cycles: false };
    let mut c = finish(r, s, k);
    let pairs = [("f1", "edges"), ("f2", "nodes"), ("a0", "first"), ("a1", "last")];
    for p in &mut c.parts {
        if p.kind == "gql" {
            p.text = rename_ids(&p.text, &pairs);
        }
    }
    c
}

// ------------------------------------------------------------------ common
struct Ctx {
    s: Sch,
    d: Doc,
    op: Op,
    vars: Vars,
}
fn op_name(c: &Case) -> Option<String> {
    let n = c.get("operation");
    if n.is_empty() {
        None
    } else {
        Some(n.to_string())
    }
}
fn dup<'a>(it: impl Iterator<Item = &'a str>) -> bool {
    let mut seen = BTreeSet::new();
    let mut d = false;
    for x in it {
        d |= !seen.insert(x);
    }
    d
}
enum Ready {
    Skip,
    /// the operation cannot be chosen
    NoOp(Doc, Vars),
    Go(Box<Ctx>),
}
fn ready(c: &Case) -> Ready {
    let Ok(sdl) = parse::parse_sdl(c.get("schema")) else { return Ready::Skip };
    let Ok(d) = parse::parse_doc(c.get("document")) else { return Ready::Skip };
    let Ok(J::Object(vars)) = serde_json::from_str(c.get("variables")) else { return Ready::Skip };
    if dup(d.frags.iter().map(|f| f.name.as_str())) || d.ops.iter().any(|o| dup(o.vars.iter().map(|v| v.name.as_str()))) {
        return Ready::Skip;
    }
    let s = Sch::new(&sdl);
    let op = match op_name(c) {
        Some(n) => d.ops.iter().find(|o| o.name.as_deref() == Some(n.as_str())).cloned(),
        None if d.ops.len() == 1 => d.ops.first().cloned(),
        None => None,
    };
    match op {
        Some(op) => Ready::Go(Box::new(Ctx { s, d, op, vars })),
        None => Ready::NoOp(d, vars),
    }
}
type E<'a> = ExecutableDocument<'a>;
type S<'a> = SchemaDefinition<'a>;
/// runs one analyzer on the real code; None when the schema is rejected
macro_rules! real {
    ($c:expr, $vars:expr, $an:ty, $extra:expr, $f:expr) => {{
        match DefinitionDocument::parse($c.get("schema")) {
            Err(_) => None,
            Ok(dd) => {
                let dd: DefinitionDocument = dd;
                match SchemaDefinition::try_from(&dd) {
                    Err(_) => None,
                    Ok(sd) => match ExecutableDocument::parse($c.get("document")) {
                        Err(_) => None,
                        Ok(doc) => {
                            let cache = Cache::new(&doc, &sd);
                            let name = op_name($c);
                            let out = Orchestrator::<_, _, _, $an>::analyze(&doc, &sd, name.as_deref(), $vars, &cache, $extra);
                            Some(out.map($f).map_err(|e| e.message().to_string()))
                        }
                    },
                }
            }
        }
    }};
}
struct Walk<'c> {
    c: &'c Ctx,
    /// a Boolean variable had a value that is not a Boolean: the spec leaves the outcome open
    odd: bool,
    frags: Vec<String>,
}
enum Ev<'d, 's> {
    Enter { f: &'d FieldSel, def: &'s FieldDef, parent: &'s TypeDef },
    Leave,
    Arg { def: &'s InputVal, name: &'d str, val: &'d Val },
}
impl<'c> Walk<'c> {
    fn cond(&mut self, dirs: &[Dir], name: &str) -> Option<bool> {
        let d = dirs.iter().find(|d| d.name == name)?;
        let (_, v) = d.args.iter().find(|a| a.0 == "if")?;
        match v {
            Val::Bool(b) => Some(*b),
            Val::Var(n) => {
                let v = self.c.op.vars.iter().find(|v| v.name == *n && matches!(&v.ty, Ty::Named(t, _) if t == "Boolean"))?;
                match self.c.vars.get(n) {
                    Some(J::Bool(b)) => Some(*b),
                    Some(J::Null) if !v.ty.req() => None,
                    Some(_) => {
                        self.odd = true;
                        None
                    }
                    None => match &v.default {
                        Some(Val::Bool(b)) => Some(*b),
                        _ => None,
                    },
                }
            }
            _ => None,
        }
    }
    fn included(&mut self, dirs: &[Dir]) -> bool {
        let (s, i) = (self.cond(dirs, "skip"), self.cond(dirs, "include"));
        s != Some(true) && i != Some(false)
    }
    fn dirs(&mut self, dirs: &'c [Dir], inc: bool, f: &mut dyn FnMut(Ev<'c, 'c>, bool)) {
        for d in dirs {
            if let Some(def) = self.c.s.dirs.get(&d.name) {
                self.args(&d.args, &def.args, inc, f);
            }
        }
    }
    fn args(&mut self, a: &'c Args, defs: &'c [InputVal], inc: bool, f: &mut dyn FnMut(Ev<'c, 'c>, bool)) {
        for (n, v) in a {
            if let Some(def) = defs.iter().find(|d| d.name == *n) {
                f(Ev::Arg { def, name: n, val: v }, inc);
            }
        }
    }
    fn sels(&mut self, sels: &'c [Sel], parent: &'c TypeDef, inc: bool, f: &mut dyn FnMut(Ev<'c, 'c>, bool)) {
        for x in sels {
            match x {
                Sel::Field(fl) => {
                    let Some(def) = parent.field(&fl.name).filter(|_| oracle::is_composite(parent)) else { continue };
                    let i = inc && self.included(&fl.dirs);
                    self.dirs(&fl.dirs, i, f);
                    f(Ev::Enter { f: fl, def, parent }, i);
                    self.args(&fl.args, &def.args, i, f);
                    if let (Some(ss), Some(t)) = (&fl.sels, self.c.s.ty(def.ty.base())) {
                        self.sels(ss, t, i, f);
                    }
                    f(Ev::Leave, i);
                }
                Sel::Inline { cond, dirs, sels } => {
                    let i = inc && self.included(dirs);
                    self.dirs(dirs, i, f);
                    let t = match cond {
                        Some(n) => self.c.s.ty(n),
                        None => Some(parent),
                    };
                    if let Some(t) = t {
                        self.sels(sels, t, i, f);
                    }
                }
                Sel::Spread { name, dirs } => {
                    let i = inc && self.included(dirs);
                    self.dirs(dirs, i, f);
                    if self.frags.contains(name) {
                        continue;
                    }
                    if let Some(fr) = self.c.d.frag(name) {
                        if let Some(t) = self.c.s.ty(&fr.cond) {
                            self.frags.push(name.clone());
                            self.sels(&fr.sels, t, i, f);
                            self.frags.pop();
                        }
                    }
                }
            }
        }
    }
}
/// walks the chosen operation; true when some inclusion is left open
fn walk<'c>(c: &'c Ctx, f: &mut dyn FnMut(Ev<'c, 'c>, bool)) -> bool {
    let mut w = Walk { c, odd: false, frags: vec![] };
    w.dirs(&c.op.dirs, true, f);
    if let Some(root) = c.s.root(c.op.kind) {
        w.sels(&c.op.sels, root, true, f);
    }
    w.odd
}
fn resolution(got_err: bool, want_err: bool) -> Option<Out> {
    match (got_err, want_err) {
        (true, false) => Some(fail("operation not found", "the named (or only) operation was not resolved".into())),
        (false, true) => Some(fail("operation resolved", "an operation that does not exist, or is ambiguous, was resolved".into())),
        _ => None,
    }
}

// ------------------------------------------------------------------ P16
fn check_p16(c: &Case) -> Out {
    let (ctx, vars) = match ready(c) {
        Ready::Skip => return Out::Skip,
        Ready::NoOp(_, v) => (None, v),
        Ready::Go(x) => (Some(x.clone_vars()), x.vars.clone()),
    };
    let Some(got) = real!(c, &vars, QueryDepth, (), |x: usize| x) else { return Out::Skip };
    if let Some(o) = resolution(got.is_err(), ctx.is_none()) {
        return o;
    }
    let (Some(ctx), Ok(got)) = (ctx, got) else { return Out::Ok(None) };
    let (mut cur, mut max) = (0usize, 0usize);
    let odd = walk(&ctx, &mut |e, inc| match e {
        Ev::Enter { .. } if inc => {
            cur += 1;
            max = max.max(cur);
        }
        Ev::Leave if inc => cur -= 1,
        _ => {}
    });
    if odd {
        return Out::Skip;
    }
    if got != max {
        return fail("depth", format!("expected {max}, computed {got}"));
    }
    Out::Ok(if max > 1 { Some(c.get("document").to_string() + c.get("variables")) } else { None })
}
impl Ctx {
    fn clone_vars(&self) -> Ctx {
        Ctx { s: Sch::new(&self.s.sdl), d: self.d.clone(), op: self.op.clone(), vars: self.vars.clone() }
    }
}

// ------------------------------------------------------------------ P17
type N = u128;
struct Occ<'c> {
    f: &'c FieldSel,
    def: &'c FieldDef,
    /// the innermost type the selection is scoped to
    scope: &'c TypeDef,
    /// every type condition enclosing it within its selection set
    conds: Vec<&'c str>,
    mult: N,
}
struct Cost<'c> {
    w: Walk<'c>,
    relay: bool,
}
impl<'c> Cost<'c> {
    fn dirarg(def: &'c FieldDef, n: &str) -> Option<&'c Val> {
        def.dirs.iter().find(|d| d.name == "cost")?.args.iter().find(|a| a.0 == n).map(|a| &a.1)
    }
    fn base(&self, def: &FieldDef, s: &Sch) -> N {
        if !self.relay {
            return 1;
        }
        let d = def.dirs.iter().find(|d| d.name == "cost").and_then(|d| d.args.iter().find(|a| a.0 == "weight"));
        if let Some((_, Val::Str(t))) = d {
            if let Ok(w) = t.parse::<f32>() {
                return w.max(0.0) as usize as N;
            }
        }
        s.composite(def.ty.base()) as N
    }
    fn size(&self, f: &FieldSel, n: &str) -> Option<i64> {
        let (_, v) = f.args.iter().find(|a| a.0 == n)?;
        match v {
            Val::Int(i) => Some((*i).max(0) as i64),
            Val::Var(v) => {
                let d = self.w.c.op.vars.iter().find(|x| x.name == *v && matches!(&x.ty, Ty::Named(t, _) if t == "Int"))?;
                match self.w.c.vars.get(v) {
                    Some(j) => j.as_i64().filter(|i| i32::try_from(*i).is_ok()).map(|i| i.max(0)),
                    None => match d.default {
                        Some(Val::Int(i)) => Some(i.max(0) as i64),
                        _ => None,
                    },
                }
            }
            _ => None,
        }
    }
    /// multiplier this field gives its direct `edges`/`nodes`
    fn conn(&self, f: &FieldSel, def: &'c FieldDef) -> Option<N> {
        if !self.relay || Self::dirarg(def, "kind") != Some(&Val::Str("connection".into())) {
            return None;
        }
        let n = self.size(f, "first").max(self.size(f, "last")).unwrap_or(0);
        Some(if n == 0 { 0 } else { (2f32 * (n.max(2) as f32).ln()).floor() as usize as N })
    }
    fn collect(&mut self, sels: &'c [Sel], scope: &'c TypeDef, conds: &[&'c str], conn: Option<N>, out: &mut Vec<Occ<'c>>) {
        let c = self.w.c;
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if !self.w.included(&f.dirs) {
                        continue;
                    }
                    let Some(def) = scope.field(&f.name).filter(|_| oracle::is_composite(scope)) else { continue };
                    let mult = match conn {
                        Some(m) if f.name == "edges" || f.name == "nodes" => m,
                        _ => 1,
                    };
                    out.push(Occ { f, def, scope, conds: conds.to_vec(), mult });
                }
                Sel::Inline { cond, dirs, sels } => {
                    if !self.w.included(dirs) {
                        continue;
                    }
                    let mut cs = conds.to_vec();
                    let t = match cond {
                        Some(n) => {
                            cs.push(n);
                            c.s.ty(n)
                        }
                        None => Some(scope),
                    };
                    if let Some(t) = t {
                        self.collect(sels, t, &cs, conn, out);
                    }
                }
                Sel::Spread { name, dirs } => {
                    if !self.w.included(dirs) {
                        continue;
                    }
                    if let Some(fr) = c.d.frag(name) {
                        if let Some(t) = c.s.ty(&fr.cond) {
                            let mut cs = conds.to_vec();
                            cs.push(&fr.cond);
                            self.collect(&fr.sels, t, &cs, conn, out);
                        }
                    }
                }
            }
        }
    }
    /// the largest cost of these occurrences over the concrete types `among` (None: any type they mention);
    /// `exact`: an occurrence applies only when every enclosing condition does
    fn cost(&mut self, occ: &[Occ<'c>], among: Option<&BTreeSet<String>>, exact: bool) -> N {
        let c = self.w.c;
        let mut types = BTreeSet::new();
        for o in occ {
            types.extend(c.s.possible(&o.scope.name));
        }
        if let Some(a) = among {
            types.retain(|t| a.contains(t));
        }
        let mut best = 0;
        for t in types {
            let mut by: BTreeMap<&str, Vec<&Occ<'c>>> = BTreeMap::new();
            for o in occ {
                let fits = |n: &str| c.s.possible(n).contains(&t);
                if fits(&o.scope.name) && (!exact || o.conds.iter().all(|n| fits(n))) {
                    by.entry(o.f.resp()).or_default().push(o);
                }
            }
            let mut sum: N = 0;
            for os in by.values() {
                let base = os.iter().map(|o| self.base(o.def, &c.s)).max().unwrap_or(0);
                let mult = os.iter().map(|o| o.mult).max().unwrap_or(0);
                let mut kids = vec![];
                let mut allowed: Option<BTreeSet<String>> = None;
                for o in os {
                    if let (Some(ss), Some(ty)) = (&o.f.sels, c.s.ty(o.def.ty.base())) {
                        let conn = self.conn(o.f, o.def);
                        self.collect(ss, ty, &[], conn, &mut kids);
                        if exact {
                            let real = c.s.ty(&t).and_then(|x| x.field(&o.f.name)).map(|d| c.s.possible(d.ty.base())).unwrap_or_default();
                            allowed = Some(match allowed {
                                None => real,
                                Some(a) => a.intersection(&real).cloned().collect(),
                            });
                        }
                    }
                }
                let k = if kids.is_empty() { 0 } else { self.cost(&kids, allowed.as_ref(), exact) };
                sum = sum.saturating_add(base.saturating_add(k).saturating_mul(mult));
            }
            best = best.max(sum);
        }
        best
    }
}
fn check_p17(c: &Case) -> Out {
    let ctx = match ready(c) {
        Ready::Go(x) => x,
        _ => return Out::Skip,
    };
    let e = oracle::expect(&ctx.s, &ctx.d);
    for id in ["P09", "P12", "P13", "P10", "P11"] {
        if e.keys.get(id).map_or(false, |k| !k.must.is_empty() || !k.may.is_empty()) {
            return Out::Skip;
        }
    }
    for relay in [false, true] {
        if relay && e.conflict != Some(false) {
            continue;
        }
        let got = if relay {
            real!(c, &ctx.vars, ComplexityCost<'_, E<'_>, S<'_>, Vars, RelayCostComputer<'_, E<'_>, S<'_>, Vars>>, (), |x: usize| x)
        } else {
            real!(c, &ctx.vars, ComplexityCost<'_, E<'_>, S<'_>, Vars>, (), |x: usize| x)
        };
        let Some(got) = got else { return Out::Skip };
        let Ok(got) = got else { return fail("operation not found", "the operation was not resolved".into()) };
        let mut k = Cost { w: Walk { c: &ctx, odd: false, frags: vec![] }, relay };
        let mut occ = vec![];
        let Some(root) = ctx.s.root(ctx.op.kind) else { return Out::Skip };
        k.collect(&ctx.op.sels, root, &[], None, &mut occ);
        let hi = k.cost(&occ, None, false).min(usize::MAX as N);
        let lo = k.cost(&occ, Some(&ctx.s.possible(&root.name)), true).min(usize::MAX as N);
        if k.w.odd {
            return Out::Skip;
        }
        let g = got as N;
        if g < lo || g > hi {
            return fail(
                if relay { "relay cost" } else { "default cost" },
                format!("computed {got}, the largest response costs {lo} (scope-wise merging at most {hi})"),
            );
        }
    }
    Out::Ok(Some(c.get("document").to_string() + c.get("variables")))
}

// ------------------------------------------------------------------ P18
struct Rec {
    log: Vec<String>,
    path: Vec<String>,
    bad: Vec<String>,
}
impl<'a, E: ce::ExecutableDocument, S: cd::SchemaDefinition, V: VariableValues> Visitor<'a, E, S, V> for Rec {
    type ExtraInfo = ();
    fn new(_: &'a E::OperationDefinition, _: &'a S, _: &'a V, _: &'a Cache<'a, E, S>, _: ()) -> Self {
        Rec { log: vec![], path: vec![], bad: vec![] }
    }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, d: &'a S::InputValueDefinition) {
        if a.name() != d.name() {
            self.bad.push(format!("argument {} with definition {}", a.name(), d.name()));
        }
        self.log.push(format!("argument {}", a.name()));
    }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: cd::TypeDefinitionReference<'a, S::TypeDefinition>, inc: bool) {
        use bluejay_core::executable::Field as _;
        use cd::FieldDefinition as _;
        if f.name() != d.name() {
            self.bad.push(format!("field {} with definition {}", f.name(), d.name()));
        }
        self.path.push(f.response_name().to_string());
        self.log.push(format!("{} {} on {}", if inc { "included" } else { "excluded" }, self.path.join("."), t.name()));
    }
    fn leave_field(&mut self, f: &'a E::Field, _: &'a S::FieldDefinition, _: cd::TypeDefinitionReference<'a, S::TypeDefinition>, _: bool) {
        use bluejay_core::executable::Field as _;
        if self.path.pop().as_deref() != Some(f.response_name()) {
            self.bad.push(format!("left {} out of order", f.response_name()));
        }
    }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) {
        self.log.push(format!("variable {}", v.variable()));
    }
}
impl<'a, E: ce::ExecutableDocument, S: cd::SchemaDefinition, V: VariableValues> Analyzer<'a, E, S, V> for Rec {
    type Output = Rec;
    fn into_output(self) -> Rec {
        self
    }
}
fn from_json(j: &J) -> Val {
    match j {
        J::Null => Val::Null,
        J::Bool(b) => Val::Bool(*b),
        J::String(s) => Val::Str(s.clone()),
        J::Number(n) => match n.as_i64().and_then(|i| i32::try_from(i).ok()) {
            Some(i) => Val::Int(i),
            None => Val::Float(n.as_f64().unwrap_or(f64::NAN)),
        },
        J::Array(a) => Val::List(a.iter().map(from_json).collect()),
        J::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}
fn sizes(c: &Ctx, name: &str, v: &Val, limit: usize, out: &mut dyn FnMut(String)) {
    match v {
        Val::List(l) if l.len() > limit => out(format!("size {name} {}", l.len())),
        Val::List(l) => {
            for (i, x) in l.iter().enumerate() {
                sizes(c, &format!("{name}.{i}"), x, limit, out);
            }
        }
        Val::Obj(o) => {
            for (k, x) in o {
                sizes(c, &format!("{name}.{k}"), x, limit, out);
            }
        }
        Val::Var(n) => match c.vars.get(n) {
            Some(j) => sizes(c, name, &from_json(j), limit, out),
            None => {
                if let Some(d) = c.op.vars.iter().find(|v| v.name == *n).and_then(|v| v.default.as_ref()) {
                    sizes(c, name, d, limit, out)
                }
            }
        },
        _ => {}
    }
}
fn check_p18(c: &Case) -> Out {
    let (ctx, vars) = match ready(c) {
        Ready::Skip => return Out::Skip,
        Ready::NoOp(_, v) => (None, v),
        Ready::Go(x) => (Some(x.clone_vars()), x.vars.clone()),
    };
    let Some(rec) = real!(c, &vars, Rec, (), |x: Rec| x) else { return Out::Skip };
    if let Some(o) = resolution(rec.is_err(), ctx.is_none()) {
        return o;
    }
    let (Some(ctx), Ok(rec)) = (ctx, rec) else { return Out::Ok(None) };
    // inclusion
    let mut want: Vec<String> = vec![];
    let mut args: Vec<(String, &Val, bool)> = vec![];
    let odd = {
        let mut path: Vec<String> = vec![];
        walk(&ctx, &mut |e, inc| match e {
            Ev::Enter { f, parent, .. } => {
                path.push(f.resp().to_string());
                want.push(format!("{} {} on {}", if inc { "included" } else { "excluded" }, path.join("."), parent.name));
            }
            Ev::Leave => {
                path.pop();
            }
            Ev::Arg { name, val, .. } => {
                want.push(format!("argument {name}"));
                args.push((name.to_string(), val, inc));
            }
        })
    };
    if odd {
        return Out::Skip;
    }
    want.extend(ctx.op.vars.iter().map(|v| format!("variable {}", v.name)));
    if let Some(b) = rec.bad.first() {
        return fail("visit order", b.clone());
    }
    // every included selection must be visited as such; excluded ones may be visited, but only as excluded
    let mut n: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    for k in &want {
        n.entry(k).or_default().0 += 1;
    }
    for k in &rec.log {
        n.entry(k).or_default().1 += 1;
    }
    for (k, (w, g)) in &n {
        let lax = !k.starts_with("included") && !k.starts_with("variable") && g <= w;
        let lax = lax && (!k.starts_with("argument") || args.iter().any(|a| !a.2) || w == g);
        if w != g && !lax {
            return fail("inclusion", format!("{k}: expected {w} visits, got {g}\nall: {:?}", rec.log));
        }
    }
    // variable values
    let Some(got) = real!(c, &vars, VariableValuesAreValid<'_, E<'_>, S<'_>, Vars>, (), |x: Vec<VariableValueError<'_, E<'_>, Vars>>| {
        let mut out = vec![];
        for e in x {
            match e {
                VariableValueError::MissingValue { variable_definition } => out.push(format!("missing ${}", variable_definition.variable().as_ref())),
                VariableValueError::InvalidValue { variable_definition, errors, .. } => {
                    for e in &errors {
                        out.push(format!("invalid ${} {}", variable_definition.variable().as_ref(), super::coerce::key(e)));
                    }
                    if errors.is_empty() {
                        out.push(format!("invalid ${} without errors", variable_definition.variable().as_ref()));
                    }
                }
                VariableValueError::UnusedValue { key, .. } => out.push(format!("unused {key}")),
            }
        }
        out
    }) else {
        return Out::Skip;
    };
    let mut k = Keys::default();
    for v in &ctx.op.vars {
        if !ctx.s.input(v.ty.base()) {
            continue;
        }
        match ctx.vars.get(&v.name) {
            Some(j) => {
                let mut q = Keys::default();
                oracle::coerce(&ctx.s, &v.ty, &from_json(j), true, true, "", false, &mut q);
                k.must.extend(q.must.into_iter().map(|x| format!("invalid ${} {x}", v.name)));
                k.may.extend(q.may.into_iter().map(|x| format!("invalid ${} {x}", v.name)));
            }
            None if v.ty.req() && v.default.is_none() => k.must.push(format!("missing ${}", v.name)),
            None => {}
        }
    }
    for n in ctx.vars.keys() {
        if !ctx.op.vars.iter().any(|v| v.name == *n) {
            k.must.push(format!("unused {n}"));
        }
    }
    if let Some((class, d)) = k.judge(&got.unwrap_or_default()) {
        return fail(&format!("variables: {class}"), d);
    }
    // input sizes
    let limit: usize = c.get("limit").parse().unwrap_or(2);
    let Some(got) = real!(c, &vars, InputSize<'_, E<'_>, Vars>, limit, |x: Vec<_>| {
        x.iter().map(|o| format!("size {} {}", o.name, o.size)).collect::<BTreeSet<String>>()
    }) else {
        return Out::Skip;
    };
    let got = got.unwrap_or_default();
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    for (n, v, inc) in &args {
        sizes(&ctx, n, v, limit, &mut |x| {
            if *inc {
                must.insert(x);
            } else {
                may.insert(x);
            }
        });
    }
    if let Some(x) = must.iter().find(|x| !got.contains(*x)) {
        return fail("oversize list not reported", format!("limit {limit}: {x} not among {got:?}"));
    }
    if let Some(x) = got.iter().find(|x| !must.contains(*x) && !may.contains(*x)) {
        return fail("size reported wrongly", format!("limit {limit}: {x}"));
    }
    Out::Ok(if want.len() > 1 { Some(c.get("document").to_string() + c.get("variables")) } else { None })
}

// ------------------------------------------------------------------ P19
fn reason(d: &[Dir]) -> Option<String> {
    let d = d.iter().find(|d| d.name == "deprecated")?;
    Some(match d.args.iter().find(|a| a.0 == "reason") {
        Some((_, Val::Str(s))) => s.clone(),
        _ => "No longer supported".into(),
    })
}
fn norm(s: &str) -> &str {
    if s == "No longer supported." {
        "No longer supported"
    } else {
        s
    }
}
fn depr(c: &Ctx, t: &Ty, v: &Val, json: bool, name: &str, out: &mut dyn FnMut(String)) {
    match t {
        Ty::List(i, _) => match v {
            Val::List(l) => l.iter().for_each(|x| depr(c, i, x, json, name, out)),
            v => depr(c, i, v, json, name, out),
        },
        Ty::Named(n, _) => {
            let Some(td) = c.s.ty(n) else { return };
            match (td.kind, v) {
                (Kind::Enum, Val::Enum(e)) => {
                    if let Some(r) = td.values.iter().find(|x| x.name == *e).and_then(|x| reason(&x.dirs)) {
                        out(format!("EnumValue {name} {}", norm(&r)));
                    }
                }
                (Kind::Enum, Val::Str(e)) if json => {
                    if let Some(r) = td.values.iter().find(|x| x.name == *e).and_then(|x| reason(&x.dirs)) {
                        out(format!("EnumValue {name} {}", norm(&r)));
                    }
                }
                (Kind::Input, Val::Obj(o)) => {
                    for f in &td.inputs {
                        if let Some((_, x)) = o.iter().find(|x| x.0 == f.name) {
                            if let Some(r) = reason(&f.dirs) {
                                out(format!("InputField {} {}", f.name, norm(&r)));
                            }
                            depr(c, &f.ty, x, json, name, out);
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
fn check_p19(c: &Case) -> Out {
    let ctx = match ready(c) {
        Ready::Go(x) => x,
        _ => return Out::Skip,
    };
    let Some(got) = real!(c, &ctx.vars, Deprecation<'_, E<'_>, S<'_>, Vars>, (), |x: Vec<_>| {
        x.iter().map(|o| format!("{:?} {} {}", o.offense_type, o.name, norm(o.reason))).collect::<BTreeSet<String>>()
    }) else {
        return Out::Skip;
    };
    let Ok(got) = got else { return fail("operation not found", "the operation was not resolved".into()) };
    let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
    let mut dupkeys = false;
    let odd = walk(&ctx, &mut |e, inc| {
        let mut add = |x: String| {
            if inc {
                must.insert(x);
            } else {
                may.insert(x);
            }
        };
        match e {
            Ev::Enter { f, def, .. } => {
                if let (Some(r), true) = (reason(&def.dirs), inc) {
                    add(format!("Field {} {}", f.name, norm(&r)));
                }
            }
            Ev::Arg { def, name, val } => {
                dupkeys |= has_dup_keys(val);
                if let Some(r) = reason(&def.dirs) {
                    add(format!("Argument {name} {}", norm(&r)));
                }
                depr(&ctx, &def.ty, val, false, name, &mut add);
            }
            Ev::Leave => {}
        }
    });
    if odd || dupkeys {
        return Out::Skip;
    }
    for v in &ctx.op.vars {
        if let Some(j) = ctx.vars.get(&v.name) {
            depr(&ctx, &v.ty, &from_json(j), true, &v.name, &mut |x| {
                must.insert(x);
            });
        }
        if let Some(d) = &v.default {
            if has_dup_keys(d) {
                return Out::Skip;
            }
            let set = if ctx.vars.contains_key(&v.name) { &mut may } else { &mut must };
            depr(&ctx, &v.ty, d, false, &v.name, &mut |x| {
                set.insert(x);
            });
        }
    }
    if let Some(x) = must.iter().find(|x| !got.contains(*x)) {
        return fail(&format!("{} not reported", x.split(' ').next().unwrap_or("")), format!("{x} not among {got:?}"));
    }
    if let Some(x) = got.iter().find(|x| !must.contains(*x) && !may.contains(*x)) {
        return fail(&format!("{} reported wrongly", x.split(' ').next().unwrap_or("")), x.clone());
    }
    Out::Ok(if must.is_empty() { None } else { Some(c.get("document").to_string() + c.get("variables")) })
}
fn has_dup_keys(v: &Val) -> bool {
    match v {
        Val::Obj(o) => dup(o.iter().map(|x| x.0.as_str())) || o.iter().any(|x| has_dup_keys(&x.1)),
        Val::List(l) => l.iter().any(has_dup_keys),
        _ => false,
    }
}

// ------------------------------------------------------------------ fixed cases
fn case(s: &str, d: &str, v: &str, op: &str, limit: &str) -> Case {
    Case::default().gql("schema", s.into()).gql("document", d.into()).raw("variables", v.into()).fixed("operation", op.into()).fixed("limit", limit.into())
}
const S1: &str = "directive @cost(weight:String kind:String) on FIELD_DEFINITION interface N{i(x:Int l:[Int] o:In):Int n:N} \
  type Query implements N{i(x:Int l:[Int] o:In e:E @deprecated(reason:\"ra\")):Int n:N r:Query u:U c(first:Int last:Int):Conn @cost(weight:\"2.0\" kind:\"connection\") \
    old:Int @deprecated d(e:[[E!]] o:[In]):Int @deprecated(reason:\"rd\") big:Query @cost(weight:\"1e30\")} \
  type B implements N{i(x:Int l:[Int] o:In):Int n:N q:Query @cost(weight:\"7\")} \
  type Conn{edges:[Edge!]! nodes:[Query!]! @cost(weight:\"3\") total:Int @cost(weight:\"4\")} type Edge{node:Query cursor:Int} \
  union U=Query|B enum E{A B @deprecated(reason:\"rb\")} input In{a:[Int] b:[In] c:In o:Int @deprecated(reason:\"ro\") e:E m:[[Int]]}";
fn fixed(id: &str) -> Vec<Case> {
    let flow: &[(&str, &str, &str, &str)] = &[
        ("{r{r{i}}i}", "{}", "", "1"),
        ("query($b:Boolean=false){r @include(if:$b){r{i}}i}", "{}", "", "1"),
        ("query($b:Boolean=true){r @skip(if:$b){r{i}}i}", "{\"b\":false}", "", "1"),
        ("query($b:Boolean!){...F @skip(if:$b) r{...F}} fragment F on Query{r{r{i}}}", "{\"b\":true}", "", "1"),
        ("query($b:Boolean!){... on Query @include(if:$b){r{r{r{i}}}} i}", "{\"b\":false}", "", "1"),
        ("{r @skip(if:false) @include(if:true){i} a:r @skip(if:true) @include(if:true){i r{i}} b:r @skip(if:false) @include(if:false){i}}", "{}", "", "1"),
        ("{...F} fragment F on Query{r{...F i} i}", "{}", "", "1"),
        ("{...F ...G} fragment F on Query{r{...G}} fragment G on Query{r{r{i}}}", "{}", "", "1"),
        ("query A{i} query B{r{i}}", "{}", "B", "1"),
        ("query A{i} query B{r{i}}", "{}", "", "1"),
        ("query A{i} query B{r{i}}", "{}", "C", "1"),
        ("query A{i}", "{}", "", "1"),
        ("{u{__typename ... on B{n{n{i}}}}}", "{}", "", "1"),
        ("query($l:[Int]=[1 2 3]){i(l:$l)}", "{}", "", "2"),
        ("query($l:[Int]=[1 2 3]$x:Int){i(l:$l x:$x)}", "{\"l\":[1]}", "", "2"),
        ("query($v:[Int]=[1 2 3]$l:[Int]){i(l:$v)}", "{}", "", "2"),
        ("{i(o:{a:[1 2 3] b:[{a:[1 2 3 4]} {m:[[1 2 3][4]]}] c:{a:[]}})}", "{}", "", "2"),
        ("query($o:In){i(o:$o) r{i(o:{c:$o})}}", "{\"o\":{\"a\":[1,2,3],\"b\":[{\"a\":[1,2,3]}]}}", "", "2"),
        ("query($a:Int!$b:Int!=1$c:[Int!]!){i(x:$a) r{i(x:$b l:$c)}}", "{}", "", "2"),
        ("query($a:Int!$c:[Int!]!$o:In){i(x:$a) r{i(o:$o l:$c)}}", "{\"a\":null,\"c\":[1,null],\"o\":{\"a\":\"x\",\"zz\":1},\"u\":1}", "", "2"),
        ("query($c:[Int!]){r{i(l:$c)}}", "{\"c\":1}", "", "2"),
        ("query($c:Zzz $d:Query){i}", "{\"c\":1}", "", "2"),
        ("query($b:Boolean){i @skip(if:$b)}", "{}", "", "2"),
        ("query($b:Boolean=true){r @skip(if:$b){r{i}} i @include(if:$b)}", "{\"b\":null}", "", "2"),
        ("query($b:Boolean=false){i @skip(if:$b) r @include(if:$b){r{i}}}", "{\"b\":null}", "", "2"),
        ("query($b:Boolean=true){i @skip(if:$b) @include(if:$b)}", "{}", "", "2"),
    ];
    let cost: &[(&str, &str)] = &[
        ("{i r{i} a:r{r{i}}}", "{}"),
        ("{c(first:10){edges{node{r{i}} cursor} nodes{i} total}}", "{}"),
        ("query($n:Int){c(first:$n last:3){edges{node{i}} ...F}} fragment F on Conn{nodes{r{i}}}", "{\"n\":50}"),
        ("query($n:Int=5){c(last:$n){edges{node{i}}}}", "{}"),
        ("{c(first:0){edges{node{i}} total}}", "{}"),
        ("{c(first:-3){edges{node{i}} total}}", "{}"),
        ("{c{edges{node{i}} total}}", "{}"),
        ("{c(first:10 last:100){e:edges{node{i}} edges{cursor} x:total}}", "{}"),
        ("{n{i ... on Query{r{r{i}}} ... on B{q{i}}}}", "{}"),
        ("{u{... on Query{r{i}} ... on B{q{i}} ... on N{n{i}}}}", "{}"),
        ("{r{r{i}} r{r{i} n{i}} ...F} fragment F on Query{r{r{r{i}}}}", "{}"),
        ("query($b:Boolean=false){r @include(if:$b){r{i}} r{n{i}}}", "{}"),
        ("{big{i} a:big{i}}", "{}"),
        ("{c(first:2147483647){nodes{c(first:2147483647){nodes{big{i}}}}}}", "{}"),
        ("{n{... on N{... on B{q{i}}}}}", "{}"),
    ];
    let dep: &[(&str, &str)] = &[
        ("{old d(e:[[B] [A]] o:{o:1 b:[{e:B} {c:{o:null}}]})}", "{}"),
        ("query($e:[[E!]]$o:[In]=[{o:1}]){d(e:$e o:$o)}", "{\"e\":[[\"A\"],[\"B\"]]}"),
        ("query($e:[[E!]]$o:[In]=[{o:1}]){d(e:$e o:$o)}", "{\"o\":[{\"c\":{\"e\":\"B\"}}],\"e\":\"B\"}"),
        ("{r @skip(if:true){old} i(e:A)}", "{}"),
        ("{...F} fragment F on Query{r{...G}} fragment G on Query{x:old i(e:B)}", "{}"),
        ("{d(e:B o:{e:A})}", "{}"),
        ("{d(e:\"B\")}", "{}"),
    ];
    match id {
        "P16" | "P18" => flow.iter().map(|(d, v, o, l)| case(S1, d, v, o, l)).collect(),
        "P17" => cost.iter().map(|(d, v)| case(S1, d, v, "", "1")).collect(),
        _ => dep.iter().map(|(d, v)| case(S1, d, v, "", "1")).collect(),
    }
}
