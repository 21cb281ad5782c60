//! P21, P22: the schema comparator against an independent diff of the two schemas.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::{dump, parse, Prop};
use bluejay_core::definition::{
    EnumTypeDefinition as _, EnumValueDefinition as _, FieldDefinition as _, InputObjectTypeDefinition as _, InputValueDefinition as _,
    InterfaceImplementation as _, ObjectTypeDefinition as _, SchemaDefinition as Sd, UnionMemberType as _, UnionTypeDefinition as _,
    DirectiveDefinition as _,
};
use bluejay_core::Argument as _;
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    Parse,
};
use bluejay_schema_comparator::{compare, Change};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:literal) => {
            Prop {
                id: $id,
                rule: "a random schema and the same schema after 0-8 random edits and reorderings; non-trivial: both are accepted",
                gen,
                check: |c| check(c, $id),
                fixed,
            }
        };
    }
    vec![p!("P21"), p!("P22")]
}

// ------------------------------------------------------------------ edits
fn edit_ty(r: &mut Rng, t: &Ty, other: &[String]) -> Ty {
    match r.below(4) {
        0 => t.with_req(!t.req()),
        1 => match t {
            Ty::List(i, q) if r.pc(60) => Ty::List(Box::new(edit_ty(r, i, other)), *q),
            Ty::List(i, _) => (**i).clone(),
            n => Ty::List(Box::new(n.clone()), r.pc(50)),
        },
        2 => match t {
            Ty::List(i, q) => Ty::List(Box::new(edit_ty(r, i, other)), *q),
            n => n.with_req(!n.req()),
        },
        _ => match t {
            Ty::List(i, q) => Ty::List(Box::new(edit_ty(r, i, other)), *q),
            Ty::Named(_, q) => Ty::Named(r.pick(other).clone(), *q),
        },
    }
}
fn edit_desc(r: &mut Rng, d: &mut Option<String>) {
    *d = if r.pc(40) { None } else { Some(format!("text {}", r.below(3))) };
}
fn edit_dirs(r: &mut Rng, s: &Sdl, d: &mut Vec<Dir>, loc: &str) {
    if !d.is_empty() && r.pc(40) {
        let i = r.below(d.len());
        d.remove(i);
        return;
    }
    if !d.is_empty() && r.pc(50) {
        let i = r.below(d.len());
        let dep = d[i].name == "deprecated";
        let a = &mut d[i].args;
        if !a.is_empty() && r.pc(50) {
            let k = r.below(a.len());
            a.remove(k);
        } else if !a.is_empty() {
            let k = r.below(a.len());
            a[k].1 = gen::any_const(r, 1);
        } else {
            a.push((if dep { "reason".into() } else { format!("a{}", r.below(2)) }, Val::Int(1)));
        }
        return;
    }
    let mut c: Vec<String> = s.dirdefs.iter().filter(|x| x.locs.iter().any(|l| l == loc)).map(|x| x.name.clone()).collect();
    if ["FIELD_DEFINITION", "ENUM_VALUE", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION"].contains(&loc) {
        c.push("deprecated".into());
    }
    if loc == "SCALAR" {
        c.push("specifiedBy".into());
    }
    c.retain(|n| d.iter().all(|x| &x.name != n));
    if !c.is_empty() {
        let name = r.pick(&c).clone();
        let args = if name == "specifiedBy" {
            vec![("url".to_string(), Val::Str("u".into()))]
        } else if name.starts_with('d') && name.len() == 2 && r.pc(50) {
            vec![("a0".to_string(), gen::any_const(r, 1))]
        } else {
            vec![]
        };
        d.push(Dir { name, args });
    }
}
fn leafs(s: &Sdl) -> Vec<String> {
    let mut v: Vec<String> = crate::oracle::BUILTIN_SCALARS.iter().map(|x| x.to_string()).collect();
    v.extend(s.types.iter().filter(|t| matches!(t.kind, Kind::Scalar | Kind::Enum)).map(|t| t.name.clone()));
    v
}
fn inputs(s: &Sdl) -> Vec<String> {
    let mut v = leafs(s);
    v.extend(s.types.iter().filter(|t| t.kind == Kind::Input).map(|t| t.name.clone()));
    v
}
fn outputs(s: &Sdl) -> Vec<String> {
    let mut v = leafs(s);
    v.extend(s.types.iter().filter(|t| matches!(t.kind, Kind::Object | Kind::Interface | Kind::Union)).map(|t| t.name.clone()));
    v
}
fn some_value(r: &mut Rng, s: &Sdl, t: &Ty) -> Val {
    if s.ty(t.base()).map_or(false, |t| t.kind == Kind::Input) {
        gen::any_const(r, 2)
    } else {
        gen::value_of(r, s, t, 2, 0)
    }
}
fn edit_inputs(r: &mut Rng, s: &Sdl, v: &mut Vec<InputVal>, loc: &str, pool: &[String], nonempty: bool) {
    let k = r.below(9);
    if k == 0 || v.is_empty() {
        let name = format!("n{}", r.below(3));
        if v.iter().all(|x| x.name != name) {
            let t = Ty::Named(r.pick(pool).clone(), r.pc(50));
            let default = if r.pc(40) { Some(some_value(r, s, &t)) } else { None };
            let at = r.below(v.len() + 1);
            v.insert(at, InputVal { desc: None, name, ty: t, default, dirs: vec![] });
        }
        return;
    }
    let i = r.below(v.len());
    match k {
        1 if !nonempty || v.len() > 1 => {
            v.remove(i);
        }
        1 | 2 => edit_desc(r, &mut v[i].desc),
        3 | 4 => v[i].ty = edit_ty(r, &v[i].ty.clone(), pool),
        5 | 6 => {
            let d = if r.pc(30) { None } else { Some(if r.pc(60) { some_value(r, s, &v[i].ty) } else { gen::any_const(r, 2) }) };
            v[i].default = d;
        }
        _ => edit_dirs(r, s, &mut v[i].dirs, loc),
    }
}
fn edit(r: &mut Rng, s: &mut Sdl) {
    let snap = s.clone();
    let (inp, out) = (inputs(&snap), outputs(&snap));
    match r.below(14) {
        // directive definitions
        0 => {
            if s.dirdefs.is_empty() || r.pc(20) {
                let name = format!("d{}", 3 + r.below(4));
                if s.dirdefs.iter().all(|d| d.name != name) {
                    s.dirdefs.push(DirDef { desc: None, name, args: vec![], repeatable: false, locs: vec!["FIELD".into(), "OBJECT".into()] });
                }
                return;
            }
            let i = r.below(s.dirdefs.len());
            if r.pc(25) {
                s.dirdefs.remove(i);
                let n = snap.dirdefs[i].name.clone();
                all_dirs(s, &mut |d| d.retain(|x| x.name != n));
                return;
            }
            let d = &mut s.dirdefs[i];
            match r.below(6) {
                0 => edit_desc(r, &mut d.desc),
                1 => {
                    let l = r.pick(&crate::parse::LOCATIONS).to_string();
                    if !d.locs.contains(&l) {
                        d.locs.push(l)
                    }
                }
                2 if d.locs.len() > 1 => {
                    let k = r.below(d.locs.len());
                    d.locs.remove(k);
                }
                3 if r.pc(30) => d.repeatable = !d.repeatable,
                _ => edit_inputs(r, &snap, &mut d.args, "ARGUMENT_DEFINITION", &leafs(&snap), false),
            }
        }
        // whole types
        1 => {
            let i = r.below(s.types.len());
            let n = s.types[i].name.clone();
            if snap.schema.iter().any(|d| d.roots.iter().any(|x| x.1 == n)) || n == "Query" {
                return;
            }
            s.types.remove(i);
            purge(s, &n);
        }
        2 => {
            let k = r.below(6);
            let name = format!("X{}", r.below(3));
            if snap.ty(&name).is_none() {
                s.types.push(fresh(k, &name, &snap));
            }
        }
        3 => {
            // another kind under the same name
            let i = r.below(s.types.len());
            let n = s.types[i].name.clone();
            let k = match s.types[i].kind {
                Kind::Object | Kind::Interface | Kind::Union if r.pc(60) => [1, 2, 3][r.below(3)],
                Kind::Scalar | Kind::Enum if r.pc(70) => [0, 4][r.below(2)],
                _ => r.below(6),
            };
            if n != "Query" {
                s.types[i] = fresh(k, &n, &snap);
            }
        }
        // the schema definition
        4 => {
            if let Some(d) = s.schema.first_mut() {
                edit_dirs(r, &snap, &mut d.dirs, "SCHEMA");
            }
        }
        // one type
        _ => {
            let i = r.below(s.types.len());
            let t = &mut s.types[i];
            let loc = kind_loc(t.kind);
            if r.pc(12) {
                return edit_desc(r, &mut t.desc);
            }
            if r.pc(15) {
                return edit_dirs(r, &snap, &mut t.dirs, loc);
            }
            match t.kind {
                Kind::Scalar => edit_dirs(r, &snap, &mut t.dirs, loc),
                Kind::Enum => {
                    let k = r.below(t.values.len());
                    match r.below(4) {
                        0 => {
                            let name = format!("W{}", r.below(3));
                            if t.values.iter().all(|v| v.name != name) {
                                t.values.push(EnumVal { desc: None, name, dirs: vec![] })
                            }
                        }
                        1 if t.values.len() > 1 => {
                            t.values.remove(k);
                        }
                        2 => edit_desc(r, &mut t.values[k].desc),
                        _ => edit_dirs(r, &snap, &mut t.values[k].dirs, "ENUM_VALUE"),
                    }
                }
                Kind::Input => edit_inputs(r, &snap, &mut t.inputs, "INPUT_FIELD_DEFINITION", &inp, true),
                Kind::Union => {
                    let os: Vec<String> = snap.types.iter().filter(|t| t.kind == Kind::Object).map(|t| t.name.clone()).collect();
                    let o = r.pick(&os).clone();
                    if let Some(k) = t.members.iter().position(|m| m == &o) {
                        if t.members.len() > 1 {
                            t.members.remove(k);
                        }
                    } else {
                        t.members.push(o)
                    }
                }
                Kind::Object | Kind::Interface => {
                    if r.pc(if t.kind == Kind::Object { 15 } else { 3 }) {
                        let is: Vec<String> =
                            snap.types.iter().filter(|x| x.kind == Kind::Interface && x.name != t.name).map(|t| t.name.clone()).collect();
                        if !is.is_empty() {
                            let o = r.pick(&is).clone();
                            if let Some(k) = t.interfaces.iter().position(|m| m == &o) {
                                t.interfaces.remove(k);
                            } else {
                                t.interfaces.push(o)
                            }
                            return;
                        }
                    }
                    let k = r.below(t.fields.len());
                    match r.below(8) {
                        0 => {
                            let name = format!("g{}", r.below(3));
                            if t.field(&name).is_none() {
                                t.fields.push(FieldDef { desc: None, name, args: vec![], ty: Ty::Named(r.pick(&out).clone(), r.pc(50)), dirs: vec![] })
                            }
                        }
                        1 if t.fields.len() > 1 => {
                            t.fields.remove(k);
                        }
                        2 => edit_desc(r, &mut t.fields[k].desc),
                        3 => t.fields[k].ty = edit_ty(r, &t.fields[k].ty.clone(), &out),
                        4 => edit_dirs(r, &snap, &mut t.fields[k].dirs, "FIELD_DEFINITION"),
                        _ => edit_inputs(r, &snap, &mut t.fields[k].args, "ARGUMENT_DEFINITION", &inp, false),
                    }
                }
            }
        }
    }
}
fn kind_loc(k: Kind) -> &'static str {
    match k {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    }
}
fn fresh(k: usize, name: &str, s: &Sdl) -> TypeDef {
    let kind = [Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input][k];
    let mut t = TypeDef::new(kind, name);
    match kind {
        Kind::Scalar => {}
        Kind::Object | Kind::Interface => {
            t.fields.push(FieldDef { desc: None, name: "x".into(), args: vec![], ty: Ty::Named("Int".into(), false), dirs: vec![] })
        }
        Kind::Union => t.members.push(
            s.types.iter().find(|t| t.kind == Kind::Object && t.name != name).map(|t| t.name.clone()).unwrap_or("Query".into()),
        ),
        Kind::Enum => t.values.push(EnumVal { desc: None, name: "V0".into(), dirs: vec![] }),
        Kind::Input => {
            t.inputs.push(InputVal { desc: None, name: "f0".into(), ty: Ty::Named("Int".into(), false), default: None, dirs: vec![] })
        }
    }
    t
}
fn all_dirs(s: &mut Sdl, f: &mut dyn FnMut(&mut Vec<Dir>)) {
    for d in &mut s.schema {
        f(&mut d.dirs)
    }
    for d in &mut s.dirdefs {
        d.args.iter_mut().for_each(|a| f(&mut a.dirs))
    }
    for t in &mut s.types {
        f(&mut t.dirs);
        t.values.iter_mut().for_each(|v| f(&mut v.dirs));
        t.inputs.iter_mut().for_each(|v| f(&mut v.dirs));
        for x in &mut t.fields {
            f(&mut x.dirs);
            x.args.iter_mut().for_each(|v| f(&mut v.dirs));
        }
    }
}
/// drop what refers to the removed type
fn purge(s: &mut Sdl, n: &str) {
    for d in &mut s.dirdefs {
        d.args.retain(|a| a.ty.base() != n);
    }
    for t in &mut s.types {
        t.interfaces.retain(|i| i != n);
        t.members.retain(|i| i != n);
        t.inputs.retain(|i| i.ty.base() != n);
        t.fields.retain(|f| f.ty.base() != n);
        for f in &mut t.fields {
            f.args.retain(|a| a.ty.base() != n);
        }
    }
    let empty: Vec<String> = s
        .types
        .iter()
        .filter(|t| match t.kind {
            Kind::Union => t.members.is_empty(),
            Kind::Input => t.inputs.is_empty(),
            Kind::Object | Kind::Interface => t.fields.is_empty(),
            _ => false,
        })
        .map(|t| t.name.clone())
        .collect();
    for e in empty {
        if let Some(k) = s.types.iter().position(|t| t.name == e) {
            s.types.remove(k);
            purge(s, &e);
        }
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}
fn reorder(r: &mut Rng, s: &mut Sdl) {
    shuffle(r, &mut s.types);
    shuffle(r, &mut s.dirdefs);
    for t in &mut s.types {
        shuffle(r, &mut t.fields);
        shuffle(r, &mut t.inputs);
        shuffle(r, &mut t.values);
        shuffle(r, &mut t.members);
        shuffle(r, &mut t.interfaces);
        shuffle(r, &mut t.dirs);
        for f in &mut t.fields {
            shuffle(r, &mut f.args);
            shuffle(r, &mut f.dirs);
        }
    }
    for d in &mut s.dirdefs {
        shuffle(r, &mut d.locs);
        shuffle(r, &mut d.args);
    }
}
fn dedup_dirs(s: &mut Sdl) {
    all_dirs(s, &mut |d| {
        let mut seen = std::collections::BTreeSet::new();
        d.retain(|x| seen.insert(x.name.clone()));
    })
}
fn gen(r: &mut Rng) -> Case {
    let cfg = gen::SchemaCfg { descs: r.pc(50), weird_descs: false, dirs: r.pc(60), oneof: r.pc(30), explicit_roots: r.pc(40) };
    let mut a = gen::schema(r, &cfg);
    dedup_dirs(&mut a);
    let mut b = a.clone();
    for _ in 0..[0, 1, 1, 1, 2, 3, 5, 8][r.below(8)] {
        edit(r, &mut b);
    }
    if r.pc(40) {
        reorder(r, &mut b);
    }
    let (a, b) = if r.pc(50) { (a, b) } else { (b, a) };
    Case::default().gql("old", a.text()).gql("new", b.text())
}
fn fixed() -> Vec<Case> {
    let q = "type Query{a:Int} ";
    let l: &[(&str, &str)] = &[
        ("scalar S", "scalar S @specifiedBy(url:\"x\")"),
        ("scalar S @specifiedBy(url:\"y\")", "scalar S @specifiedBy(url:\"x\")"),
        ("directive @d on OBJECT", "directive @d(a:Int! b:Int c:Int!=1) on OBJECT"),
        ("directive @d(a:Int! b:Int) on OBJECT", "directive @d on OBJECT"),
        ("directive @d(a:Int b:Int!) on OBJECT", "directive @d(b:Int=3 c:Int) on OBJECT|ENUM"),
        ("directive @d(a:Int) on OBJECT type T @d(a:1){b:Int}", "directive @d(a:Int) on OBJECT type T @d{b:Int}"),
        ("directive @d(a:Int b:Int) on OBJECT type T @d(a:1){b:Int}", "directive @d(a:Int b:Int) on OBJECT type T @d(b:1){b:Int}"),
        ("directive @d on INPUT_FIELD_DEFINITION|INPUT_OBJECT input T {b:Int c:Int @d}", "directive @d on INPUT_FIELD_DEFINITION|INPUT_OBJECT input T @d{b:Int @d c:Int}"),
        ("directive @d(a:Int) on SCHEMA schema @d(a:1){query:Query}", "directive @d(a:Int) on SCHEMA schema @d(a:2){query:Query}"),
        ("directive @d on ARGUMENT_DEFINITION directive @e(a:Int @d b:Int) on FIELD", "directive @d on ARGUMENT_DEFINITION directive @e(a:Int b:Int @d) on FIELD"),
        ("interface I{a:Int} interface J{a:Int}", "interface I{a:Int} interface J implements I{a:Int}"),
        ("directive @d repeatable on OBJECT", "directive @d on OBJECT"),
        ("type T{a:Int} schema{query:Query}", "type T{a:Int} schema{query:T}"),
        ("enum E{A B @deprecated}", "enum E{A C}"),
        ("type T{a(x:[Int!]):[[Int]]}", "type T{a(x:[Int]):[[Int]!]}"),
        ("type T{a(x:[Int]):[[Int]!]}", "type T{a(x:[Int!]):[[Int]]}"),
        ("input T{a:Int!=1 b:I2={c:1 d:2}} input I2{c:Int d:Int}", "input T{a:Int! b:I2={d:2 c:1}} input I2{c:Int d:Int}"),
    ];
    let mut v: Vec<Case> = l.iter().map(|(a, b)| Case::default().gql("old", format!("{q}{a}")).gql("new", format!("{q}{b}"))).collect();
    // every pair of types with up to two lists over two base types, in every position that has a type
    let mut tys: Vec<String> = vec![];
    for b in ["Int", "ID"] {
        let mut layer = vec![b.to_string(), format!("{b}!")];
        for _ in 0..3 {
            tys.extend(layer.clone());
            layer = layer.iter().flat_map(|t| [format!("[{t}]"), format!("[{t}]!")]).collect();
        }
    }
    let n = tys.len();
    for (pos, pre, post) in [("type T{", "", "}"), ("interface T{", "", "}"), ("input T{", "", "}"), ("type T{", "f(x:", "):Int}"), ("directive @d(", "", ") on FIELD")] {
        let one = |i: usize, t: &str| if pre.is_empty() { format!("f{i}:{t} ") } else { format!("g{i}(x:{t}):Int ") };
        let close = if pre.is_empty() { post } else { "}" };
        for i in 0..n {
            let (mut a, mut b) = (String::new(), String::new());
            for j in 0..n {
                a += &one(j, &tys[i]);
                b += &one(j, &tys[j]);
            }
            v.push(Case::default().gql("old", format!("{q}{pos}{a}{close}")).gql("new", format!("{q}{pos}{b}{close}")));
        }
    }
    v
}

// ------------------------------------------------------------------ oracle
type Bag = BTreeMap<String, usize>;
#[derive(Default, Debug)]
struct Exp {
    /// key -> (count, criticality: 'B', 'D', 'S')
    must: BTreeMap<String, (usize, char)>,
    /// differences the comparator has no change for
    gaps: Vec<&'static str>,
}
impl Exp {
    fn add(&mut self, k: String, c: char) {
        let e = self.must.entry(k).or_insert((0, c));
        e.0 += 1;
        e.1 = c;
    }
}
fn canon(v: &Val) -> Val {
    match v {
        Val::List(l) => Val::List(l.iter().map(canon).collect()),
        Val::Obj(o) => {
            let mut o: Vec<(String, Val)> = o.iter().map(|(k, v)| (k.clone(), canon(v))).collect();
            o.sort_by(|a, b| a.0.cmp(&b.0));
            Val::Obj(o)
        }
        v => v.clone(),
    }
}
/// every value of `new` is a value of `old`
fn out_ok(old: &Ty, new: &Ty) -> bool {
    (!old.req() || new.req())
        && match (old, new) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => out_ok(a, b),
            _ => false,
        }
}
fn txt(d: &Option<Val>) -> String {
    d.as_ref().map_or("-".into(), |v| canon(v).text())
}
fn diff_dirs(e: &mut Exp, loc: &str, member: &str, old: &[Dir], new: &[Dir]) {
    for o in old {
        match new.iter().find(|n| n.name == o.name) {
            None => e.add(format!("DirectiveRemoved {loc} {member} @{}", dir_txt(o)), 'B'),
            Some(n) => {
                for (k, v) in &o.args {
                    match n.args.iter().find(|x| &x.0 == k) {
                        None => e.add(format!("DirectiveArgumentRemoved @{}.{k}={}", dir_txt(o), canon(v).text()), 'S'),
                        Some((_, w)) if canon(v) != canon(w) => {
                            e.add(format!("DirectiveArgumentValueChanged @{}.{k}={}->{}", dir_txt(o), canon(v).text(), canon(w).text()), 'S')
                        }
                        _ => {}
                    }
                }
                for (k, v) in &n.args {
                    if o.args.iter().all(|x| &x.0 != k) {
                        e.add(format!("DirectiveArgumentAdded @{}.{k}={}", dir_txt(n), canon(v).text()), 'S');
                    }
                }
            }
        }
    }
    for n in new {
        if old.iter().all(|o| o.name != n.name) {
            e.add(format!("DirectiveAdded {loc} {member} @{}", dir_txt(n)), 'S');
        }
    }
}
fn dir_txt(d: &Dir) -> String {
    format!("{}{}", d.name, args_text(&d.args).replace(' ', ""))
}
struct InputKinds {
    added: &'static str,
    removed: &'static str,
    desc: &'static str,
    ty: &'static str,
    default: &'static str,
    loc: &'static str,
}
const ARGS: InputKinds = InputKinds {
    added: "FieldArgumentAdded",
    removed: "FieldArgumentRemoved",
    desc: "FieldArgumentDescriptionChanged",
    ty: "FieldArgumentTypeChanged",
    default: "FieldArgumentDefaultValueChanged",
    loc: "ARGUMENT_DEFINITION",
};
const INS: InputKinds = InputKinds {
    added: "InputFieldAdded",
    removed: "InputFieldRemoved",
    desc: "InputFieldDescriptionChanged",
    ty: "InputFieldTypeChanged",
    default: "InputFieldDefaultValueChanged",
    loc: "INPUT_FIELD_DEFINITION",
};
const DARGS: InputKinds = InputKinds {
    added: "DirectiveDefinitionArgumentAdded",
    removed: "DirectiveDefinitionArgumentRemoved",
    desc: "DirectiveDefinitionArgumentDescriptionChanged",
    ty: "DirectiveDefinitionArgumentTypeChanged",
    default: "DirectiveDefinitionArgumentDefaultValueChanged",
    loc: "ARGUMENT_DEFINITION",
};
fn d(x: &Option<String>) -> String {
    x.clone().unwrap_or("-".into())
}
fn diff_inputs(e: &mut Exp, k: &InputKinds, path: &str, old: &[InputVal], new: &[InputVal]) {
    for o in old {
        let p = format!("{path}.{}", o.name);
        let Some(n) = new.iter().find(|n| n.name == o.name) else {
            e.add(format!("{} {p}", k.removed), 'B');
            continue;
        };
        if o.desc != n.desc {
            e.add(format!("{} {p} {}->{}", k.desc, d(&o.desc), d(&n.desc)), 'S');
        }
        if o.ty != n.ty {
            // every value of the old type must be accepted by the new one
            e.add(format!("{} {p} {}->{}", k.ty, o.ty.text(), n.ty.text()), if out_ok(&n.ty, &o.ty) { 'S' } else { 'B' });
        }
        if txt(&o.default) != txt(&n.default) {
            e.add(format!("{} {p} {}->{}", k.default, txt(&o.default), txt(&n.default)), 'D');
        }
        diff_dirs(e, k.loc, &o.name, &o.dirs, &n.dirs);
    }
    for n in new {
        if old.iter().all(|o| o.name != n.name) {
            e.add(format!("{} {path}.{}", k.added, n.name), if n.required() { 'B' } else { 'S' });
        }
    }
}
fn diff(old: &Sdl, new: &Sdl) -> Exp {
    let mut e = Exp::default();
    let noname: Vec<Dir> = vec![];
    let (od, nd) = (old.schema.first().map_or(&noname, |d| &d.dirs), new.schema.first().map_or(&noname, |d| &d.dirs));
    diff_dirs(&mut e, "SCHEMA", "", od, nd);
    // another query root shows as its introspection fields moving
    for k in [OpKind::Mutation, OpKind::Subscription] {
        if gen::root_of(old, k) != gen::root_of(new, k) {
            e.gaps.push("mutation or subscription root not compared");
        }
    }
    if old.schema.first().and_then(|d| d.desc.clone()) != new.schema.first().and_then(|d| d.desc.clone()) {
        e.gaps.push("schema description not compared");
    }
    for o in &old.dirdefs {
        let p = format!("@{}", o.name);
        let Some(n) = new.dirdefs.iter().find(|n| n.name == o.name) else {
            e.add(format!("DirectiveDefinitionRemoved {p}"), 'B');
            continue;
        };
        if o.desc != n.desc {
            e.add(format!("DirectiveDefinitionDescriptionChanged {p} {}->{}", d(&o.desc), d(&n.desc)), 'S');
        }
        if o.repeatable != n.repeatable {
            e.gaps.push("repeatable not compared");
        }
        for l in &o.locs {
            if !n.locs.contains(l) {
                e.add(format!("DirectiveDefinitionLocationRemoved {p} {l}"), 'B');
            }
        }
        for l in &n.locs {
            if !o.locs.contains(l) {
                e.add(format!("DirectiveDefinitionLocationAdded {p} {l}"), 'S');
            }
        }
        diff_inputs(&mut e, &DARGS, &p, &o.args, &n.args);
    }
    for n in &new.dirdefs {
        if old.dirdefs.iter().all(|o| o.name != n.name) {
            e.add(format!("DirectiveDefinitionAdded @{}", n.name), 'S');
        }
    }
    for o in &old.types {
        let t = &o.name;
        let Some(n) = new.ty(t) else {
            e.add(format!("TypeRemoved {t}"), 'B');
            continue;
        };
        if o.desc != n.desc {
            e.add(format!("TypeDescriptionChanged {t} {}->{}", d(&o.desc), d(&n.desc)), 'S');
        }
        if o.kind != n.kind {
            e.add(format!("TypeKindChanged {t}"), 'B');
            continue;
        }
        diff_dirs(&mut e, kind_loc(o.kind), t, &o.dirs, &n.dirs);
        diff_inputs(&mut e, &INS, t, &o.inputs, &n.inputs);
        if o.kind == Kind::Object {
            for i in &o.interfaces {
                if !n.interfaces.contains(i) {
                    e.add(format!("ObjectInterfaceRemoval {t} {i}"), 'B');
                }
            }
            for i in &n.interfaces {
                if !o.interfaces.contains(i) {
                    e.add(format!("ObjectInterfaceAddition {t} {i}"), 'D');
                }
            }
        } else if o.interfaces.iter().any(|i| !n.interfaces.contains(i)) || n.interfaces.iter().any(|i| !o.interfaces.contains(i)) {
            e.gaps.push("interfaces of an interface not compared");
        }
        for m in &o.members {
            if !n.members.contains(m) {
                e.add(format!("UnionMemberRemoved {t} {m}"), 'B');
            }
        }
        for m in &n.members {
            if !o.members.contains(m) {
                e.add(format!("UnionMemberAdded {t} {m}"), 'D');
            }
        }
        for v in &o.values {
            match n.values.iter().find(|w| w.name == v.name) {
                None => e.add(format!("EnumValueRemoved {t}.{}", v.name), 'B'),
                Some(w) => {
                    if v.desc != w.desc {
                        e.add(format!("EnumValueDescriptionChanged {t}.{} {}->{}", v.name, d(&v.desc), d(&w.desc)), 'S');
                    }
                    diff_dirs(&mut e, "ENUM_VALUE", &v.name, &v.dirs, &w.dirs);
                }
            }
        }
        for w in &n.values {
            if o.values.iter().all(|v| v.name != w.name) {
                e.add(format!("EnumValueAdded {t}.{}", w.name), 'D');
            }
        }
        for f in &o.fields {
            let p = format!("{t}.{}", f.name);
            let Some(g) = n.field(&f.name) else {
                e.add(format!("FieldRemoved {p}"), 'B');
                continue;
            };
            if f.desc != g.desc {
                e.add(format!("FieldDescriptionChanged {p} {}->{}", d(&f.desc), d(&g.desc)), 'S');
            }
            if f.ty != g.ty {
                e.add(format!("FieldTypeChanged {p} {}->{}", f.ty.text(), g.ty.text()), if out_ok(&f.ty, &g.ty) { 'S' } else { 'B' });
            }
            diff_dirs(&mut e, "FIELD_DEFINITION", &f.name, &f.dirs, &g.dirs);
            diff_inputs(&mut e, &ARGS, &p, &f.args, &g.args);
        }
        for g in &n.fields {
            if o.field(&g.name).is_none() {
                e.add(format!("FieldAdded {t}.{}", g.name), 'S');
            }
        }
    }
    for n in &new.types {
        if old.ty(&n.name).is_none() {
            e.add(format!("TypeAdded {}", n.name), 'S');
        }
    }
    e
}
/// every element named at most once where it stands
fn distinct(s: &Sdl) -> bool {
    fn u<'a>(i: impl Iterator<Item = &'a String>) -> bool {
        let mut seen = std::collections::BTreeSet::new();
        i.into_iter().all(|x| seen.insert(x))
    }
    fn obj(v: &Val) -> bool {
        match v {
            Val::Obj(o) => u(o.iter().map(|x| &x.0)) && o.iter().all(|x| obj(&x.1)),
            Val::List(l) => l.iter().all(obj),
            _ => true,
        }
    }
    fn iv(v: &[InputVal]) -> bool {
        u(v.iter().map(|x| &x.name)) && v.iter().all(|x| x.default.as_ref().map_or(true, obj))
    }
    let mut dirs = true;
    all_dirs(&mut s.clone(), &mut |d| {
        dirs &= u(d.iter().map(|x| &x.name)) && d.iter().all(|x| u(x.args.iter().map(|a| &a.0)) && x.args.iter().all(|a| obj(&a.1)))
    });
    dirs && s.types.iter().all(|t| {
        u(t.fields.iter().map(|f| &f.name)) && t.fields.iter().all(|f| iv(&f.args)) && iv(&t.inputs) && u(t.values.iter().map(|f| &f.name)) && u(t.members.iter()) && u(t.interfaces.iter())
    }) && s.dirdefs.iter().all(|d| iv(&d.args) && u(d.locs.iter()))
}

// ------------------------------------------------------------------ the library's answer
fn b<const C: bool, V: bluejay_core::Value<C>>(v: Option<&V>) -> String {
    txt(&v.map(|v| dump::val::<C, V>(v)))
}
fn dd<D: bluejay_core::Directive<true>>(x: &D) -> String {
    dir_txt(&Dir { name: x.name().into(), args: dump::args::<true, _>(x.arguments()) })
}
fn o(x: Option<&str>) -> String {
    x.unwrap_or("-").into()
}
fn key<S: Sd>(c: &Change<'_, S>) -> String {
    let k = c.as_ref();
    use Change::*;
    match c {
        TypeRemoved { removed_type_definition: t } | TypeAdded { added_type_definition: t } => format!("{k} {}", t.name()),
        TypeKindChanged { old_type_definition: a, new_type_definition: b } => {
            format!("{k} {}{}", a.name(), if a.name() == b.name() { "" } else { " (names differ)" })
        }
        TypeDescriptionChanged { old_type_definition: a, new_type_definition: b } => {
            format!("{k} {} {}->{}", b.name(), o(a.description()), o(b.description()))
        }
        FieldAdded { added_field_definition: f, type_name: t } | FieldRemoved { removed_field_definition: f, type_name: t } => {
            format!("{k} {t}.{}", f.name())
        }
        FieldDescriptionChanged { type_name: t, old_field_definition: x, new_field_definition: y } => {
            format!("{k} {t}.{} {}->{}", y.name(), o(x.description()), o(y.description()))
        }
        FieldTypeChanged { type_name: t, old_field_definition: x, new_field_definition: y } => {
            format!("{k} {t}.{} {}->{}", y.name(), dump::oty(x.r#type()).text(), dump::oty(y.r#type()).text())
        }
        FieldArgumentAdded { type_name: t, field_definition: f, argument_definition: a }
        | FieldArgumentRemoved { type_name: t, field_definition: f, argument_definition: a } => format!("{k} {t}.{}.{}", f.name(), a.name()),
        FieldArgumentDescriptionChanged { type_name: t, field_definition: f, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} {t}.{}.{} {}->{}", f.name(), y.name(), o(x.description()), o(y.description()))
        }
        FieldArgumentDefaultValueChanged { type_name: t, field_definition: f, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} {t}.{}.{} {}->{}", f.name(), y.name(), b::<true, _>(x.default_value()), b::<true, _>(y.default_value()))
        }
        FieldArgumentTypeChanged { type_name: t, field_definition: f, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} {t}.{}.{} {}->{}", f.name(), y.name(), dump::ity(x.r#type()).text(), dump::ity(y.r#type()).text())
        }
        ObjectInterfaceAddition { object_type_definition: t, interface_implementation: i }
        | ObjectInterfaceRemoval { object_type_definition: t, interface_implementation: i } => format!("{k} {} {}", t.name(), i.name()),
        EnumValueAdded { enum_type_definition: t, enum_value_definition: v }
        | EnumValueRemoved { enum_type_definition: t, enum_value_definition: v } => format!("{k} {}.{}", t.name(), v.name()),
        EnumValueDescriptionChanged { enum_type_definition: t, old_enum_value_definition: x, new_enum_value_definition: y } => {
            format!("{k} {}.{} {}->{}", t.name(), y.name(), o(x.description()), o(y.description()))
        }
        UnionMemberAdded { union_type_definition: t, union_member_type: m }
        | UnionMemberRemoved { union_type_definition: t, union_member_type: m } => format!("{k} {} {}", t.name(), m.name()),
        InputFieldAdded { input_object_type_definition: t, added_field_definition: f }
        | InputFieldRemoved { input_object_type_definition: t, removed_field_definition: f } => format!("{k} {}.{}", t.name(), f.name()),
        InputFieldDescriptionChanged { input_object_type_definition: t, old_field_definition: x, new_field_definition: y } => {
            format!("{k} {}.{} {}->{}", t.name(), y.name(), o(x.description()), o(y.description()))
        }
        InputFieldTypeChanged { input_object_type_definition: t, old_field_definition: x, new_field_definition: y } => {
            format!("{k} {}.{} {}->{}", t.name(), y.name(), dump::ity(x.r#type()).text(), dump::ity(y.r#type()).text())
        }
        InputFieldDefaultValueChanged { input_object_type_definition: t, old_field_definition: x, new_field_definition: y } => {
            format!("{k} {}.{} {}->{}", t.name(), y.name(), b::<true, _>(x.default_value()), b::<true, _>(y.default_value()))
        }
        DirectiveDefinitionAdded { directive_definition: x } | DirectiveDefinitionRemoved { directive_definition: x } => {
            format!("{k} @{}", x.name())
        }
        DirectiveDefinitionLocationAdded { directive_definition: x, location: l }
        | DirectiveDefinitionLocationRemoved { directive_definition: x, location: l } => format!("{k} @{} {l}", x.name()),
        DirectiveDefinitionDescriptionChanged { old_directive_definition: x, new_directive_definition: y } => {
            format!("{k} @{} {}->{}", y.name(), o(x.description()), o(y.description()))
        }
        DirectiveDefinitionArgumentAdded { directive_definition: x, argument_definition: a }
        | DirectiveDefinitionArgumentRemoved { directive_definition: x, argument_definition: a } => format!("{k} @{}.{}", x.name(), a.name()),
        DirectiveDefinitionArgumentDescriptionChanged { directive_definition: t, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} @{}.{} {}->{}", t.name(), y.name(), o(x.description()), o(y.description()))
        }
        DirectiveDefinitionArgumentDefaultValueChanged { directive_definition: t, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} @{}.{} {}->{}", t.name(), y.name(), b::<true, _>(x.default_value()), b::<true, _>(y.default_value()))
        }
        DirectiveDefinitionArgumentTypeChanged { directive_definition: t, old_argument_definition: x, new_argument_definition: y } => {
            format!("{k} @{}.{} {}->{}", t.name(), y.name(), dump::ity(x.r#type()).text(), dump::ity(y.r#type()).text())
        }
        DirectiveAdded { location: l, member_name: m, directive: x } | DirectiveRemoved { location: l, member_name: m, directive: x } => {
            format!("{k} {l} {m} @{}", dd(*x))
        }
        DirectiveArgumentAdded { directive: x, argument: a } | DirectiveArgumentRemoved { directive: x, argument: a } => {
            format!("{k} @{}.{}={}", dd(*x), a.name(), b::<true, _>(Some(a.value())))
        }
        DirectiveArgumentValueChanged { directive: x, old_argument: p, new_argument: q } => {
            format!("{k} @{}.{}={}->{}", dd(*x), q.name(), b::<true, _>(Some(p.value())), b::<true, _>(Some(q.value())))
        }
    }
}
fn check(c: &Case, id: &str) -> Out {
    let (Ok(od), Ok(nd)) = (DefinitionDocument::parse(c.get("old")), DefinitionDocument::parse(c.get("new"))) else { return Out::Skip };
    let (od, nd): (DefinitionDocument, DefinitionDocument) = (od, nd);
    let (Ok(os), Ok(ns)) = (SchemaDefinition::try_from(&od), SchemaDefinition::try_from(&nd)) else { return Out::Skip };
    let (Ok(old), Ok(new)) = (parse::parse_sdl(c.get("old")), parse::parse_sdl(c.get("new"))) else { return Out::Skip };
    if !distinct(&old) || !distinct(&new) || old.schema.len() > 1 || new.schema.len() > 1 {
        return Out::Skip;
    }
    let e = diff(&old, &new);
    let res = compare(&os, &ns);
    let mut got = Bag::new();
    for ch in &res.changes {
        let k = key(ch);
        let crit = ch.criticality();
        let cc = if crit.is_breaking() {
            'B'
        } else if crit.is_dangerous() {
            'D'
        } else {
            'S'
        };
        let flags = (ch.breaking(), ch.dangerous(), ch.non_breaking());
        if id == "P21" {
            if flags != (cc == 'B', cc == 'D', cc == 'S') {
                return fail("criticality predicates disagree", format!("{k}: {cc} but breaking/dangerous/non_breaking = {flags:?}"));
            }
            if let Some((_, want)) = e.must.get(&k) {
                if *want != cc {
                    return fail("wrong criticality", format!("{k}\nexpected {want}, reported {cc}\nmessage: {}", ch.message()));
                }
            }
        }
        *got.entry(k).or_default() += 1;
    }
    if id == "P22" {
        for (k, n) in &got {
            if (k.ends_with(".__schema") || k.ends_with(".__type")) && gen::root_of(&old, OpKind::Query) != gen::root_of(&new, OpKind::Query) {
                continue;
            }
            let want = e.must.get(k).map_or(0, |x| x.0);
            if *n > want {
                return fail("change reported that does not exist", format!("{k}: {n} times, expected {want}\nexpected {:?}\nreported {got:?}", e.must));
            }
        }
        for (k, (n, _)) in &e.must {
            if got.get(k).copied().unwrap_or(0) < *n {
                return fail("change not reported", format!("{k}\nexpected {:?}\nreported {got:?}", e.must));
            }
        }
        if let Some(g) = e.gaps.first() {
            return fail(g, format!("reported {got:?}"));
        }
    }
    Out::Ok(Some(format!("{}\n{}", c.get("old"), c.get("new"))))
}
