//! P23: which type-system documents become a schema, and what the schema rules then report.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::{parse, Prop};
use bluejay_core::definition::{
    EnumTypeDefinition as _, EnumValueDefinition as _, InputObjectTypeDefinition as _, InputValueDefinition as _, SchemaDefinition as _,
    TypeDefinitionReference,
};
use bluejay_core::AsIter as _;
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    Parse,
};
use bluejay_validator::definition::{BuiltinRulesValidator, Error};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        rule: "a random schema after 0-3 random changes that may break it (unknown or misplaced references, duplicates, roots, cycles); non-trivial: the document parses",
        gen,
        check,
        fixed,
    }]
}

const INTRO_OBJ: [&str; 6] = ["__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive"];
const INTRO_ENUM: [&str; 2] = ["__TypeKind", "__DirectiveLocation"];

// ------------------------------------------------------------------ generation
fn any_name(r: &mut Rng, s: &Sdl) -> String {
    match r.below(10) {
        0 => "Nope".into(),
        1 => r.pick(&INTRO_OBJ).to_string(),
        2 => r.pick(&INTRO_ENUM).to_string(),
        3 => r.pick(&crate::oracle::BUILTIN_SCALARS).to_string(),
        _ => s.types[r.below(s.types.len())].name.clone(),
    }
}
fn retarget(r: &mut Rng, t: &Ty, n: &str) -> Ty {
    match t {
        Ty::Named(_, q) => Ty::Named(n.into(), *q),
        Ty::List(i, q) => Ty::List(Box::new(retarget(r, i, n)), *q),
    }
}
fn all_dirs(s: &mut Sdl) -> Vec<&mut Vec<Dir>> {
    let mut v = vec![];
    for d in &mut s.schema {
        v.push(&mut d.dirs)
    }
    for d in &mut s.dirdefs {
        v.extend(d.args.iter_mut().map(|a| &mut a.dirs))
    }
    for t in &mut s.types {
        v.push(&mut t.dirs);
        v.extend(t.values.iter_mut().map(|x| &mut x.dirs));
        v.extend(t.inputs.iter_mut().map(|x| &mut x.dirs));
        for x in &mut t.fields {
            v.push(&mut x.dirs);
            v.extend(x.args.iter_mut().map(|a| &mut a.dirs));
        }
    }
    v
}
fn new_type(r: &mut Rng, name: &str, s: &Sdl) -> TypeDef {
    let kind = [Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input][r.below(6)];
    let mut t = TypeDef::new(kind, name);
    let int = Ty::Named("Int".into(), false);
    match kind {
        Kind::Scalar => {}
        Kind::Object | Kind::Interface => t.fields.push(FieldDef { desc: None, name: "x".into(), args: vec![], ty: int, dirs: vec![] }),
        Kind::Union => t.members.push(
            s.types.iter().find(|t| t.kind == Kind::Object && t.name != name).map(|t| t.name.clone()).unwrap_or("Query".into()),
        ),
        Kind::Enum => t.values.push(EnumVal { desc: None, name: "V0".into(), dirs: vec![] }),
        Kind::Input => t.inputs.push(InputVal { desc: None, name: "f0".into(), ty: int, default: None, dirs: vec![] }),
    }
    t
}
fn mutate(r: &mut Rng, s: &mut Sdl) {
    if s.types.is_empty() {
        return;
    }
    let n = any_name(r, s);
    match r.below(15) {
        0 | 1 => {
            // an output or input reference to some other type
            let mut v: Vec<&mut Ty> = vec![];
            for d in &mut s.dirdefs {
                v.extend(d.args.iter_mut().map(|a| &mut a.ty));
            }
            for t in &mut s.types {
                v.extend(t.inputs.iter_mut().map(|x| &mut x.ty));
                for x in &mut t.fields {
                    v.push(&mut x.ty);
                    v.extend(x.args.iter_mut().map(|a| &mut a.ty));
                }
            }
            if !v.is_empty() {
                let k = r.below(v.len());
                *v[k] = retarget(r, v[k], &n);
            }
        }
        2 => {
            let mut v: Vec<&mut Vec<String>> = s.types.iter_mut().filter(|t| t.kind == Kind::Union).map(|t| &mut t.members).collect();
            if v.is_empty() {
                let mut t = TypeDef::new(Kind::Union, "UU");
                t.members.push(n);
                s.types.push(t);
            } else {
                let k = r.below(v.len());
                let at = r.below(v[k].len() + 1);
                v[k].insert(at, n);
            }
        }
        3 => {
            let mut v: Vec<&mut TypeDef> = s.types.iter_mut().filter(|t| matches!(t.kind, Kind::Object | Kind::Interface)).collect();
            let k = r.below(v.len().max(1));
            if let Some(t) = v.get_mut(k) {
                t.interfaces.push(n)
            }
        }
        4 => {
            // a second definition of a name already there
            let name = if r.pc(20) { r.pick(&[INTRO_OBJ[0], INTRO_OBJ[3], INTRO_ENUM[0]]).to_string() } else { s.types[r.below(s.types.len())].name.clone() };
            let t = new_type(r, &name, s);
            let at = r.below(s.types.len() + 1);
            s.types.insert(at, t);
        }
        5 => {
            // a builtin scalar redefined, or a builtin directive
            if r.pc(50) {
                let name = r.pick(&crate::oracle::BUILTIN_SCALARS).to_string();
                let t = new_type(r, &name, s);
                s.types.push(t);
            } else {
                let mut d = gen::builtin_dirdefs().swap_remove(r.below(5));
                if r.pc(30) {
                    d.args.push(InputVal { desc: None, name: "zz".into(), ty: Ty::Named(n, false), default: None, dirs: vec![] });
                }
                s.dirdefs.push(d);
            }
        }
        6 => {
            let i = r.below(s.types.len());
            s.types.remove(i);
        }
        7 => {
            if !s.dirdefs.is_empty() {
                let i = r.below(s.dirdefs.len());
                if r.pc(50) {
                    let d = s.dirdefs[i].clone();
                    let at = r.below(s.dirdefs.len() + 1);
                    s.dirdefs.insert(at, d);
                } else {
                    s.dirdefs.remove(i);
                }
            }
        }
        8 => {
            let mut v = all_dirs(s);
            if !v.is_empty() {
                let k = r.below(v.len());
                let name = ["nope", "skip", "deprecated", "d0", "oneOf"][r.below(5)].to_string();
                v[k].push(Dir { name, args: vec![] });
            }
        }
        9 => {
            if s.schema.is_empty() {
                let roots = (0..r.range(1, 3))
                    .map(|_| ([OpKind::Query, OpKind::Query, OpKind::Mutation, OpKind::Subscription][r.below(4)], any_name(r, s)))
                    .collect();
                let dirs = if r.pc(40) { vec![Dir { name: ["nope", "d0", "skip"][r.below(3)].into(), args: vec![] }] } else { vec![] };
                s.schema.push(SchemaDef { desc: None, dirs, roots });
            } else if r.pc(25) {
                let d = s.schema[0].clone();
                s.schema.push(d);
            } else if r.pc(15) {
                s.schema.clear();
            } else {
                let k = r.below(s.schema.len());
                let x = &mut s.schema[k];
                match r.below(4) {
                    0 => x.dirs.push(Dir { name: ["nope", "d0", "skip"][r.below(3)].into(), args: vec![] }),
                    1 => x.roots.push(([OpKind::Query, OpKind::Mutation, OpKind::Subscription][r.below(3)], n)),
                    2 => {
                        let k = r.below(x.roots.len());
                        x.roots[k].1 = n;
                    }
                    _ if x.roots.len() > 1 => {
                        let k = r.below(x.roots.len());
                        x.roots.remove(k);
                    }
                    _ => {}
                }
            }
        }
        10 => {
            // one of the implicit root names on some type
            let i = r.below(s.types.len());
            let to = ["Query", "Mutation", "Subscription", "Other"][r.below(4)];
            s.types[i].name = to.into();
        }
        11 => {
            let mut v: Vec<&mut TypeDef> = s.types.iter_mut().filter(|t| t.kind == Kind::Enum).collect();
            let k = r.below(v.len().max(1));
            if let Some(t) = v.get_mut(k) {
                for _ in 0..r.range(1, 3) {
                    let x = t.values[r.below(t.values.len())].clone();
                    let at = r.below(t.values.len() + 1);
                    t.values.insert(at, x);
                }
            }
        }
        12 => {
            let mut v: Vec<&mut TypeDef> = s.types.iter_mut().filter(|t| t.kind == Kind::Input).collect();
            let k = r.below(v.len().max(1));
            if let Some(t) = v.get_mut(k) {
                if !t.inputs.is_empty() {
                    for _ in 0..r.range(1, 3) {
                        let x = t.inputs[r.below(t.inputs.len())].clone();
                        let at = r.below(t.inputs.len() + 1);
                        t.inputs.insert(at, x);
                    }
                }
            }
        }
        _ => {
            // a web of input objects requiring each other
            let m = r.range(1, 4);
            let names: Vec<String> = (0..m).map(|i| format!("C{i}")).collect();
            if names.iter().any(|n| s.types.iter().any(|t| &t.name == n)) {
                return;
            }
            for n in &names {
                let mut t = TypeDef::new(Kind::Input, n);
                for f in 0..r.range(1, 3) {
                    let b = if r.pc(12) { any_name(r, s) } else { r.pick(&names).clone() };
                    let ty = match r.below(10) {
                        0 => Ty::Named(b, false),
                        1 => Ty::List(Box::new(Ty::Named(b, true)), true),
                        _ => Ty::Named(b, true),
                    };
                    t.inputs.push(InputVal { desc: None, name: format!("f{f}"), ty, default: None, dirs: vec![] });
                }
                let at = r.below(s.types.len() + 1);
                s.types.insert(at, t);
            }
        }
    }
}
fn gen(r: &mut Rng) -> Case {
    let cfg = gen::SchemaCfg { descs: r.pc(20), weird_descs: false, dirs: r.pc(60), oneof: r.pc(30), explicit_roots: r.pc(50) };
    let mut s = gen::schema(r, &cfg);
    for _ in 0..[0, 1, 1, 1, 2, 3][r.below(6)] {
        mutate(r, &mut s);
    }
    Case::default().gql("schema", s.text())
}
fn fixed() -> Vec<Case> {
    let q = "type Query{a:Int} ";
    let mut l: Vec<String> = vec![
        "type T{a:Int}".into(),
        "type Mutation{a:Int}".into(),
        "type Query{a:Int} enum Mutation{A}".into(),
        "scalar Query".into(),
        "directive @d on SCHEMA".into(),
        "schema{query:Q}".into(),
        "schema{mutation:Q} type Q{a:Int}".into(),
        "schema{query:Q query:Q} type Q{a:Int}".into(),
        "schema{query:Q mutation:Q subscription:Q} type Q{a:Int}".into(),
        "schema{query:Q} schema{query:Q} type Q{a:Int}".into(),
        "schema @nope {query:Q} type Q{a:Int}".into(),
        "schema{query:Q} interface Q{a:Int}".into(),
        "schema{query:Q} type Q{a:Int} scalar Query".into(),
        "input String{a:Int} type Query{a:Int}".into(),
        "type ID{a:Int} type Query{a:ID}".into(),
        "type ID{a:Int} type Query{a(b:ID):Int}".into(),
    ];
    for x in [
        "scalar __Foo",
        "type __Type{a:Int}",
        "scalar __TypeKind",
        "interface I implements I{a:Int}",
        "interface I implements Query{a:Int}",
        "type T implements U{a:Int} union U=T",
        "union U=U",
        "union U=Nope",
        "union U=__Type",
        "type T{a:__Type b(c:__TypeKind):__DirectiveLocation}",
        "type T{a(c:__Type):Int}",
        "type T{a:Int @nope}",
        "type T{a(b:Int @nope):Int}",
        "enum E{A @nope}",
        "enum E @nope{A}",
        "input I{a:Int @nope}",
        "input I @nope{a:Int}",
        "scalar S @nope",
        "union U @nope=Query",
        "interface I @nope{a:Int}",
        "interface I{a:Nope}",
        "interface I{a:Int @nope}",
        "directive @d(a:Nope) on FIELD",
        "directive @d(a:Query) on FIELD",
        "directive @d(a:Int @nope) on FIELD",
        "directive @d(a:Int @d) on FIELD",
        "directive @d on FIELD directive @d on FIELD",
        "directive @skip on FIELD directive @skip on FIELD",
        "directive @deprecated on FIELD",
        "enum E{A A B B B C}",
        "input I{a:Int a:Int b:Int}",
        "input I{a:I!}",
        "input I{a:I! b:I! c:I d:[I!]!}",
        "input I{a:J!} input J{a:I! b:J}",
        "input I{a:J!} input J{a:K! b:I!} input K{a:J! b:I! c:K!}",
        "input I{a:J! b:J!} input J{a:I!}",
        "input I{a:J!} input J{a:I}",
        "input I{a:J!} input J{a:[I!]!}",
        "input A{b:B!} input B{c:C!} input C{b:B!}",
        "input A{b:B! c:C!} input B{d:D!} input C{d:D!} input D{a:A!}",
    ] {
        l.push(format!("{q}{x}"));
    }
    l.into_iter().map(|t| Case::default().gql("schema", t)).collect()
}

// ------------------------------------------------------------------ oracle
#[derive(Clone, Copy, PartialEq)]
enum K {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}
/// the first thing wrong with the document, if any
fn wrong(s: &Sdl) -> Option<String> {
    let mut kinds: BTreeMap<String, K> = BTreeMap::new();
    for n in INTRO_OBJ {
        kinds.insert(n.into(), K::Object);
    }
    for n in INTRO_ENUM {
        kinds.insert(n.into(), K::Enum);
    }
    for t in &s.types {
        let k = match t.kind {
            Kind::Scalar => K::Scalar,
            Kind::Object => K::Object,
            Kind::Interface => K::Interface,
            Kind::Union => K::Union,
            Kind::Enum => K::Enum,
            Kind::Input => K::Input,
        };
        if kinds.insert(t.name.clone(), k).is_some() {
            return Some(format!("two types named {}", t.name));
        }
    }
    for n in crate::oracle::BUILTIN_SCALARS {
        kinds.entry(n.into()).or_insert(K::Scalar);
    }
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    for d in &s.dirdefs {
        if !dirs.insert(d.name.clone()) {
            return Some(format!("two directives named {}", d.name));
        }
    }
    dirs.extend(gen::builtin_dirdefs().into_iter().map(|d| d.name));
    let kind = |n: &str| kinds.get(n).copied();
    let output = |n: &str| match kind(n) {
        None => Some(format!("type {n} does not exist")),
        Some(K::Input) => Some(format!("{n} is not an output type")),
        _ => None,
    };
    let input = |n: &str| match kind(n) {
        None => Some(format!("type {n} does not exist")),
        Some(K::Scalar | K::Enum | K::Input) => None,
        _ => Some(format!("{n} is not an input type")),
    };
    let applied = |v: &[Dir]| v.iter().find(|d| !dirs.contains(&d.name)).map(|d| format!("directive {} does not exist", d.name));
    let inputs = |v: &[InputVal]| v.iter().find_map(|i| input(i.ty.base()).or_else(|| applied(&i.dirs)));
    // the introspection schema and the builtin directives use String and Boolean both ways
    for n in ["String", "Boolean"] {
        if let Some(e) = input(n).or_else(|| output(n)) {
            return Some(e);
        }
    }
    for d in &s.dirdefs {
        if let Some(e) = inputs(&d.args) {
            return Some(e);
        }
    }
    for t in &s.types {
        if let Some(e) = applied(&t.dirs).or_else(|| inputs(&t.inputs)) {
            return Some(e);
        }
        for v in &t.values {
            if let Some(e) = applied(&v.dirs) {
                return Some(e);
            }
        }
        for f in &t.fields {
            if let Some(e) = output(f.ty.base()).or_else(|| inputs(&f.args)).or_else(|| applied(&f.dirs)) {
                return Some(e);
            }
        }
        for i in &t.interfaces {
            if kind(i) != Some(K::Interface) {
                return Some(format!("{i} is not an interface"));
            }
        }
        for m in &t.members {
            if kind(m) != Some(K::Object) {
                return Some(format!("{m} is not an object type"));
            }
        }
    }
    if s.schema.len() > 1 {
        return Some("two schema definitions".into());
    }
    let roots: Vec<(OpKind, String)> = match s.schema.first() {
        Some(d) => {
            if let Some(e) = applied(&d.dirs) {
                return Some(format!("on the schema definition: {e}"));
            }
            d.roots.clone()
        }
        None => [(OpKind::Query, "Query"), (OpKind::Mutation, "Mutation"), (OpKind::Subscription, "Subscription")]
            .into_iter()
            .filter(|(_, n)| kind(n).is_some())
            .map(|(k, n)| (k, n.to_string()))
            .collect(),
    };
    let mut seen = BTreeSet::new();
    for (k, n) in &roots {
        if !seen.insert(*k) {
            return Some(format!("two {} roots", k.text()));
        }
        if kind(n) != Some(K::Object) {
            return Some(format!("root {n} is not an object type"));
        }
    }
    if !seen.contains(&OpKind::Query) {
        return Some("no query root".into());
    }
    None
}
type Bag = BTreeMap<String, usize>;
fn repeated<'a>(names: impl Iterator<Item = &'a String>) -> Vec<(String, usize)> {
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    for n in names {
        *m.entry(n.clone()).or_default() += 1;
    }
    m.into_iter().filter(|x| x.1 > 1).collect()
}
fn expected(s: &Sdl) -> Bag {
    let mut b = Bag::new();
    for t in &s.types {
        for (n, k) in repeated(t.values.iter().map(|v| &v.name)) {
            *b.entry(format!("enum values {n}: {}", vec![format!("{}.{n}", t.name); k].join(" "))).or_default() += 1;
        }
        for (n, k) in repeated(t.inputs.iter().map(|v| &v.name)) {
            *b.entry(format!("input fields {n}: {}", vec![format!("{}.{n}", t.name); k].join(" "))).or_default() += 1;
        }
        if t.kind == Kind::Input {
            // the input objects every value of t must contain, without going through t again
            let mut seen: BTreeSet<&str> = BTreeSet::new();
            let mut todo = vec![t];
            let mut back: Vec<String> = vec![];
            while let Some(u) = todo.pop() {
                for (i, f) in u.inputs.iter().enumerate() {
                    if let Ty::Named(n, true) = &f.ty {
                        if n == &t.name {
                            back.push(format!("{}#{i}", u.name));
                        } else if let Some(v) = s.types.iter().find(|v| &v.name == n && v.kind == Kind::Input) {
                            if seen.insert(&v.name) {
                                todo.push(v);
                            }
                        }
                    }
                }
            }
            back.sort();
            if !back.is_empty() {
                *b.entry(format!("cycle {}: {}", t.name, back.join(" "))).or_default() += 1;
            }
        }
    }
    b
}
fn reported<'a>(schema: &'a SchemaDefinition<'a>) -> Bag {
    // where each definition stands, by identity
    let mut at: BTreeMap<usize, String> = BTreeMap::new();
    let mut tyat: BTreeMap<usize, String> = BTreeMap::new();
    for t in schema.type_definitions() {
        match t {
            TypeDefinitionReference::InputObject(o) => {
                for (i, f) in o.input_field_definitions().iter().enumerate() {
                    at.insert(f as *const _ as *const u8 as usize, format!("{}.{}", o.name(), f.name()));
                    tyat.insert(f.r#type() as *const _ as *const u8 as usize, format!("{}#{i}", o.name()));
                }
            }
            TypeDefinitionReference::Enum(e) => {
                for v in e.enum_value_definitions().iter() {
                    at.insert(v as *const _ as *const u8 as usize, format!("{}.{}", e.name(), v.name()));
                }
            }
            _ => {}
        }
    }
    let w = |m: &BTreeMap<usize, String>, p: usize| m.get(&p).cloned().unwrap_or("?".into());
    let mut b = Bag::new();
    for e in BuiltinRulesValidator::validate(schema) {
        let k = match e {
            Error::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions } => {
                let mut v: Vec<String> = enum_value_definitions.iter().map(|x| w(&at, *x as *const _ as *const u8 as usize)).collect();
                let ids: BTreeSet<usize> = enum_value_definitions.iter().map(|x| *x as *const _ as *const u8 as usize).collect();
                if ids.len() != v.len() {
                    v.push("(same one twice)".into());
                }
                format!("enum values {name}: {}", v.join(" "))
            }
            Error::NonUniqueInputValueDefinitionNames { name, input_value_definitions } => {
                let mut v: Vec<String> = input_value_definitions.iter().map(|x| w(&at, *x as *const _ as *const u8 as usize)).collect();
                let ids: BTreeSet<usize> = input_value_definitions.iter().map(|x| *x as *const _ as *const u8 as usize).collect();
                if ids.len() != v.len() {
                    v.push("(same one twice)".into());
                }
                format!("input fields {name}: {}", v.join(" "))
            }
            Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition, circular_references } => {
                let mut v: Vec<String> = circular_references.iter().map(|x| w(&tyat, *x as *const _ as *const u8 as usize)).collect();
                v.sort();
                format!("cycle {}: {}", input_object_type_definition.name(), v.join(" "))
            }
        };
        *b.entry(k).or_default() += 1;
    }
    b
}
fn check(c: &Case) -> Out {
    let text = c.get("schema");
    let Ok(doc) = DefinitionDocument::parse(text) else { return Out::Skip };
    let doc: DefinitionDocument = doc;
    let Ok(s) = parse::parse_sdl(text) else { return Out::Skip };
    let want = wrong(&s);
    let key = Some(text.to_string());
    match (SchemaDefinition::try_from(&doc), want) {
        (Ok(_), Some(e)) => fail("ill-formed schema accepted", e),
        (Err(e), None) => fail("well-formed schema rejected", format!("{e:?}")),
        (Err(_), Some(_)) => Out::Ok(key),
        (Ok(schema), None) => {
            // every lookup in an accepted schema answers
            for (k, got) in [(OpKind::Query, Some(schema.query())), (OpKind::Mutation, schema.mutation()), (OpKind::Subscription, schema.subscription())] {
                let want = gen::root_of(&s, k);
                let got = got.map(|o| bluejay_core::definition::ObjectTypeDefinition::name(o).to_string());
                if got != want {
                    return fail("wrong root type", format!("{}: {got:?}, expected {want:?}", k.text()));
                }
            }
            let (exp, got) = (expected(&s), reported(&schema));
            for (k, n) in &got {
                if exp.get(k) != Some(n) {
                    return fail("schema rule reported something else", format!("{k} ({n} times)\nexpected {exp:?}\nreported {got:?}"));
                }
            }
            for k in exp.keys() {
                if !got.contains_key(k) {
                    return fail("schema rule missed an error", format!("{k}\nexpected {exp:?}\nreported {got:?}"));
                }
            }
            Out::Ok(key)
        }
    }
}
