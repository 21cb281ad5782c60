//! P20: a scoped schema against the harness's own reading of the visibility rule.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng, SchemaCfg};
use crate::{dump, oracle, Prop};
use bluejay_core::definition::{self as cd, prelude::*, SchemaDefinition as Core, TypeDefinitionReference as R};
use bluejay_core::AsIter;
use bluejay_parser::ast::{
    definition::{DefaultContext, DefinitionDocument, SchemaDefinition},
    Parse,
};
use bluejay_visibility::{Cache, SchemaDefinition as Scoped, Warden};
use std::collections::BTreeSet;
use std::marker::PhantomData;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P20",
        rule: "random schemas with every definition kind, applied directives and same-named fields, and random visibility rules \
               (a hash of kind, name and type decides), probed in random order; non-trivial: the query root is visible and \
               something is hidden",
        gen: gen_p20,
        check: check_p20,
        fixed: || {
            [
                ("schema @d(a:1){query:Query} type Query{a:Int} directive @d(a:S) on SCHEMA scalar S", "0 0"),
                ("type Query{a:I b:U} interface I{x:Int} type A implements I{x:Int} type B implements I{x:Int} union U=A|B", "7 30"),
                ("type Query{a:A} type A{b(c:In):E} input In{d:In e:E} enum E{X Y}", "3 25"),
                ("type Query{a:S b:Int @d} scalar S @d directive @d(a:T) on SCALAR|FIELD_DEFINITION scalar T", "5 25"),
                ("type Query{f:Int} directive @x(a:In) on FIELD input In{a:Int}", "11 20"),
            ]
            .iter()
            .map(|(s, r)| Case::default().gql("schema", s.to_string()).fixed("rule", r.to_string()))
            .collect()
        },
    }]
}

#[derive(Clone, Copy)]
struct Rule {
    seed: u64,
    pct: u64,
}
impl Rule {
    fn new(t: &str) -> Rule {
        let mut i = t.split_whitespace().map(|x| x.parse().unwrap_or(0));
        Rule { seed: i.next().unwrap_or(0), pct: i.next().unwrap_or(0) }
    }
    fn vis(&self, kind: &str, name: &str, more: &str) -> bool {
        if name.starts_with("__") {
            return true;
        }
        let mut h = 0xcbf29ce484222325u64 ^ self.seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in kind.bytes().chain([0]).chain(name.bytes()).chain([0]).chain(more.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        (h >> 32) % 100 >= self.pct
    }
    fn field(&self, f: &FieldDef) -> bool {
        self.vis("field", &f.name, &f.ty.text())
    }
    fn input(&self, i: &InputVal) -> bool {
        self.vis("input", &i.name, &i.ty.text())
    }
}
struct Hide<'a>(Rule, PhantomData<SchemaDefinition<'a>>);
type SD<'a> = SchemaDefinition<'a, DefaultContext>;
impl<'a> Warden for Hide<'a> {
    type SchemaDefinition = SD<'a>;
    type TypeDefinitionsForName<'b>
        = std::option::IntoIter<R<'b, <SD<'a> as Core>::TypeDefinition>>
    where
        Self: 'b;
    fn is_field_definition_visible(&self, f: &<SD<'a> as Core>::FieldDefinition) -> bool {
        self.0.vis("field", f.name(), &dump::oty(f.r#type()).text())
    }
    fn is_input_value_definition_visible(&self, i: &<SD<'a> as Core>::InputValueDefinition) -> bool {
        self.0.vis("input", i.name(), &dump::ity(i.r#type()).text())
    }
    fn is_enum_value_definition_visible(&self, i: &<SD<'a> as Core>::EnumValueDefinition) -> bool {
        self.0.vis("value", i.name(), "")
    }
    fn is_union_member_type_visible(&self, i: &<SD<'a> as Core>::UnionMemberType) -> bool {
        self.0.vis("member", i.name(), "")
    }
    fn is_interface_implementation_visible(&self, i: &<SD<'a> as Core>::InterfaceImplementation) -> bool {
        self.0.vis("impl", i.name(), "")
    }
    fn is_directive_definition_visible(&self, i: &<SD<'a> as Core>::DirectiveDefinition) -> bool {
        self.0.vis("dirdef", i.name(), "")
    }
    fn is_custom_scalar_type_definition_visible(&self, i: &<SD<'a> as Core>::CustomScalarTypeDefinition) -> bool {
        self.0.vis("Scalar", i.name(), "")
    }
    fn is_enum_type_definition_visible(&self, i: &<SD<'a> as Core>::EnumTypeDefinition) -> bool {
        self.0.vis("Enum", i.name(), "")
    }
    fn is_input_object_type_definition_visible(&self, i: &<SD<'a> as Core>::InputObjectTypeDefinition) -> bool {
        self.0.vis("Input", i.name(), "")
    }
    fn is_interface_type_definition_visible(&self, i: &<SD<'a> as Core>::InterfaceTypeDefinition) -> bool {
        self.0.vis("Interface", i.name(), "")
    }
    fn is_object_type_definition_visible(&self, i: &<SD<'a> as Core>::ObjectTypeDefinition) -> bool {
        self.0.vis("Object", i.name(), "")
    }
    fn is_union_type_definition_visible(&self, i: &<SD<'a> as Core>::UnionTypeDefinition) -> bool {
        self.0.vis("Union", i.name(), "")
    }
    fn type_definitions_for_name<'b>(&self, s: &'b SD<'a>, name: &str) -> Self::TypeDefinitionsForName<'b> {
        s.get_type_definition(name).into_iter()
    }
}

// ---------------------------------------------------------------- the rule's meaning
struct Meaning<'x> {
    sdl: &'x Sdl,
    rule: Rule,
}
impl Meaning<'_> {
    fn ty(&self, n: &str) -> bool {
        n.starts_with("__")
            || oracle::BUILTIN_SCALARS.contains(&n) && self.sdl.ty(n).is_none()
            || self.sdl.ty(n).is_some_and(|t| self.rule.vis(&format!("{:?}", t.kind), n, ""))
    }
    fn dir(&self, n: &str) -> bool {
        self.rule.vis("dirdef", n, "")
    }
    fn dirs(&self, d: &[Dir]) -> Vec<Dir> {
        d.iter().filter(|d| self.dir(&d.name)).cloned().collect()
    }
    fn inputs(&self, v: &[InputVal]) -> Vec<InputVal> {
        v.iter()
            .filter(|i| self.rule.input(i) && self.ty(i.ty.base()))
            .map(|i| InputVal { dirs: self.dirs(&i.dirs), ..i.clone() })
            .collect()
    }
    fn shown(&self, f: &FieldDef) -> bool {
        self.rule.field(f) && self.ty(f.ty.base())
    }
    fn field(&self, f: &FieldDef) -> FieldDef {
        FieldDef { args: self.inputs(&f.args), dirs: self.dirs(&f.dirs), ..f.clone() }
    }
    fn typedef(&self, t: &TypeDef) -> TypeDef {
        TypeDef {
            dirs: self.dirs(&t.dirs),
            interfaces: t.interfaces.iter().filter(|i| self.rule.vis("impl", i, "") && self.ty(i)).cloned().collect(),
            fields: t.fields.iter().filter(|f| self.shown(f)).map(|f| self.field(f)).collect(),
            members: t.members.iter().filter(|m| self.rule.vis("member", m, "") && self.ty(m)).cloned().collect(),
            values: t
                .values
                .iter()
                .filter(|v| self.rule.vis("value", &v.name, ""))
                .map(|v| EnumVal { dirs: self.dirs(&v.dirs), ..v.clone() })
                .collect(),
            inputs: self.inputs(&t.inputs),
            ..t.clone()
        }
    }
    fn dirdef(&self, d: &DirDef) -> DirDef {
        DirDef { args: self.inputs(&d.args), ..d.clone() }
    }
    fn implementors(&self, n: &str) -> BTreeSet<String> {
        self.sdl
            .types
            .iter()
            .filter(|t| t.kind == Kind::Object && self.ty(&t.name) && self.typedef(t).interfaces.iter().any(|i| i == n))
            .map(|t| t.name.clone())
            .collect()
    }
    /// what iteration lists: everything visible that can be reached from the roots and from the directives a document may use
    fn scope(&self) -> Option<Sdl> {
        let s = &self.sdl.schema[0];
        let roots: Vec<(OpKind, String)> = s.roots.iter().filter(|(_, n)| self.ty(n)).cloned().collect();
        if !roots.iter().any(|(k, _)| *k == OpKind::Query) {
            return None;
        }
        let mut out =
            Sdl { schema: vec![SchemaDef { desc: s.desc.clone(), dirs: self.dirs(&s.dirs), roots: roots.clone() }], ..Sdl::default() };
        let mut todo: Vec<String> = roots.into_iter().map(|r| r.1).collect();
        let (mut types, mut dirs) = (BTreeSet::new(), BTreeSet::new());
        let mut tododirs: Vec<String> = self
            .sdl
            .dirdefs
            .iter()
            .filter(|d| d.locs.iter().any(|l| EXECUTABLE.contains(&l.as_str())))
            .map(|d| d.name.clone())
            .collect();
        tododirs.extend(out.schema[0].dirs.iter().map(|d| d.name.clone()));
        while !todo.is_empty() || !tododirs.is_empty() {
            while let Some(n) = tododirs.pop() {
                let Some(d) = self.sdl.dirdefs.iter().find(|d| d.name == n) else { continue };
                if self.dir(&n) && dirs.insert(n) {
                    let d = self.dirdef(d);
                    self.needs_inputs(&d.args, &mut todo, &mut tododirs);
                    out.dirdefs.push(d);
                }
            }
            if let Some(n) = todo.pop() {
                let Some(t) = self.sdl.ty(&n) else { continue };
                if types.insert(n) {
                    let t = self.typedef(t);
                    tododirs.extend(t.dirs.iter().map(|d| d.name.clone()));
                    for f in &t.fields {
                        todo.push(f.ty.base().to_string());
                        tododirs.extend(f.dirs.iter().map(|d| d.name.clone()));
                        self.needs_inputs(&f.args, &mut todo, &mut tododirs);
                    }
                    for v in &t.values {
                        tododirs.extend(v.dirs.iter().map(|d| d.name.clone()));
                    }
                    self.needs_inputs(&t.inputs, &mut todo, &mut tododirs);
                    todo.extend(t.interfaces.iter().cloned());
                    todo.extend(t.members.iter().cloned());
                    if t.kind == Kind::Interface {
                        todo.extend(self.implementors(&t.name));
                    }
                    out.types.push(t);
                }
            }
        }
        out.types.sort_by(|a, b| a.name.cmp(&b.name));
        out.dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
        Some(out)
    }
    fn needs_inputs(&self, v: &[InputVal], types: &mut Vec<String>, dirs: &mut Vec<String>) {
        for i in v {
            types.push(i.ty.base().to_string());
            dirs.extend(i.dirs.iter().map(|d| d.name.clone()));
        }
    }
}
const EXECUTABLE: [&str; 8] = [
    "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION",
];

fn gen_p20(r: &mut Rng) -> Case {
    let cfg = SchemaCfg { descs: r.pc(30), weird_descs: false, dirs: r.pc(70), oneof: r.pc(20), explicit_roots: r.pc(50) };
    let mut s = gen::schema(r, &cfg);
    let pct = *r.pick(&[0u64, 5, 10, 15, 20, 30, 45]);
    let seed = r.next() % 100_000;
    // variants of one field, as the rule may pick between them
    if r.pc(30) && !s.types.is_empty() {
        for _ in 0..3 {
            let i = r.below(s.types.len());
            let t = &mut s.types[i];
            if t.fields.is_empty() {
                continue;
            }
            let j = r.below(t.fields.len());
            let mut f = t.fields[j].clone();
            f.ty = if r.pc(50) { f.ty.with_req(!f.ty.req()) } else { Ty::List(Box::new(f.ty), r.pc(50)) };
            let at = r.below(t.fields.len() + 1);
            t.fields.insert(at, f);
        }
    }
    // most cases should have a visible query root
    let mut seed = seed;
    if r.pc(90) {
        if let Some(q) = gen::root_of(&s, OpKind::Query) {
            for _ in 0..50 {
                if (Rule { seed, pct }).vis("Object", &q, "") {
                    break;
                }
                seed += 1;
            }
        }
    }
    Case::default().gql("schema", s.text()).fixed("rule", format!("{seed} {pct} {}", r.below(1000)))
}
fn check_p20(c: &Case) -> Out {
    let text = c.get("schema");
    let Ok(d) = DefinitionDocument::<DefaultContext>::parse(text) else { return Out::Skip };
    let Ok(sd) = SchemaDefinition::try_from(&d) else { return Out::Skip };
    let rule = Rule::new(c.get("rule"));
    let sdl = dump::schema(&sd);
    let m = Meaning { sdl: &sdl, rule };
    for t in &sdl.types {
        for (i, f) in t.fields.iter().enumerate() {
            if m.rule.field(f) && t.fields[..i].iter().any(|g| g.name == f.name && m.rule.field(g)) {
                return Out::Skip; // the rule has to leave one definition per name
            }
        }
    }
    let cache = Cache::new(Hide(rule, PhantomData), &sd);
    let want = m.scope();
    let scoped = match (Scoped::new(&cache), &want) {
        (Err(_), None) => return Out::Ok(None),
        (Err(_), Some(_)) => return fail("refused", "scoping fails though the query root is visible".into()),
        (Ok(_), None) => return fail("accepted", "scoping succeeds though the query root is hidden".into()),
        (Ok(s), Some(_)) => s,
    };
    let want = want.unwrap();
    let mut order: Vec<usize> = (0..5).collect();
    let mut r = Rng(c.get("rule").split_whitespace().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0u64) + 1);
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    for o in order {
        match o {
            0 => {
                let mut got = dump::schema(&scoped);
                got.schema[0].roots.sort();
                let mut want = want.clone();
                want.schema[0].roots.sort();
                if got != want {
                    return fail("iteration", diff(&want, &got));
                }
            }
            1 => {
                for n in sdl.types.iter().map(|t| t.name.as_str()).chain(["Nope", "Int", "__Type"]) {
                    let got = scoped.get_type_definition(n);
                    let exp = m.ty(n);
                    if got.is_some() != exp {
                        return fail("type-lookup", format!("{n}: visible {exp}, found {}", got.is_some()));
                    }
                    let (Some(g), Some(t)) = (got, sdl.ty(n)) else { continue };
                    let (g, e) = (dump::typedef(g), m.typedef(t));
                    if g.as_ref() != Some(&e) {
                        return fail("type-body", format!("{n}: expected {e:?} got {g:?}"));
                    }
                }
            }
            2 => {
                for t in sdl.types.iter().filter(|t| m.ty(&t.name)) {
                    let Some(td) = scoped.get_type_definition(&t.name) else { continue };
                    let names = t.fields.iter().map(|f| f.name.as_str()).chain(["nope", "__typename"]);
                    for n in names {
                        let exp = t.fields.iter().find(|f| f.name == n && m.shown(f)).map(|f| m.field(f));
                        let (got, has) = match td {
                            R::Object(o) => (o.fields_definition().get(n), o.fields_definition().contains_field(n)),
                            R::Interface(o) => (o.fields_definition().get(n), o.fields_definition().contains_field(n)),
                            _ => continue,
                        };
                        if has != got.is_some() {
                            return fail("field-lookup", format!("{}.{n}: contains_field disagrees with get", t.name));
                        }
                        if n == "__typename" {
                            if !has {
                                return fail("field-lookup", format!("{}.{n} is missing", t.name));
                            }
                            continue;
                        }
                        if let Some(f) = got {
                            let base = f.r#type().base(&scoped);
                            let bn = base.name();
                            if !m.ty(bn) {
                                return fail("reference", format!("{}.{n} leads to the hidden type {bn}", t.name));
                            }
                        }
                        let got = got.map(dump::field);
                        if got != exp {
                            return fail("field-lookup", format!("{}.{n}: expected {exp:?} got {got:?}", t.name));
                        }
                    }
                }
            }
            3 => {
                for t in sdl.types.iter().filter(|t| t.kind == Kind::Interface && m.ty(&t.name)) {
                    let Some(R::Interface(i)) = scoped.get_type_definition(&t.name) else { continue };
                    let got: Vec<String> =
                        Core::get_interface_implementors(&scoped, i).map(|o| o.name().to_string()).collect();
                    let set: BTreeSet<String> = got.iter().cloned().collect();
                    let exp = m.implementors(&t.name);
                    if set != exp || set.len() != got.len() {
                        return fail("implementors", format!("{}: expected {exp:?} got {got:?}", t.name));
                    }
                }
            }
            _ => {
                for d in &sdl.dirdefs {
                    let got = Core::get_directive_definition(&scoped, &d.name);
                    if got.is_some() != m.dir(&d.name) {
                        return fail("directive-lookup", format!("{}: visible {}, found {}", d.name, m.dir(&d.name), got.is_some()));
                    }
                    if let Some(g) = got {
                        let (g, e) = (dump::argdefs(cd::DirectiveDefinition::arguments_definition(g)), m.dirdef(d).args);
                        if g != e {
                            return fail("directive-body", format!("{}: expected {e:?} got {g:?}", d.name));
                        }
                    }
                }
                if Core::get_directive_definition(&scoped, "nope").is_some() {
                    return fail("directive-lookup", "an undefined directive is found".into());
                }
            }
        }
    }
    let hidden = sdl.types.len() != want.types.len() || sdl.types.iter().any(|t| m.typedef(t) != *t);
    Out::Ok(hidden.then(|| format!("{:?}{}", rule.seed, sdl.types.len())))
}
fn diff(want: &Sdl, got: &Sdl) -> String {
    if want.schema != got.schema {
        return format!("schema: expected {:?} got {:?}", want.schema, got.schema);
    }
    let names = |s: &Sdl| s.types.iter().map(|t| t.name.clone()).collect::<Vec<_>>();
    if names(want) != names(got) {
        return format!("types: expected {:?} got {:?}", names(want), names(got));
    }
    for (a, b) in want.types.iter().zip(&got.types) {
        if a != b {
            return format!("type: expected {a:?} got {b:?}");
        }
    }
    let names = |s: &Sdl| s.dirdefs.iter().map(|t| t.name.clone()).collect::<Vec<_>>();
    if names(want) != names(got) {
        return format!("directives: expected {:?} got {:?}", names(want), names(got));
    }
    format!("directives: expected {:?} got {:?}", want.dirdefs, got.dirdefs)
}
