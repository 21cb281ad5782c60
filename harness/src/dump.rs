//! Reads the trees of the code under test through its public core traits into the harness's own trees.
use crate::ast::*;
use bluejay_core::definition as cd;
use bluejay_core::definition::prelude::*;
use bluejay_core::executable::*;
use bluejay_core::{
    Argument, AsIter, Directive, ObjectValue, OperationType, Value, ValueReference, Variable,
};

pub fn val<const C: bool, V: Value<C>>(v: &V) -> Val {
    match v.as_ref() {
        ValueReference::Variable(v) => Val::Var(v.name().to_string()),
        ValueReference::Integer(i) => Val::Int(i),
        ValueReference::Float(f) => Val::Float(f),
        ValueReference::String(s) => Val::Str(s.to_string()),
        ValueReference::Boolean(b) => Val::Bool(b),
        ValueReference::Null => Val::Null,
        ValueReference::Enum(e) => Val::Enum(e.to_string()),
        ValueReference::List(l) => Val::List(l.iter().map(val).collect()),
        ValueReference::Object(o) => {
            Val::Obj(o.iter().map(|(k, v)| (k.as_ref().to_string(), val(v))).collect())
        }
    }
}
pub fn args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> Args {
    a.map(|a| a.iter().map(|a| (a.name().to_string(), val(a.value()))).collect()).unwrap_or_default()
}
pub fn dirs<const C: bool, D: bluejay_core::Directives<C>>(d: Option<&D>) -> Vec<Dir> {
    d.map(|d| d.iter().map(|d| Dir { name: d.name().to_string(), args: args(d.arguments()) }).collect())
        .unwrap_or_default()
}
pub fn vty<T: VariableType>(t: &T) -> Ty {
    match t.as_ref() {
        VariableTypeReference::Named(n, r) => Ty::Named(n.to_string(), r),
        VariableTypeReference::List(t, r) => Ty::List(Box::new(vty(t)), r),
    }
}
pub fn sels<E: ExecutableDocument>(s: &E::SelectionSet) -> Vec<Sel> {
    s.iter()
        .map(|s| match s.as_ref() {
            SelectionReference::Field(f) => Sel::Field(FieldSel {
                alias: f.alias().map(|a| a.to_string()),
                name: f.name().to_string(),
                args: args(f.arguments()),
                dirs: dirs(f.directives()),
                sels: f.selection_set().map(|s| sels::<E>(s)),
            }),
            SelectionReference::FragmentSpread(f) => {
                Sel::Spread { name: f.name().to_string(), dirs: dirs(f.directives()) }
            }
            SelectionReference::InlineFragment(f) => Sel::Inline {
                cond: f.type_condition().map(|c| c.to_string()),
                dirs: dirs(f.directives()),
                sels: sels::<E>(f.selection_set()),
            },
        })
        .collect()
}
pub fn kind(o: OperationType) -> OpKind {
    match o {
        OperationType::Query => OpKind::Query,
        OperationType::Mutation => OpKind::Mutation,
        OperationType::Subscription => OpKind::Subscription,
    }
}
pub fn doc<E: ExecutableDocument>(e: &E) -> Doc {
    let ops = e
        .operation_definitions()
        .map(|o| {
            let r = o.as_ref();
            Op {
                implicit: matches!(r, OperationDefinitionReference::Implicit(_)),
                kind: kind(r.operation_type()),
                name: r.name().map(|n| n.to_string()),
                vars: r
                    .variable_definitions()
                    .map(|v| {
                        v.iter()
                            .map(|v| VarDef {
                                name: v.variable().to_string(),
                                ty: vty(v.r#type()),
                                default: v.default_value().map(val),
                                dirs: dirs(v.directives()),
                            })
                            .collect()
                    })
                    .unwrap_or_default(),
                dirs: dirs(r.directives()),
                sels: sels::<E>(r.selection_set()),
            }
        })
        .collect();
    let frags = e
        .fragment_definitions()
        .map(|f| Frag {
            name: f.name().to_string(),
            cond: f.type_condition().to_string(),
            dirs: dirs(f.directives()),
            sels: sels::<E>(f.selection_set()),
        })
        .collect();
    Doc { ops, frags }
}

// ---------------------------------------------------------------- schema
pub fn ity<T: cd::InputType>(t: &T) -> Ty {
    match t.as_shallow_ref() {
        cd::ShallowInputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        cd::ShallowInputTypeReference::List(t, r) => Ty::List(Box::new(ity(t)), r),
    }
}
pub fn oty<T: cd::OutputType>(t: &T) -> Ty {
    match t.as_shallow_ref() {
        cd::ShallowOutputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        cd::ShallowOutputTypeReference::List(t, r) => Ty::List(Box::new(oty(t)), r),
    }
}
pub fn s(x: Option<&str>) -> Option<String> {
    x.map(|s| s.to_string())
}
pub fn ivd<I: cd::InputValueDefinition>(i: &I) -> InputVal {
    InputVal {
        desc: s(i.description()),
        name: i.name().to_string(),
        ty: ity(i.r#type()),
        default: i.default_value().map(val),
        dirs: dirs(i.directives()),
    }
}
pub fn argdefs<A: cd::ArgumentsDefinition>(a: Option<&A>) -> Vec<InputVal> {
    a.map(|a| a.iter().map(ivd).collect()).unwrap_or_default()
}
pub fn field<F: cd::FieldDefinition>(f: &F) -> FieldDef {
    FieldDef {
        desc: s(f.description()),
        name: f.name().to_string(),
        args: argdefs(f.arguments_definition()),
        ty: oty(f.r#type()),
        dirs: dirs(f.directives()),
    }
}
pub fn fields<F: cd::FieldsDefinition>(f: &F) -> Vec<FieldDef> {
    f.iter().filter(|f| !f.is_builtin()).map(field).collect()
}
pub fn ifs<I: cd::InterfaceImplementations>(i: Option<&I>) -> Vec<String> {
    i.map(|i| i.iter().map(|i| i.name().to_string()).collect()).unwrap_or_default()
}
pub fn typedef<T: cd::TypeDefinition>(t: cd::TypeDefinitionReference<'_, T>) -> Option<TypeDef> {
    use cd::TypeDefinitionReference as R;
    let mk = |k, n: &str, d: Option<&str>, dirs: Vec<Dir>| {
        let mut t = TypeDef::new(k, n);
        t.desc = s(d);
        t.dirs = dirs;
        t
    };
    Some(match t {
        R::BuiltinScalar(_) => return None,
        R::CustomScalar(c) => mk(Kind::Scalar, c.name(), c.description(), dirs(c.directives())),
        R::Object(o) => {
            let mut t = mk(Kind::Object, o.name(), o.description(), dirs(o.directives()));
            t.interfaces = ifs(o.interface_implementations());
            t.fields = fields(o.fields_definition());
            t
        }
        R::Interface(o) => {
            let mut t = mk(Kind::Interface, o.name(), o.description(), dirs(o.directives()));
            t.interfaces = ifs(o.interface_implementations());
            t.fields = fields(o.fields_definition());
            t
        }
        R::InputObject(o) => {
            let mut t = mk(Kind::Input, o.name(), o.description(), dirs(o.directives()));
            t.inputs = o.input_field_definitions().iter().map(ivd).collect();
            t
        }
        R::Enum(o) => {
            let mut t = mk(Kind::Enum, o.name(), o.description(), dirs(o.directives()));
            t.values = o
                .enum_value_definitions()
                .iter()
                .map(|v| EnumVal { desc: s(v.description()), name: v.name().to_string(), dirs: dirs(v.directives()) })
                .collect();
            t
        }
        R::Union(o) => {
            let mut t = mk(Kind::Union, o.name(), o.description(), dirs(o.directives()));
            t.members = o.union_member_types().iter().map(|m| m.name().to_string()).collect();
            t
        }
    })
}
/// Types and directive definitions sorted by name; builtins left out; roots as one schema definition.
pub fn schema<S: cd::SchemaDefinition>(sd: &S) -> Sdl {
    let mut roots = vec![(OpKind::Query, sd.query().name().to_string())];
    if let Some(m) = sd.mutation() {
        roots.push((OpKind::Mutation, m.name().to_string()));
    }
    if let Some(m) = sd.subscription() {
        roots.push((OpKind::Subscription, m.name().to_string()));
    }
    let mut types: Vec<TypeDef> =
        sd.type_definitions().filter(|t| !t.is_builtin()).filter_map(|t| typedef(t)).collect();
    types.sort_by(|a, b| a.name.cmp(&b.name));
    let mut dirdefs: Vec<DirDef> = sd
        .directive_definitions()
        .filter(|d| !d.is_builtin())
        .map(|d| DirDef {
            desc: s(d.description()),
            name: d.name().to_string(),
            args: argdefs(d.arguments_definition()),
            repeatable: d.is_repeatable(),
            locs: d.locations().iter().map(|l| l.to_string()).collect(),
        })
        .collect();
    dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
    Sdl { schema: vec![SchemaDef { desc: s(sd.description()), dirs: dirs(sd.directives()), roots }], types, dirdefs }
}
/// The same normal form of a tree read by the harness's own parser.
pub fn normalise(sdl: &Sdl) -> Sdl {
    let mut o = sdl.clone();
    o.types.sort_by(|a, b| a.name.cmp(&b.name));
    o.dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
    if let Some(s) = o.schema.first_mut() {
        s.roots.sort();
    } else {
        let mut roots = vec![];
        for (k, n) in
            [(OpKind::Query, "Query"), (OpKind::Mutation, "Mutation"), (OpKind::Subscription, "Subscription")]
        {
            if sdl.ty(n).is_some() {
                roots.push((k, n.to_string()));
            }
        }
        o.schema.push(SchemaDef { desc: None, dirs: vec![], roots });
    }
    o
}
