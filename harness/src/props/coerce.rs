//! P06, P24: input coercion of literals and of JSON.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::oracle::{self, Keys, Sch};
use crate::{dump, parse, Prop};
use bluejay_core::definition::{ArgumentsDefinition as _, FieldDefinition as _, FieldsDefinition as _, InputValueDefinition as _, SchemaDefinition as _};
use bluejay_core::executable::{OperationDefinition as _, Selection as _, SelectionReference};
use bluejay_core::{AsIter as _, Value};
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};
use bluejay_validator::value::input_coercion::{CoerceInput, Error};
use serde_json::Value as J;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            rule: "random schema, input type and value (fitting the type, then perturbed), as GraphQL literal and as JSON; \
                   non-trivial: schema and value parse",
            gen: gen_p06,
            check: check_p06,
            fixed: fixed_p06,
        },
        Prop {
            id: "P24",
            rule: "random JSON values incl. boundary numbers; and random values given both as JSON and as literal for a random \
                   input type; non-trivial: everything parses",
            gen: gen_p24,
            check: check_p24,
            fixed: || {
                ["null", "true", "0", "-0", "2147483647", "2147483648", "-2147483648", "-2147483649", "1.0", "1e3", "-0.0",
                 "9223372036854775807", "9223372036854775808", "18446744073709551615", "1e300", "\"\"", "\"a\\u0000\"", "[]", "{}",
                 "[1,[2,[3.5]],{\"a\":null}]", "{\"b\":1,\"a\":[true]}"]
                .iter().map(|j| Case::default().raw("json", j.to_string())).collect()
            },
        },
    ]
}
const S1: &str = "type Query{a:Int} enum E{A B C} scalar Any input In{a:Int b:Int! c:[Int!] d:In e:[In!] f:Float!=3 g:[[E]]} \
   input One @oneOf{x:Int y:[Int] z:In} ";
fn fixed_p06() -> Vec<Case> {
    [
        ("Int", "1"), ("Int!", "null"), ("Int", "1.0"), ("Float", "1"), ("ID", "1"), ("ID", "\"a\""), ("ID", "1.5"), ("String", "1"), ("String", "A"),
        ("Boolean", "true"), ("Boolean", "1"), ("[Int]", "1"), ("[[Int]]", "1"), ("[[Int]]", "[1]"), ("[[Int]]", "[[1] null]"), ("[[Int!]!]", "[null [null]]"),
        ("[Int!]", "null"), ("[Int!]!", "null"), ("[[Int]]", "[[1] 2]"), ("E", "A"), ("E", "D"), ("E", "\"A\""), ("E", "true"), ("[E!]", "D"), ("In", "{}"),
        ("In", "{b:1}"), ("In", "{b:null}"), ("In", "{b:1 b:2}"), ("In", "{b:1 zz:1}"), ("In", "{b:1 a:\"x\"}"), ("In", "{b:1 c:1}"), ("In", "{b:1 c:[null]}"),
        ("In", "{b:1 d:{}}"), ("In", "{b:1 e:[{} {b:1} 3]}"), ("In", "{b:1 e:{b:1}}"), ("In", "{b:1 f:null}"), ("In", "{b:1 g:[[A D]]}"), ("In", "[{b:1}]"),
        ("In", "1"), ("[In]", "{b:1 d:{b:\"\"}}"), ("One", "{}"), ("One", "{x:1}"), ("One", "{x:null}"), ("One", "{x:1 y:null}"), ("One", "{x:1 y:1}"),
        ("One", "{z:{}}"), ("[One!]!", "[{x:1} {y:[1 2]} {}]"), ("Any", "{a:[1 A]}"), ("[Any]", "[1 [2]]"), ("Any!", "null"), ("String", "[\"a\"]"),
        ("[String]", "[\"a\" 1 [\"b\"]]"), ("In", "{b:1 c:[1 \"x\" 2.0]}"), ("In", "{b:[1]}"), ("In", "{b:1 a:$v}"), ("One", "{x:$v}"),
    ]
    .iter()
    .map(|(t, v)| Case::default().gql("schema", format!("{S1} type Zz{{f(x:{t}):Int}}")).gql("value", v.to_string()))
    .collect()
}
fn input_ty(r: &mut Rng, s: &Sdl) -> Ty {
    let mut names: Vec<String> = oracle::BUILTIN_SCALARS.iter().map(|s| s.to_string()).collect();
    for t in &s.types {
        match t.kind {
            Kind::Input => names.extend([t.name.clone(), t.name.clone(), t.name.clone()]),
            Kind::Scalar | Kind::Enum => names.push(t.name.clone()),
            _ => {}
        }
    }
    let mut t = Ty::Named(r.pick(&names).clone(), r.pc(40));
    while r.pc(30) {
        t = Ty::List(Box::new(t), r.pc(40));
    }
    t
}
fn gen_p06(r: &mut Rng) -> Case {
    let cfg = gen::SchemaCfg { descs: false, weird_descs: false, dirs: false, oneof: true, explicit_roots: false };
    let s = gen::schema(r, &cfg);
    let t = input_ty(r, &s);
    let bad = [0, 5, 15, 40][r.below(4)];
    let mut v = gen::value_of(r, &s, &t, 3, bad).text();
    if r.pc(15) {
        v = gen::mutate_tokens(r, &v, &["null", "1", "\"a\"", "[", "]", "{", "}", "f0", ":", "V0", "true", "1.5", "$v"]);
    }
    Case::default().gql("schema", format!("{} type Zz {{ f ( x : {} ) : Int }}", s.text(), t.text())).gql("value", v)
}
fn path(v: Vec<String>) -> String {
    if v.is_empty() {
        "/".into()
    } else {
        v.iter().map(|x| format!("/{x}")).collect()
    }
}
pub fn key<const C: bool, V: Value<C>>(e: &Error<'_, C, V>) -> String {
    let p = |p: &bluejay_validator::Path| path(p.to_vec::<String>());
    match e {
        Error::NullValueForRequiredType { input_type_name, path, .. } => format!("null {input_type_name} at {}", p(path)),
        Error::NoImplicitConversion { input_type_name, path, .. } => format!("conversion {input_type_name} at {}", p(path)),
        Error::NoEnumMemberWithName { name, enum_type_name, path, .. } => format!("enum {name} of {enum_type_name} at {}", p(path)),
        Error::NoValueForRequiredFields { field_names, path, .. } => format!("missing {} at {}", field_names.join(","), p(path)),
        Error::NonUniqueFieldNames { field_name, path, .. } => format!("duplicate {field_name} at {}", p(path)),
        Error::NoInputFieldWithName { field, path, .. } => format!("unknown {} at {}", field.as_ref(), p(path)),
        Error::CustomScalarInvalidValue { custom_scalar_type_name, path, .. } => format!("scalar {custom_scalar_type_name} at {}", p(path)),
        Error::OneOfInputNullValues { null_entries, path, .. } => format!("oneof-null x{} at {}", null_entries.len(), p(path)),
        Error::OneOfInputNotSingleNonNullValue { non_null_entries, path, .. } => {
            format!("oneof-count x{} at {}", non_null_entries.len(), p(path))
        }
    }
}
/// as JSON, when the value has a JSON form
pub fn to_json(v: &Val) -> Option<J> {
    Some(match v {
        Val::Var(_) => return None,
        Val::Int(i) => J::from(*i),
        Val::Float(f) => J::from(*f),
        Val::Str(s) | Val::Enum(s) => J::from(s.clone()),
        Val::Bool(b) => J::from(*b),
        Val::Null => J::Null,
        Val::List(l) => J::Array(l.iter().map(to_json).collect::<Option<_>>()?),
        Val::Obj(o) => {
            let mut m = serde_json::Map::new();
            for (k, x) in o {
                if m.insert(k.clone(), to_json(x)?).is_some() {
                    return None;
                }
            }
            J::Object(m)
        }
    })
}
fn enum_as_str(v: &Val) -> Val {
    match v {
        Val::Enum(e) => Val::Str(e.clone()),
        Val::List(l) => Val::List(l.iter().map(enum_as_str).collect()),
        Val::Obj(o) => Val::Obj(o.iter().map(|(k, x)| (k.clone(), enum_as_str(x))).collect()),
        v => v.clone(),
    }
}
struct Both {
    lit: Vec<String>,
    json: Option<Vec<String>>,
    lit_exp: Keys,
    json_exp: Keys,
    val: Val,
}
fn run(c: &Case) -> Option<Both> {
    let st = c.get("schema");
    let dd: DefinitionDocument = DefinitionDocument::parse(st).ok()?;
    let sd = SchemaDefinition::try_from(&dd).ok()?;
    let sdl = parse::parse_sdl(st).ok()?;
    let dt = format!("{{ f ( x : {} ) }}", c.get("value"));
    let ed = ExecutableDocument::parse(dt.as_str()).ok()?;
    let doc = parse::parse_doc(&dt).ok()?;
    let Sel::Field(f) = &doc.ops.first()?.sels[0] else { return None };
    if doc.ops.len() != 1 || !doc.frags.is_empty() || f.name != "f" || f.args.len() != 1 || f.args[0].0 != "x" || f.sels.is_some() {
        return None;
    }
    let val = f.args[0].1.clone();
    let sch = Sch::new(&sdl);
    let ty = sch.ty("Zz")?.field("f")?.args.first()?.ty.clone();
    // the library's side
    let td = sd.get_type_definition("Zz")?;
    let fields = td.fields_definition()?;
    let fdef = fields.get("f")?;
    let ivd = fdef.arguments_definition()?.get("x")?;
    let op = bluejay_core::executable::ExecutableDocument::operation_definitions(&ed).next()?;
    let sel = op.as_ref().selection_set().iter().next()?;
    let SelectionReference::Field(field) = sel.as_ref() else { return None };
    let args = bluejay_core::executable::Field::arguments(field)?;
    let arg = args.iter().next()?;
    let argv = bluejay_core::Argument::<false>::value(arg);
    let lit = match sd.coerce_value(ivd.r#type(), argv, Default::default()) {
        Ok(()) => vec![],
        Err(e) => {
            let mut v: Vec<String> = e.iter().map(key).collect();
            if v.is_empty() {
                v.push("error without report".into());
            }
            v
        }
    };
    let mut lit_exp = Keys::default();
    oracle::coerce(&sch, &ty, &val, false, true, "", false, &mut lit_exp);
    let mut json_exp = Keys::default();
    let j = to_json(&val);
    let json = j.as_ref().map(|j| {
        oracle::coerce(&sch, &ty, &enum_as_str(&val), true, true, "", false, &mut json_exp);
        match sd.coerce_const_value(ivd.r#type(), j, Default::default()) {
            Ok(()) => vec![],
            Err(e) => {
                let mut v: Vec<String> = e.iter().map(key).collect();
                if v.is_empty() {
                    v.push("error without report".into());
                }
                v
            }
        }
    });
    Some(Both { lit, json, lit_exp, json_exp, val })
}
fn check_p06(c: &Case) -> Out {
    let Some(b) = run(c) else { return Out::Skip };
    if let Some((class, d)) = b.lit_exp.judge(&b.lit) {
        return fail(&format!("literal: {class}"), format!("{d}\nexpected {:?}\nreported {:?}", b.lit_exp, b.lit));
    }
    if let Some(j) = &b.json {
        if let Some((class, d)) = b.json_exp.judge(j) {
            return fail(&format!("json: {class}"), format!("{d}\nexpected {:?}\nreported {j:?}", b.json_exp));
        }
    }
    Out::Ok(Some(format!("{} {}", c.get("schema"), c.get("value"))))
}
fn any_json(r: &mut Rng, d: usize) -> String {
    match r.below(if d == 0 { 5 } else { 8 }) {
        0 => "null".into(),
        1 => ["true", "false"][r.below(2)].into(),
        2 => J::from(gen::weird_string(r)).to_string(),
        3 => ["2147483647", "2147483648", "-2147483648", "-2147483649", "1e3", "1.0", "0.0", "-0", "9223372036854775808", "1e-7", "4294967296", "-4294967297", "123456789012"][r.below(13)].into(),
        4 => J::from(gen::int(r)).to_string(),
        5 | 6 => format!("[{}]", (0..r.below(4)).map(|_| any_json(r, d - 1)).collect::<Vec<_>>().join(",")),
        _ => format!(
            "{{{}}}",
            (0..r.below(4)).map(|i| format!("{}:{}", J::from(if r.pc(80) { format!("k{i}") } else { gen::plain_string(r) + &i.to_string() }), any_json(r, d - 1))).collect::<Vec<_>>().join(",")
        ),
    }
}
fn gen_p24(r: &mut Rng) -> Case {
    if r.pc(50) {
        return Case::default().raw("json", any_json(r, 3));
    }
    gen_p06(r)
}
fn same(v: &Val, j: &J) -> bool {
    match (v, j) {
        (Val::Null, J::Null) => true,
        (Val::Bool(a), J::Bool(b)) => a == b,
        (Val::Str(a), J::String(b)) => a == b,
        (Val::List(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Val::Obj(a), J::Object(b)) => {
            a.len() == b.len() && b.iter().all(|(k, y)| a.iter().any(|(l, x)| k == l && same(x, y)))
        }
        (v, J::Number(n)) => {
            let t = n.to_string();
            match t.parse::<i128>() {
                Ok(i) if i32::try_from(i).is_ok() && t != "-0" => *v == Val::Int(i as i32),
                _ => matches!(v, Val::Float(f) if t.parse::<f64>().map_or(false, |x| x == *f)),
            }
        }
        _ => false,
    }
}
fn check_p24(c: &Case) -> Out {
    if c.parts.iter().any(|p| p.name == "json") {
        let Ok(j) = serde_json::from_str::<J>(c.get("json")) else { return Out::Skip };
        let v: Val = dump::val::<true, J>(&j);
        if !same(&v, &j) {
            return fail("json structure", format!("json {j}\nread as {v:?}"));
        }
        let w: Val = dump::val::<false, J>(&j);
        if w != v {
            return fail("json structure", format!("json {j}\nread as {v:?} and {w:?}"));
        }
        return Out::Ok(Some(c.get("json").to_string()));
    }
    let Some(b) = run(c) else { return Out::Skip };
    let Some(json) = &b.json else { return Out::Skip };
    // both notations exist unless a string stands for an enum member or the reverse
    let mut text = false;
    fn has(v: &Val) -> bool {
        match v {
            Val::Str(_) | Val::Enum(_) => true,
            Val::List(l) => l.iter().any(has),
            Val::Obj(o) => o.iter().any(|x| has(&x.1)),
            _ => false,
        }
    }
    text |= has(&b.val);
    let (lit_ok, json_ok) = (b.lit.is_empty(), json.is_empty());
    if lit_ok && !json_ok || (!text && lit_ok != json_ok) {
        return fail("json and literal differ", format!("literal: {:?}\njson: {:?}", b.lit, json));
    }
    Out::Ok(Some(format!("{} {}", c.get("schema"), c.get("value"))))
}
