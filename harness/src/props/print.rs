//! P04, P05: print and parse again.
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::{dump, lex, Prop};
use bluejay_core::definition::{SchemaDefinition as _, TypeDefinitionReference as R};
use bluejay_core::AsIter;
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};
use bluejay_printer::{definition::SchemaDefinitionPrinter, executable::ExecutableDocumentPrinter};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P04",
            rule: "random executable documents covering every production and literal notation, respaced; non-trivial: the \
                   document parses and has at least 4 tokens",
            gen: gen_p04,
            check: check_p04,
            fixed: || {
                ["{a}", "query Q($a:[Int!]!=[1] @d){a}", "fragment F on T @d(a:1){a} {...F @e}", "{a(b:1e300)}", "{a(b:1e-11)}",
                 "{a(b:-0.0)}", "{a(b:0.1)}", "{a(b:1e21)}", "{a(b:123456789.000000000001)}", "{a(b:\"\\u0000\\u001f\\\"\\\\\")}",
                 "{a(b:\"\"\"\n  x\n    y\n\"\"\")}", "{a(b:{})}", "{a(b:{c:{d:[]}})}", "{... @a{b}}", "{...on T@a{b}}",
                 "subscription @a{a:b(c:$d)@e{f}}", "mutation M{a}{b}", "{a(b:5e-324)}", "{a(b:1.7976931348623157e308)}"]
                .iter().map(|s| Case::default().gql("document", s.to_string())).collect()
            },
        },
        Prop {
            id: "P05",
            rule: "random schemas with every definition kind, descriptions of arbitrary text, directives and defaults; \
                   non-trivial: the schema parses",
            gen: gen_p05,
            check: check_p05,
            fixed: || {
                ["type Query{a:Int}", "schema{query:Q} type Q{a:Int}", "schema{query:Query} type Query{a:Int} type Mutation{a:Int}",
                 "schema{query:Query} type Query{a:Int} type Subscription{a:Int}", "\"d\" schema{query:Query} type Query{a:Int}",
                 "schema @d{query:Query} type Query{a:Int} directive @d on SCHEMA",
                 "schema{query:Query mutation:M} type Query{a:Int} type M{a:Int}",
                 "schema{query:M mutation:Query} type Query{a:Int} type M{a:Int}",
                 "\"\" type Query{\"  x\" a:Int}", "type Query{\"x \" a(\"\\n\" b:Int=1e300 @deprecated):Int}",
                 "type Query{\"a\\r\\nb\" a:Int}", "type Query{\"\\\"\\\"\\\"\" a:Int}", "type Query{\"a\\\\\" a:Int}",
                 "type Query{\"a\\n\" a:Int}", "type Query{\"  a\\n  b\" a:Int}", "type Query{\"a\\n  b\" a:Int}",
                 "type Query{\"\\u0000\" a:Int}", "type Query{\"a\\\\\\\"\\\"\\\"\" a:Int}", "type Query{\"\\t\" a:Int}"]
                .iter().map(|s| Case::default().gql("schema", s.to_string())).collect()
            },
        },
    ]
}
fn gen_p04(r: &mut Rng) -> Case {
    let t = gen::free_doc(r).text();
    let t = if r.pc(50) { gen::respace(r, &t) } else { t };
    Case::default().gql("document", t)
}
fn check_p04(c: &Case) -> Out {
    let text = c.get("document");
    let Ok(a) = ExecutableDocument::parse(text) else { return Out::Skip };
    let printed = ExecutableDocumentPrinter::to_string(&a);
    let b = match ExecutableDocument::parse(printed.as_str()) {
        Ok(b) => b,
        Err(e) => {
            return fail(
                "printed text does not parse",
                format!("printed:\n{printed}\nerrors: {:?}", e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
            )
        }
    };
    let (mut da, mut db) = (dump::doc(&a), dump::doc(&b));
    for d in [&mut da, &mut db] {
        for o in &mut d.ops {
            o.implicit = false;
        }
    }
    if da != db {
        return fail("document changed", format!("printed:\n{printed}\nbefore {da:?}\nafter  {db:?}"));
    }
    let again = ExecutableDocumentPrinter::to_string(&b);
    if again != printed {
        return fail("printing not idempotent", format!("first:\n{printed}\nsecond:\n{again}"));
    }
    let n = lex::lex(text).map(|t| t.len()).unwrap_or(0);
    Out::Ok((n >= 4).then(|| text.to_string()))
}
fn gen_p05(r: &mut Rng) -> Case {
    let cfg = gen::SchemaCfg { descs: true, weird_descs: r.pc(60), dirs: true, oneof: true, explicit_roots: true };
    let s = gen::schema(r, &cfg);
    let mut t = s.text();
    // types that carry the default root names without being roots
    for n in ["Mutation", "Subscription"] {
        if r.pc(25) && s.types.iter().all(|t| t.name != n) {
            let from = *r.pick(&["O0", "O1", "N0", "E0", "I0", "U0", "S0"]);
            t = rename(&t, from, n);
        }
    }
    let t = if r.pc(30) { gen::respace(r, &t) } else { t };
    Case::default().gql("schema", t)
}
pub fn rename(text: &str, from: &str, to: &str) -> String {
    let Ok(toks) = lex::lex(text) else { return text.to_string() };
    let mut o = String::new();
    let mut at = 0;
    for t in toks {
        o.push_str(&text[at..t.s]);
        let x = &text[t.s..t.e];
        o.push_str(if x == from { to } else { x });
        at = t.e;
    }
    o.push_str(&text[at..]);
    o
}
/// every order the schema shows: (types, fields per type)
fn order(s: &SchemaDefinition) -> Vec<String> {
    let mut v = vec![];
    for t in s.type_definitions() {
        use bluejay_core::definition::{FieldDefinition, InterfaceTypeDefinition, ObjectTypeDefinition};
        v.push(t.name().to_string());
        match t {
            R::Object(o) => v.extend(o.fields_definition().iter().map(|f| f.name().to_string())),
            R::Interface(o) => v.extend(o.fields_definition().iter().map(|f| f.name().to_string())),
            _ => {}
        }
    }
    v.sort();
    v
}
fn check_p05(c: &Case) -> Out {
    let text = c.get("schema");
    let Ok(da): Result<DefinitionDocument, _> = DefinitionDocument::parse(text) else { return Out::Skip };
    let Ok(a) = SchemaDefinition::try_from(&da) else { return Out::Skip };
    let printed = SchemaDefinitionPrinter::to_string(&a);
    let db: DefinitionDocument = match DefinitionDocument::parse(printed.as_str()) {
        Ok(b) => b,
        Err(e) => {
            return fail(
                "printed schema does not parse",
                format!("printed:\n{printed}\nerrors: {:?}", e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
            )
        }
    };
    let b = match SchemaDefinition::try_from(&db) {
        Ok(b) => b,
        Err(e) => return fail("printed schema is not a schema", format!("printed:\n{printed}\nerrors: {:?}", e.len())),
    };
    let (sa, sb) = (dump::schema(&a), dump::schema(&b));
    if sa != sb {
        for (x, y) in sa.types.iter().zip(&sb.types) {
            if x != y {
                return fail("schema changed", format!("printed:\n{printed}\nbefore {x:?}\nafter  {y:?}"));
            }
        }
        return fail("schema changed", format!("printed:\n{printed}\nbefore {sa:?}\nafter  {sb:?}"));
    }
    if order(&a) != order(&b) {
        return fail("schema changed", format!("printed:\n{printed}\nbefore {:?}\nafter  {:?}", order(&a), order(&b)));
    }
    let again = SchemaDefinitionPrinter::to_string(&b);
    if again != printed {
        return fail("printing not idempotent", format!("first:\n{printed}\nsecond:\n{again}"));
    }
    Out::Ok(Some(text.to_string()))
}
