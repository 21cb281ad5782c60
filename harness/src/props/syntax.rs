//! P01, P02, P03: the parser and lexer against the harness's own parser and lexer.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::{dump, lex, parse, Prop};
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "random executable documents (all grammar productions), respaced with random trivia and string notations, \
                   token-mutated, and token soups; non-trivial: at least 4 tokens, judged accepted or rejected by the \
                   independent parser",
            gen: gen_p01,
            check: check_p01,
            fixed: fixed_p01,
        },
        Prop {
            id: "P02",
            rule: "random type-system documents, respaced, token-mutated, and token soups; non-trivial: at least 4 tokens",
            gen: gen_p02,
            check: check_p02,
            fixed: fixed_p02,
        },
        Prop {
            id: "P03",
            rule: "random literals and raw character sequences placed as an argument value; non-trivial: the text lexes as \
                   at least one literal or is rejected",
            gen: gen_p03,
            check: check_p03,
            fixed: fixed_p03,
        },
    ]
}

// -------------------------------------------------------------------- P01
fn gen_p01(r: &mut Rng) -> Case {
    let text = match r.below(10) {
        0 => {
            let n = r.range(1, 14);
            gen::soup(r, n)
        }
        1..=3 => {
            let t = gen::free_doc(r).text();
            gen::mutate_tokens(r, &t, gen::SOUP)
        }
        _ => gen::free_doc(r).text(),
    };
    let text = if r.pc(60) { gen::respace(r, &text) } else { text };
    Case::default().gql("document", text)
}
fn fixed_p01() -> Vec<Case> {
    let mut v: Vec<Case> = [
        "", " ", "{a}", "{}", "query{a}", "query Q{a}", "query($a:Int=1){a}", "query(){a}", "{a()}", "{a(b:$c)}",
        "query($a:Int=$b){a}", "fragment on on T{a}", "fragment F on on{a}", "{...on}", "{...on{a}}", "{...on on{a}}",
        "{... @a{b}}", "{...F@a}", "{on}", "{on:on}", "{a:b:c}", "subscription{a}", "mutation M@a{a}", "query Q Q{a}",
        "{a}{b}", "{a} query{b}", "fragment F on T{a} {a}", "fragment F on T", "{a{}}", "{a(b:{})}", "{a(b:[])}",
        "{a(b:{c:1 c:2})}", "query($a:[[Int!]!]!){a}", "query($a:Int!!){a}", "query(a:Int){a}", "{a(b:true c:null d:e)}",
        "query($a:Int @d(x:$b)){a}", "query($a:Int @d(x:1)){a}", "type A{a:Int}", "{a} }", "{ {a} }", "query query{query}",
        "fragment fragment on fragment{fragment}", "{a@on}", "{...F on}", "{...on @a}", "{a(b:on)}", "{a(on:1)}",
    ]
    .iter()
    .map(|s| Case::default().gql("document", s.to_string()))
    .collect();
    v.push(Case::default().fixed("document", deep(300, "{a", "}")));
    v.push(Case::default().fixed("document", format!("{{a(b:{})}}", deep(300, "[", "]"))));
    v.push(Case::default().fixed("document", format!("{{a(b:{})}}", deep(300, "[", ""))));
    v
}
fn deep(n: usize, a: &str, b: &str) -> String {
    a.repeat(n) + &b.repeat(n)
}
fn check_p01(c: &Case) -> Out {
    let text = c.get("document");
    let want = parse::parse_doc(text);
    let got = ExecutableDocument::parse(text);
    let key = match lex::lex(text) {
        Ok(t) if t.len() < 4 => None,
        _ => Some(text.to_string()),
    };
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let g = dump::doc(&g);
            if w != g {
                return fail("tree differs", format!("{}\nexpected {w:?}\ngot      {g:?}", diff_hint(&w, &g)));
            }
            Out::Ok(key)
        }
        (Ok(_), Err(e)) => fail(
            "valid document rejected",
            format!("the document is valid, the parser reports {:?}", e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
        ),
        (Err(w), Ok(g)) => {
            fail("invalid document accepted", format!("the document is invalid ({w}); the parser returned {:?}", dump::doc(&g)))
        }
        (Err(_), Err(e)) => {
            if e.is_empty() {
                return fail("no error", "parsing failed without any error".into());
            }
            Out::Ok(key)
        }
    }
}
fn diff_hint(w: &Doc, g: &Doc) -> String {
    if w.ops.len() != g.ops.len() || w.frags.len() != g.frags.len() {
        return "the number of definitions differs".into();
    }
    for (a, b) in w.ops.iter().zip(&g.ops) {
        if a != b {
            return format!("operation {:?} differs", a.name);
        }
    }
    for (a, b) in w.frags.iter().zip(&g.frags) {
        if a != b {
            return format!("fragment {:?} differs", a.name);
        }
    }
    String::new()
}

// -------------------------------------------------------------------- P02
fn gen_p02(r: &mut Rng) -> Case {
    let text = if r.pc(8) {
        let n = r.range(1, 14);
        gen::soup(r, n)
    } else {
        let cfg = gen::SchemaCfg { descs: true, weird_descs: r.pc(50), dirs: true, oneof: true, explicit_roots: true };
        let mut s = gen::schema(r, &cfg);
        // keep documents small enough that single mutations matter
        if r.pc(30) {
            while s.types.len() > 3 {
                s.types.pop();
            }
        }
        let t = if r.pc(30) { free_sdl(r).text() } else { s.text() };
        if r.pc(35) {
            gen::mutate_tokens(r, &t, gen::SOUP)
        } else {
            t
        }
    };
    let text = if r.pc(60) { gen::respace(r, &text) } else { text };
    // optional leading separators
    let text = if r.pc(20) { text.replacen("= ", "= | ", 1).replacen("implements ", "implements & ", 1) } else { text };
    Case::default().gql("document", text)
}
fn nm(r: &mut Rng) -> String {
    ["A", "B", "on", "type", "implements", "repeatable", "query", "input", "enum", "schema", "C1"][r.below(11)].into()
}
fn fdesc(r: &mut Rng) -> Option<String> {
    if r.pc(30) {
        Some(gen::weird_string(r))
    } else {
        None
    }
}
fn fiv(r: &mut Rng) -> InputVal {
    InputVal {
        desc: fdesc(r),
        name: nm(r),
        ty: gen::free_ty(r),
        default: if r.pc(40) { Some(gen::free_value(r, 2, true, true)) } else { None },
        dirs: gen::free_dirs(r, true),
    }
}
fn fivs(r: &mut Rng, lo: usize) -> Vec<InputVal> {
    (0..r.range(lo, 3)).map(|_| fiv(r)).collect()
}
/// Documents that need not make sense as a schema.
fn free_sdl(r: &mut Rng) -> Sdl {
    let mut s = Sdl::default();
    for _ in 0..r.range(1, 3) {
        match r.below(8) {
            0 => {
                let d = SchemaDef {
                    desc: fdesc(r),
                    dirs: gen::free_dirs(r, true),
                    roots: (0..r.range(1, 3))
                        .map(|_| (*r.pick(&[OpKind::Query, OpKind::Mutation, OpKind::Subscription]), nm(r)))
                        .collect(),
                };
                s.schema.push(d)
            }
            1 => {
                let d = DirDef {
                    desc: fdesc(r),
                    name: nm(r),
                    args: fivs(r, 0),
                    repeatable: r.pc(40),
                    locs: (0..r.range(1, 3)).map(|_| r.pick(parse::LOCATIONS).to_string()).collect(),
                };
                s.dirdefs.push(d)
            }
            k => {
                let kind = *r.pick(&[Kind::Scalar, Kind::Object, Kind::Interface, Kind::Union, Kind::Enum, Kind::Input]);
                let _ = k;
                let mut t = TypeDef::new(kind, &nm(r));
                t.desc = fdesc(r);
                t.dirs = gen::free_dirs(r, true);
                match kind {
                    Kind::Object | Kind::Interface => {
                        if r.pc(40) {
                            t.interfaces = (0..r.range(1, 3)).map(|_| nm(r)).collect();
                        }
                        t.fields = (0..r.range(1, 3))
                            .map(|_| FieldDef {
                                desc: fdesc(r),
                                name: nm(r),
                                args: fivs(r, 0),
                                ty: gen::free_ty(r),
                                dirs: gen::free_dirs(r, true),
                            })
                            .collect();
                    }
                    Kind::Union => t.members = (0..r.range(1, 3)).map(|_| nm(r)).collect(),
                    Kind::Enum => {
                        t.values = (0..r.range(1, 3))
                            .map(|_| EnumVal { desc: fdesc(r), name: nm(r), dirs: gen::free_dirs(r, true) })
                            .collect()
                    }
                    Kind::Input => t.inputs = fivs(r, 1),
                    Kind::Scalar => {}
                }
                s.types.push(t);
            }
        }
    }
    s
}
fn fixed_p02() -> Vec<Case> {
    [
        "", "scalar S", "type Query{a:Int}", "type Query{}", "type Query", "type Query implements A{a:Int}",
        "type Query implements & A & B{a:Int}", "union U=A", "union U=|A|B", "union U=", "union U", "enum E{}",
        "enum E{A true}", "enum E{A}", "input I{a:Int=1}", "input I{a:Int=$a}", "directive @a on FIELD",
        "directive @a repeatable on |FIELD|QUERY", "directive @a on", "directive @a(b:Int) on FIELD", "directive a on FIELD",
        "schema{query:Q}", "schema @a{query:Q mutation:M}", "schema{}", "schema{foo:Q}", "\"d\" schema{query:Q}",
        "\"d\" \"e\" scalar S", "\"d\" scalar S", "\"d\"", "extend type A{a:Int}", "{a}", "type A{a(b:Int):Int}",
        "type A{a():Int}", "interface A implements B{a:Int}", "interface A{a:Int!}", "type A{\"d\" a:Int @x}",
        "input I{\"d\" a:Int @x}", "scalar on", "type type{type:type}", "directive @on on ON", "directive @a on field",
        "directive @repeatable repeatable on FIELD", "type A{a:[Int!]!}", "enum E{A @d B}", "type Query{a:Int} junk",
        "junk type Query{a:Int}", "type Query{a:Int} type", "scalar S @a(b:[1 2 {c:d}])",
    ]
    .iter()
    .map(|s| Case::default().gql("document", s.to_string()))
    .collect()
}
fn check_p02(c: &Case) -> Out {
    let text = c.get("document");
    let want = parse::parse_sdl(text);
    let got = DefinitionDocument::<bluejay_parser::ast::definition::DefaultContext>::parse(text);
    let key = match lex::lex(text) {
        Ok(t) if t.len() < 4 => None,
        _ => Some(text.to_string()),
    };
    match (want, got) {
        (Ok(w), Ok(g)) => {
            // the tree is visible through a schema definition, which exists for well-formed documents
            match SchemaDefinition::try_from(&g) {
                Ok(sd) => {
                    let g = dump::schema(&sd);
                    let w = dump::normalise(&w);
                    if g != w {
                        return fail("tree differs", sdl_diff(&w, &g));
                    }
                }
                Err(_) => {
                    let n = w.types.len() + w.dirdefs.len() + w.schema.len();
                    if g.definition_count() != n {
                        return fail(
                            "number of definitions differs",
                            format!("expected {n} definitions, got {}", g.definition_count()),
                        );
                    }
                    // complete the document into a schema so the tree can still be compared
                    return match complete(&w) {
                        Some((t, full)) => compare_full(&t, &full, key),
                        None => Out::Ok(key),
                    };
                }
            }
            Out::Ok(key)
        }
        (Ok(_), Err(e)) => fail(
            "valid document rejected",
            format!("the document is valid, the parser reports {:?}", e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
        ),
        (Err(w), Ok(_)) => fail("invalid document accepted", format!("the document is invalid ({w})")),
        (Err(_), Err(e)) => {
            if e.is_empty() {
                return fail("no error", "parsing failed without any error".into());
            }
            Out::Ok(key)
        }
    }
}
/// Adds the definitions a free document refers to, where that is possible.
fn complete(w: &Sdl) -> Option<(String, Sdl)> {
    let mut s = w.clone();
    let mut names: Vec<&String> = s.types.iter().map(|t| &t.name).collect();
    names.sort();
    let n = names.len();
    names.dedup();
    if names.len() != n || s.schema.len() > 1 {
        return None;
    }
    let mut dn: Vec<String> = s.dirdefs.iter().map(|t| t.name.clone()).collect();
    dn.sort();
    let m = dn.len();
    dn.dedup();
    if dn.len() != m {
        return None;
    }
    let mut all_dirs: Vec<String> = vec![];
    let add_dirs = |d: &[Dir], all: &mut Vec<String>| all.extend(d.iter().map(|d| d.name.clone()));
    let mut outs: Vec<String> = vec![];
    let mut ins: Vec<String> = vec![];
    let mut ifs: Vec<String> = vec![];
    let mut objs: Vec<String> = vec![];
    let iv = |v: &InputVal, ins: &mut Vec<String>, all: &mut Vec<String>| {
        ins.push(v.ty.base().to_string());
        all.extend(v.dirs.iter().map(|d| d.name.clone()));
    };
    for d in &s.schema {
        add_dirs(&d.dirs, &mut all_dirs);
        let mut ks: Vec<OpKind> = d.roots.iter().map(|r| r.0).collect();
        ks.sort();
        ks.dedup();
        if ks.len() != d.roots.len() || !ks.contains(&OpKind::Query) {
            return None;
        }
        objs.extend(d.roots.iter().map(|r| r.1.clone()));
    }
    for d in &s.dirdefs {
        for a in &d.args {
            iv(a, &mut ins, &mut all_dirs);
        }
    }
    for t in &s.types {
        add_dirs(&t.dirs, &mut all_dirs);
        for f in &t.fields {
            add_dirs(&f.dirs, &mut all_dirs);
            outs.push(f.ty.base().to_string());
            for a in &f.args {
                iv(a, &mut ins, &mut all_dirs);
            }
        }
        for a in &t.inputs {
            iv(a, &mut ins, &mut all_dirs);
        }
        for v in &t.values {
            add_dirs(&v.dirs, &mut all_dirs);
        }
        ifs.extend(t.interfaces.iter().cloned());
        objs.extend(t.members.iter().cloned());
    }
    let kind_of = |s: &Sdl, n: &str| s.ty(n).map(|t| t.kind);
    for n in &objs {
        match kind_of(&s, n) {
            Some(Kind::Object) => {}
            Some(_) => return None,
            None => {
                let mut t = TypeDef::new(Kind::Object, n);
                t.fields.push(FieldDef { desc: None, name: "z".into(), args: vec![], ty: Ty::Named("Int".into(), false), dirs: vec![] });
                s.types.push(t);
            }
        }
    }
    for n in &ifs {
        match kind_of(&s, n) {
            Some(Kind::Interface) => {}
            Some(_) => return None,
            None => {
                let mut t = TypeDef::new(Kind::Interface, n);
                t.fields.push(FieldDef { desc: None, name: "z".into(), args: vec![], ty: Ty::Named("Int".into(), false), dirs: vec![] });
                s.types.push(t);
            }
        }
    }
    for n in ins.iter().chain(outs.iter()) {
        if gen::BUILTIN.contains(&n.as_str()) {
            continue;
        }
        if kind_of(&s, n).is_none() {
            s.types.push(TypeDef::new(Kind::Scalar, n));
        }
    }
    for n in &ins {
        if matches!(kind_of(&s, n), Some(Kind::Object | Kind::Interface | Kind::Union)) {
            return None;
        }
    }
    for n in &outs {
        if matches!(kind_of(&s, n), Some(Kind::Input)) {
            return None;
        }
    }
    for n in all_dirs {
        if s.dirdefs.iter().any(|d| d.name == n) || gen::builtin_dirdefs().iter().any(|d| d.name == n) {
            continue;
        }
        s.dirdefs.push(DirDef { desc: None, name: n, args: vec![], repeatable: true, locs: vec!["SCALAR".into()] });
    }
    if s.schema.is_empty() && s.ty("Query").is_none() {
        let mut t = TypeDef::new(Kind::Object, "Query");
        t.fields.push(FieldDef { desc: None, name: "z".into(), args: vec![], ty: Ty::Named("Int".into(), false), dirs: vec![] });
        s.types.push(t);
    }
    let extra = Sdl {
        schema: vec![],
        types: s.types[w.types.len()..].to_vec(),
        dirdefs: s.dirdefs[w.dirdefs.len()..].to_vec(),
    };
    // the original text is not available here: the definitions are printed again by the harness
    Some((w.text() + "\n" + &extra.text(), s))
}
fn compare_full(text: &str, full: &Sdl, key: Option<String>) -> Out {
    let g = match DefinitionDocument::<bluejay_parser::ast::definition::DefaultContext>::parse(text) {
        Ok(g) => g,
        Err(e) => {
            return fail(
                "valid document rejected",
                format!("completed document {text}\nis valid, the parser reports {:?}", e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
            )
        }
    };
    let r = SchemaDefinition::try_from(&g);
    match r {
        Ok(sd) => {
            let g = dump::schema(&sd);
            let w = dump::normalise(full);
            if g != w {
                return fail("tree differs", sdl_diff(&w, &g));
            }
            Out::Ok(key)
        }
        // well-formedness is P23's concern
        Err(_) => Out::Ok(key),
    }
}
pub fn sdl_diff(w: &Sdl, g: &Sdl) -> String {
    if w.schema != g.schema {
        return format!("schema definition: expected {:?}, got {:?}", w.schema, g.schema);
    }
    for a in &w.types {
        match g.ty(&a.name) {
            None => return format!("type {} is missing", a.name),
            Some(b) if a != b => return format!("type {}: expected {a:?}, got {b:?}", a.name),
            _ => {}
        }
    }
    for b in &g.types {
        if w.ty(&b.name).is_none() {
            return format!("type {} was added", b.name);
        }
    }
    for a in &w.dirdefs {
        match g.dirdefs.iter().find(|d| d.name == a.name) {
            None => return format!("directive {} is missing", a.name),
            Some(b) if a != b => return format!("directive {}: expected {a:?}, got {b:?}", a.name),
            _ => {}
        }
    }
    format!("expected {w:?}, got {g:?}")
}

// -------------------------------------------------------------------- P03
fn gen_p03(r: &mut Rng) -> Case {
    let piece = |r: &mut Rng| -> String {
        match r.below(14) {
            0 => gen::int(r).to_string(),
            1 => ["2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "00", "01", "-0", "-01", "-", "+1", "0"][r.below(12)].into(),
            2 => ["1.0", "1.", ".5", "1.5e3", "1e5", "1E+5", "1e-5", "1e", "1.e5", "1.5e400", "1e308", "1e309", "-0.0", "0.1", "00.1", "1.5.5", "1e5.5", "0x10", "1_000", "1a", "1.5a", "1e5a", "-a", "123456789.125"][r.below(24)].into(),
            3 => {
                let s = gen::weird_string(r);
                gen::alt_string(r, &s)
            }
            4 => {
                let s = gen::weird_string(r);
                quote(&s)
            }
            5 => raw_string(r),
            6 | 7 | 8 => block(r),
            9 => ["$a", "$", "$ a", "$1", "$_", "$$a", "$a$b", "$on"][r.below(8)].into(),
            10 => ["a", "_", "__x", "A1", "é", "aé", "a-b", "true", "null", "truex", "on"][r.below(11)].into(),
            11 => ["#c\n1", "#c\r1", "1#c", "\u{feff}1", "1\u{feff}", ",,1,,", "..", "....", "...", "?", ";", "%", "\u{0}", "\u{a0}1", "~"][r.below(15)].into(),
            12 => format!("[{} {}]", gen::int(r), gen::float(r)),
            _ => {
                // digits and letters at random
                let cs = b"0123456789.eE+-a_";
                (0..r.range(1, 6)).map(|_| *r.pick(cs) as char).collect()
            }
        }
    };
    let mut t = piece(r);
    if r.pc(25) {
        t = format!("[{} {}]", t, piece(r));
    } else if r.pc(10) {
        t = format!("[{}{}]", t, piece(r));
    }
    Case::default().raw("value", t)
}
fn raw_string(r: &mut Rng) -> String {
    const P: &[&str] = &[
        "a", " ", "\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\x", "\\", "\\u0041", "\\u00e9", "\\uD83D\\uDE00",
        "\\uD83D", "\\uDE00", "\\u{1F600}", "\\u{41}", "\\u{}", "\\u{110000}", "\\u{D800}", "\\u12", "\\u{zz}", "\n", "\r", "é",
        "🔥", "#", "'", "\\u0041\\u0042\\u0043", "\\u{0041}",
    ];
    let n = r.below(5);
    format!("\"{}\"", (0..n).map(|_| *r.pick(P)).collect::<String>())
}
fn block(r: &mut Rng) -> String {
    const P: &[&str] = &[
        "a", "b c", " ", "  ", "    ", "\t", "\n", "\n", "\n", "\r", "\r\n", "\n\n", "\\\"\"\"", "\"", "\"\"", "\\", "\\n", "é", "🔥",
        "\n  x", "\n    y", "\n ", "#", "\\\"",
    ];
    let n = r.below(8);
    format!("\"\"\"{}\"\"\"", (0..n).map(|_| *r.pick(P)).collect::<String>())
}
fn fixed_p03() -> Vec<Case> {
    [
        "1", "-1", "2147483648", "\"\"", "\"\"\"\"\"\"", "\"\"\"a\n   b\n  c\"\"\"", "\"\"\"\n  a\n    b\n\n\"\"\"", "\"\\uD83D\\uDE00\"",
        "\"\\u0041\\uD83D\\uDE00\"", "1e999", "-1e999", "\"\"\"  a\"\"\"", "\"\"\"a  \n\"\"\"", "\"\"\"\r\r\n a\"\"\"", "\"\\u{1F600}\"",
        "1.5e-3", "$a", "abc", "1a", "\"\"\"\\\"\"\"\"\"\"", "\"\"\" \n \n\"\"\"", "\"\"\"a\\\"\"\"b\"\"\"",
    ]
    .iter()
    .map(|s| Case::default().raw("value", s.to_string()))
    .collect()
}
fn check_p03(c: &Case) -> Out {
    let v = c.get("value");
    let text = format!("{{a(b:{v} )}}");
    let want = parse::parse_doc(&text);
    let got = ExecutableDocument::parse(&text);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let g = dump::doc(&g);
            if w != g {
                return fail("value differs", format!("expected {:?}\ngot      {:?}", w.ops, g.ops));
            }
            Out::Ok(Some(v.to_string()))
        }
        (Ok(w), Err(e)) => fail(
            "valid literal rejected",
            format!("expected {:?}, the parser reports {:?}", w.ops, e.iter().map(|e| e.message().to_string()).collect::<Vec<_>>()),
        ),
        (Err(w), Ok(g)) => fail("malformed literal accepted", format!("invalid ({w}), parsed as {:?}", dump::doc(&g).ops)),
        (Err(_), Err(_)) => Out::Ok(Some(v.to_string())),
    }
}
