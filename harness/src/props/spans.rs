//! P26: the positions reported for syntax nodes and errors.
use crate::ast::*;
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::{dump, lex, parse, Prop};
use bluejay_core::AsIter as _;
use bluejay_core::definition::{
    FieldDefinition as _, HasDirectives as _, InputObjectTypeDefinition as _,
    InputType as _, InputValueDefinition as _, ObjectTypeDefinition as _, SchemaDefinition as _, TypeDefinitionReference,
};
use bluejay_core::executable::{
    ExplicitOperationDefinition as _, Field as _, FragmentDefinition as _, FragmentSpread as _, InlineFragment as _, VariableDefinition as _, VariableType as _, VariableTypeReference,
};
use bluejay_core::Directive as _;
use bluejay_parser::ast::{
    self as pa,
    definition::{self as pd, DefinitionDocument, SchemaDefinition},
    executable::{self as pe, ExecutableDocument},
    Parse,
};
use bluejay_parser::{error::SpanToLocation, Error, HasSpan, Span};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P26",
        rule: "random executable and type-system documents, respaced with random trivia, string notations and non-ASCII comments, \
               some token-mutated; every node's span is cut out of the text and parsed again by the independent parser; \
               non-trivial: at least 4 tokens",
        gen,
        check,
        fixed,
    }]
}
fn gen(r: &mut Rng) -> Case {
    let sdl = r.pc(35);
    let t = if sdl {
        let cfg = gen::SchemaCfg { descs: true, weird_descs: r.pc(50), dirs: true, oneof: true, explicit_roots: true };
        gen::schema(r, &cfg).text()
    } else {
        gen::free_doc(r).text()
    };
    let t = if r.pc(25) { gen::mutate_tokens(r, &t, gen::SOUP) } else { t };
    let mut t = if r.pc(70) { gen::respace(r, &t) } else { t };
    if r.pc(30) {
        t = format!("# \u{e9}\u{4e2d}\u{1f600} {}{t}", ["\n", "\r", "\r\n"][r.below(3)]);
    }
    if r.pc(10) {
        t.push_str(["$", "\u{e9}", "\"", "\"\"\"", "1x", "&"][r.below(6)]);
    }
    Case::default().fixed("kind", if sdl { "schema" } else { "executable" }.into()).gql("text", t)
}
fn fixed() -> Vec<Case> {
    let mut v: Vec<Case> = [
        "{ ...F @a }", "{ a: b(c: [1 {d: $e}]) @f { ...on T @g { h } ... { i } } }", "query Q($a: [[Int!]!]! = 1 @b) @c { d }",
        "fragment F on T @a { b }", "{", "", " ", "{a", "\n\n {a ]", "# \u{e9}\n{ \u{e9}", "{a(b: \"\u{e9}\" c: \"\"\"\u{4e2d}\r\n\"\"\" )", "\r\n\r{a} )",
        "{a(b:", "query(", "{a} fragment on",
    ]
    .iter()
    .map(|s| Case::default().fixed("kind", "executable".into()).gql("text", s.to_string()))
    .collect();
    for s in [
        "type Query { a(b: [[Int!]!]! = 1 @deprecated): [Int!]! }", "type Query { a: Int } enum E { true }", "type", "type Query {", "\r\ninput I { a: Int = }",
        "type Query { a: Int } input I { a: [I!], b: [[Int]!], c: Int! }", "directive @d on NOWHERE", "schema { foo: Query }",
    ] {
        v.push(Case::default().fixed("kind", "schema".into()).gql("text", s.to_string()));
    }
    v
}

// ------------------------------------------------------------------ nodes
struct W<'s> {
    text: &'s str,
    bad: Option<(String, String)>,
    n: usize,
}
impl<'s> W<'s> {
    fn err(&mut self, class: &str, d: String) {
        if self.bad.is_none() {
            self.bad = Some((class.into(), d));
        }
    }
    fn slice(&mut self, what: &str, s: &Span) -> Option<&'s str> {
        self.n += 1;
        let r = s.byte_range().clone();
        let x = if r.start <= r.end { self.text.get(r.clone()) } else { None };
        if x.is_none() {
            self.err("not a range of the text", format!("{what}: span {r:?} of a text of {} bytes", self.text.len()));
        }
        x
    }
    /// the span's text starts and ends with a token and parses to `want`
    fn node<X: PartialEq + std::fmt::Debug>(&mut self, what: &str, s: &Span, want: X, f: impl Fn(&mut parse::P) -> Result<X, usize>) {
        let Some(x) = self.slice(what, s) else { return };
        let say = |why: &str| format!("{what}: the span covers {x:?} ({why}), the node is {want:?}");
        let t = match lex::lex(x) {
            Ok(t) if !t.is_empty() => t,
            _ => return self.err("span text is not the node", say("not tokens")),
        };
        if t[0].s != 0 || t[t.len() - 1].e != x.len() {
            return self.err("span has blank ends", say("ignored text at an end"));
        }
        let mut p = parse::P { t: &t, i: 0 };
        match f(&mut p) {
            Ok(g) if g == want && p.i == t.len() => {}
            Ok(g) if p.i == t.len() => self.err("span text is not the node", say(&format!("which is {g:?}"))),
            _ => self.err("span text is not the node", say("which does not parse as one")),
        }
    }
    fn word(&mut self, what: &str, s: &Span, want: &str) {
        if let Some(x) = self.slice(what, s) {
            if x != want {
                self.err("span text is not the name", format!("{what}: the span covers {x:?}, the name is {want:?}"));
            }
        }
    }
    fn inside(&mut self, what: &str, a: &Span, b: &Span) {
        let (x, y) = (a.byte_range(), b.byte_range());
        if x.start < y.start || x.end > y.end {
            self.err("child outside its parent", format!("{what}: {x:?} is not inside {y:?}"));
        }
        // merging a child's span into its parent's changes nothing, whichever comes first
        for m in [a.merge(b), b.merge(a)] {
            if m != *b {
                self.err("merge is not the covering span", format!("merging {x:?} and {y:?} gives {:?}", m.byte_range()));
            }
        }
    }
    fn disjoint(&mut self, a: &Span, b: &Span) {
        let m = a.merge(b);
        let (x, y) = (a.byte_range(), b.byte_range());
        if *m.byte_range() != (x.start.min(y.start)..x.end.max(y.end)) || b.merge(a) != m {
            self.err("merge is not the covering span", format!("merging {x:?} and {y:?} gives {:?}", m.byte_range()));
        }
    }
    fn value<const C: bool>(&mut self, v: &pa::Value<C>) {
        self.node("value", v.span(), dump::val(v), |p| p.value(false));
        match v {
            pa::Value::List(l) => {
                for x in l.iter() {
                    self.inside("list item", x.span(), v.span());
                    self.value(x);
                }
            }
            pa::Value::Object(o) => {
                for (k, x) in o.iter() {
                    self.word("object field name", k.span(), k.as_ref());
                    self.inside("object field name", k.span(), v.span());
                    self.inside("object field", x.span(), v.span());
                    self.value(x);
                }
            }
            pa::Value::Variable(x) => {
                let n = format!("${}", x.name());
                self.word("variable", v.span(), &n)
            }
            pa::Value::Enum(x) => self.word("enum value", v.span(), x.as_ref()),
            _ => {}
        }
    }
    fn args<const C: bool>(&mut self, a: &pa::Arguments<C>) {
        self.node("arguments", a.span(), dump::args(Some(a)), |p| p.args(false));
        let mut last: Option<&Span> = None;
        for x in a.iter() {
            self.inside("argument", x.span(), a.span());
            self.node("argument", x.span(), (x.name().as_ref().to_string(), dump::val(x.value())), |p| {
                let n = p.name()?;
                if !p.eat(":") {
                    return Err(0);
                }
                Ok((n, p.value(false)?))
            });
            self.word("argument name", x.name().span(), x.name().as_ref());
            self.value(x.value());
            if let Some(l) = last {
                self.disjoint(l, x.span());
            }
            last = Some(x.span());
        }
    }
    fn dir<const C: bool>(&mut self, d: &pa::Directive<C>) {
        let want = vec![Dir { name: d.name().as_ref().to_string(), args: dump::args(bluejay_core::Directive::arguments(d)) }];
        self.node("directive", d.span(), want, |p| p.dirs(false));
        self.word("directive name", d.name().span(), d.name().as_ref());
        if let Some(a) = bluejay_core::Directive::arguments(d) {
            self.inside("directive arguments", a.span(), d.span());
            self.args(a);
        }
    }
    fn dirs<const C: bool>(&mut self, d: Option<&pa::Directives<C>>, of: Option<&Span>) {
        for d in d.into_iter().flat_map(|d| d.iter()) {
            if let Some(s) = of {
                self.inside("directive", d.span(), s);
            }
            self.dir(d)
        }
    }
    fn vty(&mut self, t: &pe::VariableType) {
        self.node("variable type", t.span(), dump::vty(t), |p| p.ty());
        if let VariableTypeReference::List(i, _) = t.as_ref() {
            self.inside("item type", i.span(), t.span());
            self.vty(i)
        }
    }
    fn sels(&mut self, s: &pe::SelectionSet) {
        self.node("selection set", s.span(), dump::sels::<ExecutableDocument>(s), |p| p.sels());
        let mut last: Option<Span> = None;
        for x in s.iter() {
            let sp = match x {
                pe::Selection::Field(f) => {
                    self.word("field name", f.name().span(), f.name().as_ref());
                    self.inside("field name", f.name().span(), f.span());
                    if let Some(a) = f.arguments() {
                        self.inside("arguments", a.span(), f.span());
                        self.args(a)
                    }
                    self.dirs(f.directives(), Some(f.span()));
                    if let Some(i) = f.selection_set() {
                        self.inside("selection set", i.span(), f.span());
                        self.sels(i)
                    }
                    f.span()
                }
                pe::Selection::FragmentSpread(f) => {
                    self.word("spread name", f.name().span(), f.name().as_ref());
                    self.inside("spread name", f.name().span(), f.span());
                    self.dirs(f.directives(), Some(f.span()));
                    f.span()
                }
                pe::Selection::InlineFragment(f) => {
                    if let Some(c) = f.type_condition() {
                        self.word("type condition", c.named_type().span(), c.named_type().as_ref());
                        self.inside("type condition", c.named_type().span(), f.span());
                    }
                    self.dirs(f.directives(), Some(f.span()));
                    self.inside("selection set", f.selection_set().span(), f.span());
                    self.sels(f.selection_set());
                    f.span()
                }
            };
            let want = one_sel(x);
            self.node("selection", sp, want, |p| p.sel());
            self.inside("selection", sp, s.span());
            if let Some(l) = &last {
                self.disjoint(l, sp);
            }
            last = Some(sp.clone());
        }
    }
    fn doc(&mut self, d: &ExecutableDocument) {
        let all = dump::doc(d);
        for (o, w) in d.operation_definitions().iter().zip(all.ops) {
            self.node("operation", o.span(), Doc { ops: vec![w], frags: vec![] }, |p| p.doc());
            if let pe::OperationDefinition::Explicit(e) = o {
                if let Some(n) = e.name() {
                    self.word("operation name", n.span(), n.as_ref());
                    self.inside("operation name", n.span(), o.span());
                }
                let k = match dump::kind(bluejay_core::executable::ExplicitOperationDefinition::operation_type(e)) {
                    OpKind::Query => "query",
                    OpKind::Mutation => "mutation",
                    OpKind::Subscription => "subscription",
                };
                self.word("operation type", e.operation_type().span(), k);
                for v in e.variable_definitions().into_iter().flat_map(|v| v.iter()) {
                    self.word("variable", v.variable().span(), &format!("${}", v.variable().name()));
                    self.inside("variable", v.variable().span(), o.span());
                    self.vty(v.r#type());
                    self.inside("variable type", v.r#type().span(), o.span());
                    if let Some(x) = v.default_value() {
                        self.inside("default value", x.span(), o.span());
                        self.value(x)
                    }
                    self.dirs(v.directives(), Some(o.span()));
                }
                self.dirs(e.directives(), Some(o.span()));
            }
            self.inside("selection set", o.selection_set().span(), o.span());
            self.sels(o.selection_set());
        }
        for (f, w) in d.fragment_definitions().iter().zip(all.frags) {
            self.node("fragment", f.span(), Doc { ops: vec![], frags: vec![w] }, |p| p.doc());
            self.word("fragment name", f.name().span(), f.name().as_ref());
            self.inside("fragment name", f.name().span(), f.span());
            let c = f.type_condition().named_type();
            self.word("type condition", c.span(), c.as_ref());
            self.inside("type condition", c.span(), f.span());
            self.dirs(f.directives(), Some(f.span()));
            self.inside("selection set", f.selection_set().span(), f.span());
            self.sels(f.selection_set());
        }
    }
    fn ddirs(&mut self, d: Option<&pd::Directives<pd::DefaultContext>>) {
        for d in d.into_iter().flat_map(|d| d.iter()) {
            let want = vec![Dir { name: d.name().to_string(), args: dump::args(d.arguments()) }];
            self.node("directive", d.span(), want, |p| p.dirs(true));
        }
    }
    fn ity(&mut self, t: &pd::InputType<pd::DefaultContext>) {
        self.node("input type", t.span(), dump::ity(t), |p| p.ty());
        if let bluejay_core::definition::ShallowInputTypeReference::List(i, _) = t.as_shallow_ref() {
            self.inside("item type", i.span(), t.span());
            self.ity(i)
        }
    }
    fn iv(&mut self, v: &pd::InputValueDefinition<pd::DefaultContext>) {
        self.ity(v.r#type());
        if let Some(d) = v.default_value() {
            self.value(d)
        }
        self.ddirs(v.directives());
    }
    fn schema(&mut self, s: &SchemaDefinition) {
        for t in s.type_definitions() {
            match t {
                TypeDefinitionReference::Object(o) if !o.is_builtin() => {
                    self.ddirs(o.directives());
                    for f in o.fields_definition().iter().filter(|f| !f.is_builtin()) {
                        self.ddirs(f.directives());
                        for a in f.arguments_definition().into_iter().flat_map(|a| a.iter()) {
                            self.iv(a)
                        }
                    }
                }
                TypeDefinitionReference::InputObject(i) => {
                    self.ddirs(i.directives());
                    for f in i.input_field_definitions().iter() {
                        self.iv(f)
                    }
                }
                _ => {}
            }
        }
    }
}
fn one_sel(x: &pe::Selection) -> Sel {
    match x {
        pe::Selection::Field(f) => Sel::Field(FieldSel {
            alias: f.alias().map(|a| a.to_string()),
            name: f.name().as_ref().to_string(),
            args: dump::args(f.arguments()),
            dirs: dump::dirs(f.directives()),
            sels: f.selection_set().map(|s| dump::sels::<ExecutableDocument>(s)),
        }),
        pe::Selection::FragmentSpread(f) => Sel::Spread { name: f.name().as_ref().to_string(), dirs: dump::dirs(f.directives()) },
        pe::Selection::InlineFragment(f) => Sel::Inline {
            cond: f.type_condition().map(|c| c.named_type().as_ref().to_string()),
            dirs: dump::dirs(f.directives()),
            sels: dump::sels::<ExecutableDocument>(f.selection_set()),
        },
    }
}

// ------------------------------------------------------------------ lines and columns
/// 1-based line and column (in characters) of a byte offset; a line ends with \n, \r\n or \r
fn place(text: &str, at: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    let mut it = text.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if i >= at {
            break;
        }
        let nl = c == '\n' || (c == '\r' && !matches!(it.peek(), Some((_, '\n'))));
        if nl {
            line += 1;
            col = 1
        } else {
            col += 1
        }
    }
    (line, col)
}
fn other_line_ends(text: &str) -> bool {
    text.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'])
}
fn locations(text: &str, errors: Vec<Error>, at: &[usize]) -> Result<(), (String, String)> {
    let n = errors.len();
    let es = Error::into_graphql_errors(text, errors);
    if n == 0 || es.is_empty() {
        // the empty document is reported without a position
        return Ok(());
    }
    if other_line_ends(text) {
        return Ok(());
    }
    let places: Vec<(usize, usize)> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).map(|i| place(text, i)).collect();
    for (i, e) in es.iter().enumerate() {
        for l in &e.locations {
            if !places.contains(&(l.line, l.col)) {
                return Err(("error outside the text".into(), format!("{:?} is reported at line {} column {}", e.message, l.line, l.col)));
            }
            if i == 0 && !at.is_empty() {
                if !at.iter().any(|at| (l.line, l.col) == place(text, *at)) {
                    return Err((
                        "error at the wrong place".into(),
                        format!(
                            "{:?} is reported at line {} column {}; the first offending text is at {:?}",
                            e.message, l.line, l.col, place(text, at[0])
                        ),
                    ));
                }
            }
        }
    }
    Ok(())
}
fn check(c: &Case) -> Out {
    let text = c.get("text");
    let sdl = c.get("kind") == "schema";
    let toks = lex::lex(text);
    let mut w = W { text, bad: None, n: 0 };
    // positions of arbitrary spans
    if !other_line_ends(text) && !text.is_empty() {
        let mut conv = SpanToLocation::new(text);
        let mut offs: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
        if offs.len() > 12 {
            let k = offs.len() / 12;
            offs = offs.into_iter().step_by(k).collect();
        }
        offs.reverse();
        for (i, o) in offs.iter().enumerate().filter(|(i, _)| i % 2 == 0).chain(offs.iter().enumerate()) {
            let _ = i;
            let got = conv.convert(&Span::from(*o..text.len()));
            if got != Some(place(text, *o)) {
                return fail("location of a span", format!("byte {o}: got {got:?}, expected {:?}", place(text, *o)));
            }
        }
    }
    let errs = if sdl {
        match DefinitionDocument::parse(text) {
            Err(e) => Some(e),
            Ok(d) => {
                let d: DefinitionDocument = d;
                if let Ok(s) = SchemaDefinition::try_from(&d) {
                    w.schema(&s)
                }
                None
            }
        }
    } else {
        match ExecutableDocument::parse(text) {
            Err(e) => Some(e),
            Ok(d) => {
                w.doc(&d);
                None
            }
        }
    };
    if let Some(e) = errs {
        let first = match &toks {
            Ok(t) if !t.is_empty() => {
                let mut p = parse::P { t, i: 0 };
                let r = if sdl { p.sdl().map(|_| ()) } else { p.doc().map(|_| ()) };
                let at = |i: usize| t.get(i).map(|t| t.s).unwrap_or(text.len());
                match r {
                    // a description that no definition follows may itself be called the offender
                    Err(i) if sdl && i > 0 && matches!(t[i - 1].t, lex::T::Str(_)) => vec![at(i), at(i - 1)],
                    Err(i) => vec![at(i)],
                    Ok(_) => vec![],
                }
            }
            _ => vec![],
        };
        if let Err((k, d)) = locations(text, e, &first) {
            return fail(&k, d);
        }
    }
    if let Some((k, d)) = w.bad {
        return fail(&k, d);
    }
    Out::Ok(match &toks {
        Ok(t) if t.len() >= 4 => Some(text.to_string()),
        _ => None,
    })
}
