//! P07..P15: the builtin rules of the validator against the oracle.
use crate::case::{fail, Case, Out};
use crate::gen::{self, Rng};
use crate::oracle::{self, Sch};
use crate::{dump, lex, parse, Prop};
use bluejay_core::definition::{self as cd};
use bluejay_core::executable::{self as ce, OperationDefinition as _};
use bluejay_core::{AsIter as _};
use bluejay_parser::ast::{
    definition::{DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};
use bluejay_validator::executable::{
    document::{ArgumentError, BuiltinRulesValidator, DirectiveError, Error},
    Cache,
};

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:literal, $gen:ident) => {
            Prop {
                id: $id,
                rule: "random schema and document (valid by construction, then perturbed: wrong names, types, values, cycles, \
                       duplicates); non-trivial: both parse and the document exercises the rule",
                gen: $gen,
                check: |c| check(c, $id),
                fixed: || fixed($id),
            }
        };
    }
    vec![
        p!("P07", gen_vars),
        p!("P08", gen_vars),
        p!("P09", gen_cycles),
        p!("P10", gen_frags),
        p!("P11", gen_args),
        p!("P12", gen_any),
        p!("P13", gen_merge),
        p!("P14", gen_dirs),
        p!("P15", gen_any),
    ]
}
struct Knobs {
    bad: usize,
    varpc: usize,
    dirpc: usize,
    cycles: bool,
}
fn gen_with(r: &mut Rng, k: Knobs) -> Case {
    let cfg = gen::SchemaCfg { descs: false, weird_descs: false, dirs: r.pc(40), oneof: r.pc(30), explicit_roots: r.pc(40) };
    let s = gen::schema(r, &cfg);
    let doc = {
        let mut g = gen::DocGen::new(r, &s);
        g.bad = k.bad;
        g.varpc = k.varpc;
        g.dirpc = k.dirpc;
        g.cycles = k.cycles;
        g.doc()
    };
    let mut text = doc.text();
    if r.pc(10) {
        text = gen::mutate_tokens(r, &text, &gen::SOUP);
    }
    Case::default().gql("schema", s.text()).gql("document", text)
}
fn bad(r: &mut Rng) -> usize {
    [0, 0, 2, 5, 10][r.below(5)]
}
fn gen_any(r: &mut Rng) -> Case {
    if r.pc(8) {
        return gen_chain(r, false);
    }
    let k = Knobs { bad: bad(r), varpc: 20, dirpc: 8, cycles: r.pc(10) };
    gen_with(r, k)
}
fn gen_vars(r: &mut Rng) -> Case {
    if r.pc(25) {
        return gen_chain(r, true);
    }
    let k = Knobs { bad: bad(r), varpc: 60, dirpc: 8, cycles: r.pc(15) };
    gen_with(r, k)
}
fn gen_cycles(r: &mut Rng) -> Case {
    if r.pc(40) {
        return gen_chain(r, false);
    }
    let k = Knobs { bad: bad(r), varpc: 5, dirpc: 3, cycles: r.pc(70) };
    gen_with(r, k)
}
fn gen_frags(r: &mut Rng) -> Case {
    let k = Knobs { bad: [0, 8, 15, 25][r.below(4)], varpc: 5, dirpc: 3, cycles: r.pc(15) };
    gen_with(r, k)
}
fn gen_args(r: &mut Rng) -> Case {
    let k = Knobs { bad: [0, 5, 10, 20][r.below(4)], varpc: 15, dirpc: 20, cycles: false };
    gen_with(r, k)
}
fn gen_dirs(r: &mut Rng) -> Case {
    let k = Knobs { bad: [0, 5, 10, 20][r.below(4)], varpc: 15, dirpc: 45, cycles: false };
    gen_with(r, k)
}
fn gen_merge(r: &mut Rng) -> Case {
    let k = Knobs { bad: [0, 0, 0, 3][r.below(4)], varpc: 8, dirpc: 3, cycles: false };
    gen_with(r, k)
}
/// long chains (and rings) of fragments, spread directly or inside fields and inline fragments
pub fn chain_doc(r: &mut Rng, vars: bool) -> String {
    const VT: &[&str] = &["Int", "Int!", "[Int]", "String", "Int=1", "[Int!]!", "Int!=2", "Int=null"];
    let n = r.range(1, 12);
    let nv = if vars { r.below(5) } else { 0 };
    let leaf = |r: &mut Rng| -> String {
        if nv == 0 || r.pc(40) {
            return ["c", "m", "__typename", "i(z:4)"][r.below(4)].to_string();
        }
        let m = nv + r.below(2);
        let v = r.below(m);
        let k = r.below(100);
        format!(
            "x{k}_{v}:{}",
            [
                format!("i(x:$v{v})"), format!("p(a:$v{v})"), format!("i(y:[$v{v}])"), format!("i(o:{{b:$v{v}}})"), format!("i(y:$v{v})"),
                format!("c @rep(a:$v{v})"), format!("os(c:{{b:1 e:[{{b:$v{v}}}]}})"), format!("i(z:$v{v})"), format!("i(o:{{b:2 d:{{b:3 a:$v{v}}}}})"),
            ][r.below(9)]
        )
    };
    fn spread(r: &mut Rng, f: usize) -> String {
        let mut s = format!("...F{f}");
        for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] {
            let k = r.below(50);
            s = match r.below(6) {
                0 => format!("r{k}:r{{{s}}}"),
                1 => format!("...on R{{{s}}}"),
                2 => format!("...on N{{...on R{{{s}}}}}"),
                3 => format!("u{k}:u{{...on R{{{s}}}}}"),
                4 => format!("...@include(if:true){{{s}}}"),
                _ => format!("n{k}:n{{...on R{{{s}}}}}"),
            };
        }
        s
    }
    let mut edges: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        if i + 1 < n && r.pc(88) {
            edges[i].push(i + 1);
        }
        if i + 1 < n && r.pc(18) {
            edges[i].insert(0, r.range(i + 1, n - 1));
        }
    }
    if r.pc(50) {
        let to = if r.pc(50) { 0 } else { r.below(n) };
        edges[n - 1].push(to);
    }
    if r.pc(15) {
        let (a, b) = (r.below(n), r.below(n));
        edges[a].push(b);
    }
    let mut frags = vec![];
    for (i, e) in edges.iter().enumerate() {
        let mut sels: Vec<String> = e.iter().map(|f| spread(r, *f)).collect();
        if sels.is_empty() || r.pc(45) {
            let l = leaf(r);
            let at = r.below(sels.len() + 1);
            sels.insert(at, l);
        }
        let c = if r.pc(12) && i == 0 { "N" } else { "R" };
        frags.push(if c == "R" { format!("fragment F{i} on R{{{}}}", sels.join(" ")) } else { format!("fragment F{i} on N{{...on R{{{}}}}}", sels.join(" ")) });
    }
    for _ in 0..n * usize::from(r.pc(60)) {
        let (a, b) = (r.below(n), r.below(n));
        frags.swap(a, b);
    }
    let nops = [1, 1, 1, 2, 3][r.below(5)];
    let mut defs = vec![];
    for k in 0..nops {
        let mut vd = String::new();
        for v in 0..nv {
            if r.pc(85) {
                vd += &format!("$v{v}:{} ", r.pick(VT));
            }
        }
        let f = if r.pc(70) { 0 } else { r.below(n) };
        let mut body = spread(r, f);
        if r.pc(25) {
            let f = r.below(n);
            body = format!("{body} {}", spread(r, f));
        }
        if r.pc(30) {
            let l = leaf(r);
            body = format!("{l} {body}");
        }
        defs.push(if vd.is_empty() { format!("query Q{k}{{{body}}}") } else { format!("query Q{k}({vd}){{{body}}}") });
    }
    if r.pc(50) {
        defs.extend(frags);
        defs
    } else {
        frags.extend(defs);
        frags
    }
    .join(" ")
}
fn gen_chain(r: &mut Rng, vars: bool) -> Case {
    let d = chain_doc(r, vars);
    case(S1, &d)
}
fn case(s: &str, d: &str) -> Case {
    Case::default().gql("schema", s.into()).gql("document", d.into())
}
const S1: &str = "schema{query:R mutation:M subscription:S} interface N{i(x:Int y:[Int!] z:Int!=1 o:In):Int n:N c:Int m:String} \
  type R implements N{i(x:Int y:[Int!] z:Int!=1 o:In):Int n:N c:Int! m:String r:R p(a:Int!):Int u:U b:B os(a:[In!] b:[[In]] c:In!):Int e:E} \
  type B implements N{i(x:Int y:[Int!] z:Int!=1 o:In):Int n:N c:Int m:String q:String r:B} \
  type M{m:Int} type S{s:Int t:Int} union U=R|B enum E{A Z} \
  input In{a:Int b:Int! c:[Int!] d:In e:[In] f:Int!=3} directive @d(a:Int! b:In) on FIELD|QUERY directive @rep(a:Int) repeatable on FIELD|FRAGMENT_SPREAD|INLINE_FRAGMENT|FRAGMENT_DEFINITION|VARIABLE_DEFINITION|QUERY";
fn fixed(id: &str) -> Vec<Case> {
    let l: &[&str] = match id {
        "P07" => &[
            "query Q($v:Int){os(a:[{b:$v}])}", "query Q($v:Int){os(b:[[{b:$v}]] c:{b:1})}", "query Q($v:Int){os(c:{b:1 e:[{b:$v}]})}",
            "query Q($v:Int){p(a:$v)}", "query Q($v:Int=1){p(a:$v)}", "query Q($v:Int=null){p(a:$v)}", "query Q($v:Int){i(z:$v)}",
            "query Q($v:Int){i(y:[$v])}", "query Q($v:[Int]){i(y:$v)}", "query Q($v:[Int!]!){i(y:$v)}", "query Q($v:Int!){i(y:$v)}",
            "query Q($v:Int){i(o:{b:1 f:$v})}", "query Q($v:Int=1){...F} fragment F on N{i(y:[$v])}",
            "query Q($v:Int){...F} query T($v:Int!){...G} fragment F on R{...G} fragment G on R{p(a:$v)}",
            "query Q($v:String){...A} fragment A on R{r{...B}} fragment B on R{r{...C}} fragment C on R{r{...A} i(x:$v)}",
            "query Q($v:Int)@d(a:$v){c}", "query Q($v:Int){c @d(a:1 b:{b:$v})}", "query Q($v:In){os(a:$v c:$v)}",
        ],
        "P08" => &[
            "query Q($v:Int $v:Int){i(x:$v)}", "query Q($v:R){c}", "query Q($v:Zzz){c}", "{i(x:$v)}", "query Q($v:Int){c}",
            "query Q($v:Int){...F} fragment F on R{i(o:{b:$v})}", "query Q{...F} fragment F on R{i(o:{c:[$w]})}",
            "query Q($v:Int){...A} fragment A on R{...B} fragment B on R{...C} fragment C on R{...A i(x:$v)}",
            "query Q($v:Int){c @d(a:$v)}", "query Q($v:Int){...F} query T{...F} fragment F on R{i(x:$v)}",
            "query Q($v:Int)@d(a:$v){c}", "query Q($v:Int @rep(a:1)){...F @rep(a:$v)} fragment F on R{c}", "query Q{...F} fragment F on R @rep(a:$v){c}",
            "query Q($v:U){c}", "query Q($v:In){i(o:$v)}", "query Q($v:E){c}", "query Q($v:[N!]){c}",
        ],
        "P09" => &[
            "{...A} fragment A on R{...A}", "{...A} fragment A on R{r{...B}} fragment B on R{r{...on R{...A}}}",
            "{...A} fragment A on R{...B ...C} fragment B on R{...D} fragment C on R{...D} fragment D on R{c}",
            "{...A} fragment A on R{...B} fragment B on R{...C} fragment C on R{...B}",
            "{...A} fragment A on R{...B ...C ...A2} fragment A2 on R{c} fragment B on R{...C} fragment C on R{...D} fragment D on R{...E} fragment E on R{...C}",
        ],
        "P10" => &[
            "{...on N{c}}", "{...on B{c}}", "{u{...on R{c}}}", "{u{...on U{__typename}}}", "{u{...on M{m}}}", "{n{...on M{m}}}", "{...F} fragment F on B{c}",
            "{...F}", "{...on E{a}}", "{...on In{a}}", "{...on Int{a}}", "{...on Nope{a}}", "{...F} fragment F on E{a}", "{...F} fragment F on Nope{a}",
            "{n{...F}} fragment F on U{...on B{c}}", "{r{...{...on M{m}}}}",
        ],
        "P11" => &[
            "{p}", "{p(a:1 a:2)}", "{p(a:1 b:1)}", "{p(a:null)}", "{c(a:1)}", "{i(z:null)}", "{c @d}", "{c @d(a:1 a:1)}", "{c @d(c:1)}", "{c @skip}",
            "{c @rep(a:1)@rep(b:1)}", "{...F} fragment F on R{r{p}}", "{r{r{...on N{i(q:1)}}}}", "query Q($v:Int@rep(z:1)){i(x:$v)}", "{os}",
            "{zz(a:1 a:1)}", "{c @zz(a:1 a:1)}", "{p @d(a:null)}", "{i(o:{b:null})}",
        ],
        "P12" => &[
            "{zz}", "{c{a}}", "{r}", "{u{c}}", "{u{__typename}}", "{n{q}}", "{n{...on B{q}}}", "{__schema{types{name}}}", "{r{__schema{types{name}}}}",
            "mutation{__schema{types{name}}}", "{__type(name:\"R\"){kind}}", "{__typename}", "{...F} fragment F on B{zz}", "{e{a}}", "{u}", "subscription{__typename}",
            "{m{__typename}}", "{b{__type(name:\"\"){name}}}",
        ],
        "P13" => &[
            "{r{c} r{i}}", "{a:c a:i}", "{a:c a:m}", "{i(x:1) i(x:2)}", "{i(x:1) i}", "{i(x:1 z:2) i(z:2 x:1)}", "{n{...on R{a:c} ...on B{a:i}}}",
            "{n{...on R{a:i} ...on B{a:c}}}", "{n{...on R{a:m} ...on B{a:c}}}", "{n{...on R{r{a:i}} ...on B{r{a:m}}}}", "{n{...on R{r{a:i}} ...on B{r{a:c}}}}",
            "{u{a:__typename ...on B{a:q}}}", "{u{a:__typename ...on R{a:m}}}", "{n{a:c ...on R{a:i}}}",
            "{...F} fragment F on N{c ...on B{c}}", "{r{...F}} fragment F on N{c ...on B{c}}", "{r{...F}} fragment F on N{a:c ...on B{a:i}}",
            "{n{...on R{r{...F}} ...on B{r{c}}}} fragment F on R{c}", "{r{a:m}...F} fragment F on R{r{...G}} fragment G on R{a:c}",
            "{r{a:m}...F} fragment F on R{r{...G}} fragment G on R{a:m}", "{r{r{a:c}} r{r{a:c}} r{r{a:i}}}", "{os(c:{b:1 a:2}) os(c:{a:2 b:1})}",
            "{os(c:{b:1 a:2}) os(c:{a:2 b:3})}", "{n{c} ...on R{n{c:m}}}", "{e e}", "{a:e a:m}", "{n{...on B{a:r{c}} ...on R{a:r{c}}}}",
            "{u{...on R{a:r{x:c}} ...on B{a:r{x:c}}}}", "{...F ...G} fragment F on R{a:i(x:1)} fragment G on R{a:i(x:2)}",
            "{u{__typename ...on B{c}}}", "{n{c} n{...on B{c} ...on R{d:c}}}",
        ],
        "P14" => &[
            "{c @zz}", "{c @deprecated}", "{c @skip(if:true)@skip(if:true)}", "{c @rep@rep}", "{...on R @d(a:1){c}}", "query Q @d(a:1)@d(a:1){c}",
            "query Q($v:Int @skip(if:true)){i(x:$v)}", "{...F @zz} fragment F on R @skip(if:true){c}", "mutation @rep{m}", "subscription @rep{s}",
            "{r{...on R @zz{c}}}", "{...F} fragment F on R @rep@rep{c @include(if:false)@include(if:true)}",
        ],
        "P15" => &[
            "query A{c} query A{c}", "{c} {c}", "{c} query A{c}", "query A{c} fragment F on R{c}", "{...F} fragment F on R{c} fragment F on R{i}",
            "subscription{s t}", "subscription{s s}", "subscription{...F} fragment F on S{s t}", "subscription{...F} fragment F on S{...G} fragment G on S{s t}",
            "subscription{...on S{s} ...on S{t}}", "subscription{...on S{...on S{s t}}}", "subscription{...F s} fragment F on S{s}", "subscription{s ...F} fragment F on S{t}",
            "subscription{a:s a:s}", "subscription{a:s b:s}", "query A{c} mutation A{m}", "{...F} fragment F on R{...F}", "{c} fragment F on R{...F}",
            "subscription{...{s}}",
        ],
        _ => &[],
    };
    let mut v: Vec<Case> = l.iter().map(|d| case(S1, d)).collect();
    if id == "P15" {
        v.push(case("type Query{a:Int}", "mutation{a}"));
        v.push(case("type Query{a:Int}", "subscription{a}"));
        v.push(case("schema{query:Query} type Query{a:Int} type Mutation{a:Int}", "mutation{a}"));
    }
    if id == "P12" {
        v.push(case("schema{query:R} type R{a:Int q:Query} type Query{a:Int}", "{q{__schema{types{name}}}}"));
        v.push(case("schema{query:R} type R{a:Int q:Query} type Query{a:Int}", "{__schema{types{name}}}"));
    }
    v
}
type E<'a> = ExecutableDocument<'a>;
type S<'a> = SchemaDefinition<'a>;
fn tname<'a, T: cd::TypeDefinition>(t: cd::TypeDefinitionReference<'a, T>) -> &'a str {
    t.name()
}
fn argerr<const C: bool>(e: &ArgumentError<'_, C, E<'_>, S<'_>>) -> String {
    let names = |m: &Vec<&bluejay_parser::ast::definition::InputValueDefinition<bluejay_parser::ast::definition::DefaultContext>>| {
        m.iter().map(|i| cd::InputValueDefinition::name(*i)).collect::<Vec<_>>().join(",")
    };
    match e {
        ArgumentError::NonUniqueArgumentNames { arguments, name } => format!("dup-arg {name} x{}", arguments.len()),
        ArgumentError::ArgumentDoesNotExistOnField { argument, field_definition } => {
            format!("unknown-arg {} on field {}", bluejay_core::Argument::name(*argument), cd::FieldDefinition::name(*field_definition))
        }
        ArgumentError::ArgumentDoesNotExistOnDirective { argument, directive_definition } => {
            format!("unknown-arg {} on @{}", bluejay_core::Argument::name(*argument), cd::DirectiveDefinition::name(*directive_definition))
        }
        ArgumentError::DirectiveMissingRequiredArguments { directive, missing_argument_definitions, .. } => {
            format!("missing {} on @{}", names(missing_argument_definitions), bluejay_core::Directive::name(*directive))
        }
        ArgumentError::FieldMissingRequiredArguments { field, missing_argument_definitions, .. } => {
            format!("missing {} on field {}", names(missing_argument_definitions), ce::Field::name(*field))
        }
    }
}
fn direrr<const C: bool>(e: &DirectiveError<'_, C, E<'_>, S<'_>>) -> String {
    match e {
        DirectiveError::DirectiveDoesNotExist { directive } => format!("undef @{}", bluejay_core::Directive::name(*directive)),
        DirectiveError::DirectiveInInvalidLocation { directive, location, .. } => {
            format!("misplaced @{} at {location}", bluejay_core::Directive::name(*directive))
        }
        DirectiveError::DirectivesNotUniquePerLocation { directives, directive_definition } => {
            format!("dup @{} x{}", cd::DirectiveDefinition::name(*directive_definition), directives.len())
        }
    }
}
/// (property, key)
fn key(e: &Error<'_, E<'_>, S<'_>>) -> (&'static str, String) {
    let on = |o: &<E<'_> as ce::ExecutableDocument>::OperationDefinition| o.as_ref().name().unwrap_or("-").to_string();
    match e {
        Error::NonUniqueOperationNames { name, operations } => ("P15", format!("dup-op {name} x{}", operations.len())),
        Error::NotLoneAnonymousOperation { anonymous_operations } => ("P15", format!("anonymous x{}", anonymous_operations.len())),
        Error::SubscriptionRootNotSingleField { operation } => ("P15", format!("subscription {}", on(operation))),
        Error::FieldDoesNotExistOnType { field, r#type } => {
            ("P12", format!("nofield {} on {}", ce::Field::name(*field), tname(*r#type)))
        }
        Error::OperationTypeNotDefined { operation } => ("P15", format!("notype {}", dump::kind(ce::ExplicitOperationDefinition::operation_type(*operation)).text())),
        Error::LeafFieldSelectionNotEmpty { r#type, .. } => ("P12", format!("leaf {}", dump::oty(*r#type).text())),
        Error::NonLeafFieldSelectionEmpty { field, r#type } => {
            ("P12", format!("nonleaf {}:{}", ce::Field::name(*field), dump::oty(*r#type).text()))
        }
        Error::NonUniqueFragmentDefinitionNames { name, fragment_definitions } => {
            ("P15", format!("dup-frag {name} x{}", fragment_definitions.len()))
        }
        Error::FragmentDefinitionTargetTypeDoesNotExist { fragment_definition } => {
            ("P10", format!("unknown-frag {}", ce::FragmentDefinition::name(*fragment_definition)))
        }
        Error::InlineFragmentTargetTypeDoesNotExist { inline_fragment } => {
            ("P10", format!("unknown-inline {}", ce::InlineFragment::type_condition(*inline_fragment).unwrap_or("-")))
        }
        Error::FragmentDefinitionTargetTypeNotComposite { fragment_definition } => {
            ("P10", format!("noncomposite-frag {}", ce::FragmentDefinition::name(*fragment_definition)))
        }
        Error::InlineFragmentTargetTypeNotComposite { inline_fragment } => {
            ("P10", format!("noncomposite-inline {}", ce::InlineFragment::type_condition(*inline_fragment).unwrap_or("-")))
        }
        Error::FragmentDefinitionUnused { fragment_definition } => {
            ("P15", format!("unused-frag {}", ce::FragmentDefinition::name(*fragment_definition)))
        }
        Error::FragmentSpreadTargetUndefined { fragment_spread } => ("P10", format!("undef-target {}", ce::FragmentSpread::name(*fragment_spread))),
        Error::FragmentSpreadCycle { fragment_definition, .. } => {
            ("P09", format!("cycle {}", ce::FragmentDefinition::name(*fragment_definition)))
        }
        Error::FieldSelectionsDoNotMergeIncompatibleTypes { field_a, field_b, .. } => {
            ("P13", format!("types {} {}", ce::Field::name(*field_a), ce::Field::name(*field_b)))
        }
        Error::FieldSelectionsDoNotMergeDifferingNames { field_a, field_b, .. } => {
            ("P13", format!("names {} {}", ce::Field::name(*field_a), ce::Field::name(*field_b)))
        }
        Error::FieldSelectionsDoNotMergeDifferingArguments { field_a, field_b, .. } => {
            ("P13", format!("args {} {}", ce::Field::name(*field_a), ce::Field::name(*field_b)))
        }
        Error::FragmentSpreadIsNotPossible { fragment_spread, parent_type } => {
            ("P10", format!("impossible-spread {} in {}", ce::FragmentSpread::name(*fragment_spread), tname(*parent_type)))
        }
        Error::InlineFragmentSpreadIsNotPossible { inline_fragment, parent_type } => (
            "P10",
            format!("impossible-inline {} in {}", ce::InlineFragment::type_condition(*inline_fragment).unwrap_or("-"), tname(*parent_type)),
        ),
        Error::InvalidConstValue(_) | Error::InvalidVariableValue(_) => ("P06", "value".into()),
        Error::InvalidConstDirective(e) => ("P14", direrr(e)),
        Error::InvalidVariableDirective(e) => ("P14", direrr(e)),
        Error::InvalidConstArgument(e) => ("P11", argerr(e)),
        Error::InvalidVariableArgument(e) => ("P11", argerr(e)),
        Error::NonUniqueVariableDefinitionNames { name, variable_definitions } => {
            ("P08", format!("dup-var {name} x{}", variable_definitions.len()))
        }
        Error::VariableDefinitionTypeNotInput { variable_definition } => (
            "P08",
            format!("notinput {}:{}", ce::VariableDefinition::variable(*variable_definition), dump::vty(ce::VariableDefinition::r#type(*variable_definition)).text()),
        ),
        Error::VariableNotDefined { variable, operation_definition } => {
            ("P08", format!("undefined {} in {}", bluejay_core::Variable::name(*variable), on(operation_definition)))
        }
        Error::VariableDefinitionUnused { variable_definition } => (
            "P08",
            format!("unused {}:{}", ce::VariableDefinition::variable(*variable_definition), dump::vty(ce::VariableDefinition::r#type(*variable_definition)).text()),
        ),
        Error::InvalidVariableUsage { variable, variable_type, location_type } => (
            "P07",
            format!("usage ${}:{} at {}", bluejay_core::Variable::name(*variable), dump::vty(*variable_type).text(), dump::ity(*location_type).text()),
        ),
    }
}
fn check(c: &Case, id: &'static str) -> Out {
    let (st, dt) = (c.get("schema"), c.get("document"));
    let Ok(dd): Result<DefinitionDocument, _> = DefinitionDocument::parse(st) else { return Out::Skip };
    let Ok(sd) = SchemaDefinition::try_from(&dd) else { return Out::Skip };
    let Ok(ed) = ExecutableDocument::parse(dt) else { return Out::Skip };
    let (Ok(sdl), Ok(doc)) = (parse::parse_sdl(st), parse::parse_doc(dt)) else { return Out::Skip };
    let sch = Sch::new(&sdl);
    let exp = oracle::expect(&sch, &doc);
    let cache = Cache::new(&ed, &sd);
    let mut actual: Vec<(&'static str, String)> = BuiltinRulesValidator::validate(&ed, &sd, &cache).map(|e| key(&e)).collect();
    actual.sort();
    let mine: Vec<String> = actual.iter().filter(|a| a.0 == id).map(|a| a.1.clone()).collect();
    if exp.dup_frags && matches!(id, "P07" | "P08" | "P09" | "P10") {
        return Out::Skip;
    }
    let mut nontrivial = !mine.is_empty();
    if id == "P13" {
        let Some(want) = exp.conflict else { return Out::Skip };
        if want && mine.is_empty() {
            return fail("conflict not reported", format!("reports {actual:?}"));
        }
        if !want && !mine.is_empty() {
            return fail("mergeable selections reported", format!("reports {actual:?}"));
        }
        nontrivial = true;
    } else {
        let k = &exp.keys[id];
        if let Some((class, detail)) = k.judge(&mine) {
            return fail(&class, format!("{detail}\nexpected {k:?}\nreported {actual:?}"));
        }
        if id == "P11" && exp.null_required && !actual.iter().any(|a| a.0 == "P06") {
            return fail("null for a required argument not reported", format!("reported {actual:?}"));
        }
        nontrivial |= lex::lex(dt).map_or(false, |t| {
            t.iter().any(|t| {
                let x = &dt[t.s..t.e];
                match id {
                    "P07" | "P08" => x.starts_with('$'),
                    "P09" | "P10" => x == "...",
                    "P11" => x == "(",
                    "P14" => x == "@",
                    _ => true,
                }
            })
        });
    }
    Out::Ok(nontrivial.then(|| format!("{st}\n{dt}")))
}
