// P26: the span of every syntax node of an executable document runs from its first token to its last.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include parser_prelude.inc
//@include sdl_io.inc
//@item src=bluejay-parser/src/ast/value.rs name=Value
//@item src=bluejay-parser/src/ast/value.rs name=BooleanValue
//@item src=bluejay-parser/src/ast/value.rs name=ListValue
//@item src=bluejay-parser/src/ast/value.rs name=ObjectValue
//@item src=bluejay-parser/src/ast/argument.rs name=Argument
//@item src=bluejay-parser/src/ast/arguments.rs name=Arguments
//@item src=bluejay-parser/src/ast/directive.rs name=Directive
//@item src=bluejay-parser/src/ast/directives.rs name=Directives
//@item src=bluejay-parser/src/ast/value.rs name=ConstValue
//@item src=bluejay-parser/src/ast/arguments.rs name=VariableArguments
//@item src=bluejay-parser/src/ast/directives.rs name=VariableDirectives
//@item src=bluejay-parser/src/ast/directives.rs name=ConstDirectives
//@item src=bluejay-parser/src/ast/directive.rs name=ConstDirective
//@item src=bluejay-parser/src/ast/executable/variable_type.rs name=VariableType
//@item src=bluejay-parser/src/ast/executable/variable_definition.rs name=VariableDefinition
//@item src=bluejay-parser/src/ast/executable/variable_definitions.rs name=VariableDefinitions
//@item src=bluejay-parser/src/ast/executable/type_condition.rs name=TypeCondition
//@item src=bluejay-parser/src/ast/executable/fragment_spread.rs name=FragmentSpread
//@item src=bluejay-parser/src/ast/executable/inline_fragment.rs name=InlineFragment
//@item src=bluejay-parser/src/ast/executable/field.rs name=Field
//@item src=bluejay-parser/src/ast/executable/selection_set.rs name=SelectionSet
//@item src=bluejay-parser/src/ast/executable/selection.rs name=Selection
//@item src=bluejay-parser/src/ast/operation_type.rs name=OperationType
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=OperationDefinition
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=ExplicitOperationDefinition
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=ImplicitOperationDefinition
//@item src=bluejay-parser/src/ast/executable/fragment_definition.rs name=FragmentDefinition
//@item src=bluejay-parser/src/ast/executable/executable_definition.rs name=ExecutableDefinition
//@subst TypeCondition :: ON ==> "on"
//@subst Self :: ON ==> "on"
//@pin src=bluejay-parser/src/ast/executable/type_condition.rs text="pub(crate) const ON: &'static str = `on`;"

// tokens in source order, each a proper range, none overlapping (what the lexer delivers)
#[verifier::opaque] pub open spec fn ordered<'a>(t: Seq<Tok<'a>>) -> bool {
    (forall|i: int| 0 <= i < t.len() ==> sp(#[trigger] t[i]).start <= sp(t[i]).end)
    && (forall|i: int, j: int| 0 <= i < j < t.len() ==> sp(#[trigger] t[i]).end <= sp(#[trigger] t[j]).start)
}
/// s runs from the first token of `o` to the last token before `n`
#[verifier::opaque] pub open spec fn cov<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool {
    suffix(n, o) && n.len() < o.len() && s.start == sp(o[0]).start && s.end == sp(o[o.len() - n.len() - 1]).end
}
/// `inner` lies within `outer`
pub open spec fn inside(inner: Span, outer: Span) -> bool { outer.start <= inner.start && inner.start <= inner.end && inner.end <= outer.end }
pub broadcast proof fn lem_next<'a>(t: Seq<Tok<'a>>) requires t.len() > 0 ensures #![trigger t.skip(1)] suffix(t.skip(1), t), cov(sp(t[0]), t, t.skip(1)) { reveal(cov); }
pub broadcast proof fn lem_self<'a>(t: Seq<Tok<'a>>) ensures #[trigger] suffix(t, t) { assert(t =~= t.skip(0)); }
pub broadcast proof fn lem_suffix<'a>(a: Seq<Tok<'a>>, b: Seq<Tok<'a>>, c: Seq<Tok<'a>>) requires #[trigger] suffix(a, b), #[trigger] suffix(b, c) ensures suffix(a, c) { assert(a =~= c.skip(c.len() - a.len())); }
pub broadcast proof fn lem_ordered<'a>(a: Seq<Tok<'a>>, b: Seq<Tok<'a>>) requires #[trigger] suffix(a, b), #[trigger] ordered(b) ensures ordered(a) {
    reveal(ordered);
    let d = b.len() - a.len();
    assert forall|i: int| 0 <= i < a.len() implies sp(#[trigger] a[i]).start <= sp(a[i]).end by { assert(a[i] == b[i + d]); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies sp(#[trigger] a[i]).end <= sp(#[trigger] a[j]).start by { assert(a[i] == b[i + d]); assert(a[j] == b[j + d]); }
}
pub broadcast proof fn lem_covs<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) ensures #[trigger] cov(s, o, n) ==> suffix(n, o) && n.len() < o.len() { reveal(cov); }
pub broadcast proof fn lem_cov<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) requires #[trigger] cov(s, o, n), ordered(o) ensures s.start <= s.end {
    reveal(cov); reveal(ordered);
    let k = o.len() - n.len() - 1; assert(sp(o[0]).start <= sp(o[0]).end); assert(sp(o[k]).start <= sp(o[k]).end); if k > 0 { assert(sp(o[0]).end <= sp(o[k]).start); }
}
/// from the first node's start to the last node's end
pub broadcast proof fn lem_merge<'a>(a: Span, b: Span, o: Seq<Tok<'a>>, m: Seq<Tok<'a>>, m2: Seq<Tok<'a>>, n: Seq<Tok<'a>>)
    requires cov(a, o, m), suffix(m2, m), cov(b, m2, n), ordered(o) ensures #![trigger spec_merge(a, b), cov(a, o, m), cov(b, m2, n)] cov(spec_merge(a, b), o, n), inside(a, spec_merge(a, b)), inside(b, spec_merge(a, b)) {
    reveal(cov); reveal(ordered); lem_suffix(m2, m, o); lem_cov(a, o, m); lem_ordered(m2, o); lem_cov(b, m2, n); lem_suffix(n, m2, o);
    let i = o.len() - m.len() - 1; let j = o.len() - m2.len(); assert(m2[0] == o[j]); assert(m2[m2.len() - n.len() - 1] == o[o.len() - n.len() - 1]);
    assert(sp(o[i]).end <= sp(o[j]).start);
}
broadcast group span_group { lem_next, lem_self, lem_suffix, lem_ordered, lem_covs, lem_cov, lem_merge }
pub open spec fn vspan<'a, const C: bool>(v: Value<'a, C>) -> Span { match v {
    Value::Variable(x) => x.span, Value::Integer(x) => x.span, Value::Float(x) => x.span, Value::String(x) => x.span, Value::Boolean(x) => x.span, Value::Enum(x) => x.span, Value::Null(x) => x.span, Value::List(x) => x.span, Value::Object(x) => x.span } }
pub open spec fn itspan<'a>(t: InputType<'a>) -> Span { match t { InputType::Base(_, _, s) => s, InputType::List(_, _, s) => s } }
pub open spec fn otspan<'a>(t: OutputType<'a>) -> Span { match t { OutputType::Base(_, _, s) => s, OutputType::List(_, _, s) => s } }
pub open spec fn tspan<'a>(t: VariableType<'a>) -> Span { match t { VariableType::Named { span, .. } => span, VariableType::List { span, .. } => span } }
pub open spec fn selspan<'a>(t: Selection<'a>) -> Span { match t { Selection::Field(x) => x.span, Selection::FragmentSpread(x) => x.span, Selection::InlineFragment(x) => x.span } }
pub open spec fn opspan<'a>(t: OperationDefinition<'a>) -> Span { match t { OperationDefinition::Explicit(x) => x.span, OperationDefinition::Implicit(x) => x.selection_set.span } }
/// s is the last of the tokens between `o` and `n`, and not the first
#[verifier::opaque] pub open spec fn closes<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool { suffix(n, o) && n.len() + 1 < o.len() && s == sp(o[o.len() - n.len() - 1]) }
/// s lies between the first token of `o` and the last token before `n`
#[verifier::opaque] pub open spec fn upto<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool { n.len() < o.len() && s.start <= s.end && sp(o[0]).start <= s.start && s.end <= sp(o[o.len() - n.len() - 1]).end }
pub broadcast proof fn lem_closes<'a>(s: Span, m: Seq<Tok<'a>>, n: Seq<Tok<'a>>, o: Seq<Tok<'a>>) requires #[trigger] suffix(m, o), #[trigger] cov(s, m, n), n.len() + 1 == m.len(), m.len() < o.len(), s == sp(m[0]) ensures closes(s, o, n) { reveal(cov); reveal(closes);  lem_suffix(n, m, o); assert(o[o.len() - m.len()] == m[0]); }
pub broadcast proof fn lem_enclose<'a>(a: Span, b: Span, m: Seq<Tok<'a>>, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) requires cov(a, o, m), closes(b, o, n), n.len() < m.len(), ordered(o) ensures #![trigger cov(a, o, m), closes(b, o, n), spec_merge(a, b)] cov(spec_merge(a, b), o, n) { reveal(cov); reveal(closes); reveal(ordered); 
    let i = o.len() - m.len() - 1; let j = o.len() - n.len() - 1; lem_cov(a, o, m); assert(sp(o[0]).end <= sp(o[j]).start); assert(sp(o[j]).start <= sp(o[j]).end); assert(sp(o[i]).start <= sp(o[i]).end); assert(sp(o[i]).end <= sp(o[j]).start); }
pub broadcast proof fn lem_upto<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>, n2: Seq<Tok<'a>>) requires #[trigger] upto(s, o, n), #[trigger] suffix(n2, n), suffix(n, o), ordered(o) ensures upto(s, o, n2) { reveal(ordered); 
    reveal(upto); let i = o.len() - n.len() - 1; let j = o.len() - n2.len() - 1; lem_suffix(n2, n, o); if i < j { assert(sp(o[i]).end <= sp(o[j]).start); assert(sp(o[j]).start <= sp(o[j]).end); } }
pub broadcast proof fn lem_upto_out<'a>(s: Span, m: Seq<Tok<'a>>, n: Seq<Tok<'a>>, o: Seq<Tok<'a>>) requires #[trigger] upto(s, m, n), #[trigger] suffix(m, o), suffix(n, m), ordered(o) ensures upto(s, o, n) { reveal(upto); reveal(ordered); lem_suffix(n, m, o); let j = o.len() - m.len(); assert(m[0] == o[j]); assert(m[m.len() - n.len() - 1] == o[o.len() - n.len() - 1]); assert(sp(o[0]).start <= sp(o[0]).end); if j > 0 { assert(sp(o[0]).end <= sp(o[j]).start); } }
pub broadcast proof fn lem_cov_upto<'a>(s: Span, m: Seq<Tok<'a>>, n: Seq<Tok<'a>>, o: Seq<Tok<'a>>) requires #[trigger] cov(s, m, n), #[trigger] suffix(m, o), ordered(o) ensures upto(s, o, n) { reveal(cov); reveal(ordered); 
    reveal(upto); lem_ordered(m, o); lem_cov(s, m, n); lem_suffix(n, m, o); let j = o.len() - m.len(); assert(m[0] == o[j]); assert(m[m.len() - n.len() - 1] == o[o.len() - n.len() - 1]); assert(sp(o[0]).start <= sp(o[0]).end); if j > 0 { assert(sp(o[0]).end <= sp(o[j]).start); } }
pub broadcast proof fn lem_upto_in<'a>(s: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>, w: Span) requires #[trigger] upto(s, o, n), #[trigger] cov(w, o, n) ensures inside(s, w) { reveal(cov);  reveal(upto); }
#[verifier::opaque] pub open spec fn firstlast<'a>(a: Span, b: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool { cov(spec_merge(a, b), o, n) && a.start <= b.start && a.end <= b.end && a.start <= a.end && b.start <= b.end }
pub broadcast proof fn lem_fl<'a>(a: Span, b: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) ensures #[trigger] firstlast(a, b, o, n) ==> cov(spec_merge(a, b), o, n) && (a == b ==> cov(a, o, n)) { reveal(firstlast); }
pub broadcast proof fn lem_fl_one<'a>(a: Span, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) requires #[trigger] cov(a, o, n), ordered(o) ensures firstlast(a, a, o, n) { lem_cov(a, o, n); reveal(firstlast); }
pub broadcast proof fn lem_fl_push<'a>(a: Span, b: Span, x: Span, o: Seq<Tok<'a>>, m: Seq<Tok<'a>>, n: Seq<Tok<'a>>) requires #[trigger] firstlast(a, b, o, m), #[trigger] cov(x, m, n), ordered(o) ensures firstlast(a, x, o, n) { reveal(firstlast); reveal(cov); reveal(ordered); let w = spec_merge(a, b); lem_ordered(m, o); lem_cov(x, m, n); lem_suffix(n, m, o); let i = o.len() - m.len(); assert(m[0] == o[i]); assert(m[m.len() - n.len() - 1] == o[o.len() - n.len() - 1]); assert(sp(o[i - 1]).end <= sp(o[i]).start); assert(w.end == sp(o[i - 1]).end); if i > 1 { assert(sp(o[0]).end <= sp(o[i - 1]).start); } }
pub open spec fn fin<'a, const C: bool>(v: Seq<(Name<'a>, Value<'a, C>)>, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool { forall|i: int| 0 <= i < v.len() ==> upto(vspan((#[trigger] v[i]).1), o, n) && upto(v[i].0.span, o, n) }
broadcast group list_group { lem_closes, lem_enclose, lem_upto_out, lem_upto, lem_cov_upto, lem_upto_in, lem_fl, lem_fl_one, lem_fl_push }
pub open spec fn dspan<'a>(s: Option<Span>, o: Seq<Tok<'a>>, n: Seq<Tok<'a>>) -> bool { match s { Some(x) => cov(x, o, n), None => n == o } }
pub open spec fn odin<'a, const C: bool>(d: Option<Directives<'a, C>>, w: Span) -> bool { match d { Some(x) => match x.span { Some(y) => inside(y, w), None => true }, None => true } }
//@fn src=bluejay-parser/src/ast/value.rs impl=HasSpan:Value fn=span id=Value::span
    ensures *r == vspan(*self)
//@end
//@fn src=bluejay-parser/src/ast/value.rs impl=FromTokens:Value fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(vspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> match r->Ok_0 { Value::List(l) => forall|i: int| 0 <= i < l.elements@.len() ==> inside(vspan(#[trigger] l.elements@[i]), l.span),
            Value::Object(l) => forall|i: int| 0 <= i < l.fields@.len() ==> inside(vspan((#[trigger] l.fields@[i]).1), l.span) && inside(l.fields@[i].0.span, l.span), _ => true },
    decreases old($0).toks().len()
//@ at start
    broadcast use {span_group, list_group};
//@ loop 0
    invariant_except_break $brk is None,
    invariant suffix($0.toks(), old($0).toks()), ordered(old($0).toks()), $0.toks().len() < old($0).toks().len(),
        forall|i: int| 0 <= i < $let(Vec)@.len() ==> upto(vspan(#[trigger] $let(Vec)@[i]), old($0).toks(), $0.toks()),
    ensures $brk is Some, closes($brk->0, old($0).toks(), $0.toks()),
    decreases $0.toks().len()
//@ loop 1
    invariant_except_break $brk is None,
    invariant suffix($0.toks(), old($0).toks()), ordered(old($0).toks()), $0.toks().len() < old($0).toks().len(),
        fin($let(Vec#1)@, old($0).toks(), $0.toks()),
    ensures $brk is Some, closes($brk->0, old($0).toks(), $0.toks()),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/argument.rs impl=HasSpan:Argument fn=span id=Argument::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/argument.rs impl=FromTokens:Argument fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.name.span, r->Ok_0.span)) && (inside(vspan(r->Ok_0.value), r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=FromTokens:Arguments fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.arguments@.len() ==> inside((#[trigger] r->Ok_0.arguments@[i]).span, r->Ok_0.span),
//@ at start
    broadcast use {span_group, list_group};
//@ loop 0
    invariant_except_break $brk is None,
    invariant suffix($0.toks(), old($0).toks()), ordered(old($0).toks()), $0.toks().len() < old($0).toks().len(),
        forall|i: int| 0 <= i < $let(Vec)@.len() ==> upto((#[trigger] $let(Vec)@[i]).span, old($0).toks(), $0.toks()),
    ensures $brk is Some, closes($brk->0, old($0).toks(), $0.toks()),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=HasSpan:Arguments fn=span id=Arguments::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=IsMatch:Arguments fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::OpenRoundBracket)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=HasSpan:Directive fn=span id=Directive::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=FromTokens:Directive fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.name.span, r->Ok_0.span)) && (r->Ok_0.arguments is Some ==> inside(r->Ok_0.arguments->0.span, r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=IsMatch:Directive fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::At)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=FromTokens:Directives fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> dspan(r->Ok_0.span, old($0).toks(), final($0).toks()), final($0).toks().len() <= old($0).toks().len(),
        r is Ok && is_punct(old($0).toks(), 0, PunctuatorType::At) ==> r->Ok_0.span is Some,
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.directives@.len() ==> r->Ok_0.span is Some && inside((#[trigger] r->Ok_0.directives@[i]).span, r->Ok_0.span->0),
//@ at start
    broadcast use {span_group, list_group};
//@ loop 0
    invariant ordered(old($0).toks()), suffix($0.toks(), old($0).toks()),
        forall|i: int| 0 <= i < $let(Vec)@.len() ==> upto((#[trigger] $let(Vec)@[i]).span, old($0).toks(), $0.toks()),
        $let(Vec)@.len() == 0 ==> $0.toks() == old($0).toks(),
        $let(Vec)@.len() > 0 ==> firstlast($let(Vec)@[0].span, $let(Vec)@.last().span, old($0).toks(), $0.toks()),
    ensures !is_punct($0.toks(), 0, PunctuatorType::At),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=IsMatch:Directives fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::At)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=Directives fn=span id=Directives::span
    ensures match r { Some(x) => self.span == Some(*x), None => self.span is None }
//@end
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=HasSpan:InputType fn=span header="impl<'a> InputType<'a>" id=InputType::span
    ensures *r == itspan(*self)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=FromTokens:InputType fn=from_tokens header="impl<'a> InputType<'a>"
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(itspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> match r->Ok_0 { InputType::List(inner, _, span) => inside(itspan(*inner), span), InputType::Base(base, _, span) => inside(base.name.span, span) },
    decreases old($0).toks().len()
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=BaseOutputType fn=new header="impl<'a> BaseOutputType<'a>" id=BaseOutputType::new
    ensures r.name == $0
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=FromTokens:OutputType fn=from_tokens header="impl<'a> OutputType<'a>"
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(otspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> match r->Ok_0 { OutputType::List(inner, _, span) => inside(otspan(*inner), span), OutputType::Base(base, _, span) => inside(base.name.span, span) },
    decreases old($0).toks().len()
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_type.rs impl=HasSpan:VariableType fn=span id=VariableType::span
    ensures *r == tspan(*self)
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_type.rs impl=FromTokens:VariableType fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(tspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> match r->Ok_0 { VariableType::List { inner, span, .. } => inside(tspan(*inner), span), VariableType::Named { name, span, .. } => inside(name.span, span) },
    decreases old($0).toks().len()
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=FromTokens:VariableDefinition fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> suffix(final($0).toks(), old($0).toks()) && final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use span_group;
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definitions.rs impl=FromTokens:VariableDefinitions fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> cov(r->Ok_0._span, old($0).toks(), final($0).toks()), final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@ loop 0
    invariant_except_break $brk is None,
    invariant suffix($0.toks(), old($0).toks()), ordered(old($0).toks()), $0.toks().len() < old($0).toks().len(),
    ensures $brk is Some, closes($brk->0, old($0).toks(), $0.toks()),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definitions.rs impl=IsMatch:VariableDefinitions fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::OpenRoundBracket)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/type_condition.rs impl=FromTokens:TypeCondition fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> suffix(final($0).toks(), old($0).toks()) && final($0).toks().len() < old($0).toks().len() && upto(r->Ok_0.named_type.span, old($0).toks(), final($0).toks()), final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/type_condition.rs impl=IsMatch:TypeCondition fn=is_match
    ensures r == (is_kw(old($0).toks(), 0, "on"@)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=HasSpan:FragmentSpread fn=span id=FragmentSpread::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=FromTokens:FragmentSpread fn=from_tokens
    requires !is_kw(old($0).toks(), 1, "on"@), ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.name.span, r->Ok_0.span)) && (odin(r->Ok_0.directives, r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=IsMatch:FragmentSpread fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::Ellipse) && is_name(old($0).toks(), 1) && !is_kw(old($0).toks(), 1, "on"@)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=HasSpan:InlineFragment fn=span id=InlineFragment::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=FromTokens:InlineFragment fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.selection_set.span, r->Ok_0.span)) && (odin(r->Ok_0.directives, r->Ok_0.span)) && (r->Ok_0.type_condition is Some ==> inside(r->Ok_0.type_condition->0.named_type.span, r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
    decreases old($0).toks().len(), 1int
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=IsMatch:InlineFragment fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::Ellipse) && (!is_name(old($0).toks(), 1) || is_kw(old($0).toks(), 1, "on"@))), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=HasSpan:Field fn=span id=Field::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=FromTokens:Field fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.name.span, r->Ok_0.span)) && (odin(r->Ok_0.directives, r->Ok_0.span)) && (r->Ok_0.alias is Some ==> inside(r->Ok_0.alias->0.span, r->Ok_0.span)) && (r->Ok_0.arguments is Some ==> inside(r->Ok_0.arguments->0.span, r->Ok_0.span)) && (r->Ok_0.selection_set is Some ==> inside(r->Ok_0.selection_set->0.span, r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
    decreases old($0).toks().len(), 1int
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=IsMatch:Field fn=is_match
    ensures r == (is_name(old($0).toks(), 0)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/selection.rs impl=FromTokens:Selection fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(selspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
    decreases old($0).toks().len(), 2int
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=FromTokens:SelectionSet fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.selections@.len() ==> inside(selspan(#[trigger] r->Ok_0.selections@[i]), r->Ok_0.span),
    decreases old($0).toks().len(), 0int
//@ at start
    broadcast use {span_group, list_group};
//@ loop 0
    invariant_except_break $brk is None,
    invariant suffix($0.toks(), old($0).toks()), ordered(old($0).toks()), $0.toks().len() < old($0).toks().len(),
        forall|i: int| 0 <= i < $let(Vec)@.len() ==> upto(selspan(#[trigger] $let(Vec)@[i]), old($0).toks(), $0.toks()),
    ensures $brk is Some, closes($brk->0, old($0).toks(), $0.toks()),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=IsMatch:SelectionSet fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::OpenBrace)), final($0).toks() == old($0).toks(),
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=HasSpan:SelectionSet fn=span id=SelectionSet::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/operation_type.rs impl=FromTokens:OperationType fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/operation_type.rs impl=IsMatch:OperationType fn=is_match
    ensures final($0).toks() == old($0).toks()
//@ loop 0
    invariant $it.i <= 3, $0.toks() == old($0).toks(),
    decreases 3 - $it.i
//@end
//@fn src=bluejay-parser/src/ast/operation_type.rs impl=HasSpan:OperationType fn=span id=OperationType::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=HasSpan:OperationDefinition fn=span id=OperationDefinition::span
    ensures *r == opspan(*self)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=HasSpan:ExplicitOperationDefinition fn=span id=ExplicitOperationDefinition::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=HasSpan:ImplicitOperationDefinition fn=span id=ImplicitOperationDefinition::span
    ensures *r == self.selection_set.span
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=FromTokens:OperationDefinition fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(opspan(r->Ok_0), old($0).toks(), final($0).toks())),
        final($0).toks().len() <= old($0).toks().len(),
        r is Ok ==> match r->Ok_0 { OperationDefinition::Explicit(e) => inside(e.operation_type.span, e.span) && inside(e.selection_set.span, e.span) && odin(e.directives, e.span) && (e.name is Some ==> inside(e.name->0.span, e.span)) && (e.variable_definitions is Some ==> inside(e.variable_definitions->0._span, e.span)), _ => true },
//@ at start
    broadcast use {span_group, list_group};
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=HasSpan:FragmentDefinition fn=span id=FragmentDefinition::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FromTokens:FragmentDefinition fn=from_tokens
    requires ordered(old($0).toks())
    ensures r is Ok ==> (cov(r->Ok_0.span, old($0).toks(), final($0).toks()) && (inside(r->Ok_0.selection_set.span, r->Ok_0.span)) && (odin(r->Ok_0.directives, r->Ok_0.span)) && (inside(r->Ok_0.name.span, r->Ok_0.span)) && (inside(r->Ok_0.type_condition.named_type.span, r->Ok_0.span))),
        final($0).toks().len() <= old($0).toks().len(),
//@ at start
    broadcast use {span_group, list_group};
//@end
} // verus!
fn main() {}
