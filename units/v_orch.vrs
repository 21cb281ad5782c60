// The document validator's driver: which events the visitors (the rules and analyzers) are sent for a document.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@method zip/1 ==> opt_zip($self, $1)
//@rtype opt_zip=opt fragment_definitions=iter operation_definitions=iter fields_definition=opt mutation=opt subscription=opt get/1=opt
//@known opt_zip
pub fn opt_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<(A, B)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(A, B)> }) { match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
pub mod events { use super::*;
pub enum Ev<'a> {
    Op(OperationDefinition), Set(List<Selection>, TypeDefinitionReference<'a>), Field(Field, FieldDefinition, PathRoot<'a>),
    CDir(Directive<true>, DirectiveLocation), VDir(Directive<false>, DirectiveLocation), CDirs(List<Directive<true>>, DirectiveLocation), VDirs(List<Directive<false>>, DirectiveLocation),
    Frag(FragmentDefinition), Inline(InlineFragment, TypeDefinitionReference<'a>), Spread(FragmentSpread, TypeDefinitionReference<'a>, PathRoot<'a>),
    CArg(Argument<true>, InputValueDefinition), VArg(Argument<false>, InputValueDefinition, PathRoot<'a>), Var(VariableDefinition), Vars(List<VariableDefinition>),
}
pub type Evs<'a> = Multiset<Ev<'a>>;
pub open spec fn one<'a>(e: Ev<'a>) -> Evs<'a> { Multiset::singleton(e) }
pub open spec fn none<'a>() -> Evs<'a> { Multiset::empty() }
// all events of a sequence of elements
pub open spec fn sum<'a, A>(s: Seq<A>, f: spec_fn(A) -> Evs<'a>) -> Evs<'a> decreases s.len() { if s.len() == 0 { none() } else { sum(s.drop_last(), f).add(f(s.last())) } }
pub proof fn sum_step<'a, A>(s: Seq<A>, k: int, f: spec_fn(A) -> Evs<'a>) requires 0 < k <= s.len() ensures sum(s.take(k), f) == sum(s.take(k - 1), f).add(f(s[k - 1])) { assert(s.take(k).drop_last() =~= s.take(k - 1)); }
pub proof fn sum_ends<'a, A>(s: Seq<A>, f: spec_fn(A) -> Evs<'a>) ensures sum(s.take(0), f) == none::<'a>(), sum(s.take(s.len() as int), f) == sum(s, f) { assert(s.take(s.len() as int) =~= s); }
pub trait Visitor<'a>: Sized {
    // what the visitor was sent
    spec fn log(&self) -> Evs<'a>;
    fn new(d: &'a ExecutableDocument, s: &'a SchemaDefinition, c: &'a Cache<'a>) -> (r: Self) ensures r.log() == none::<'a>();
    fn visit_operation_definition(&mut self, x: &'a OperationDefinition) ensures final(self).log() == old(self).log().add(one(Ev::Op(*x)));
    fn visit_selection_set(&mut self, x: &'a List<Selection>, t: TypeDefinitionReference<'a>) ensures final(self).log() == old(self).log().add(one(Ev::Set(*x, t)));
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, p: &Path<'a>) ensures final(self).log() == old(self).log().add(one(Ev::Field(*x, *d, p.root)));
    fn visit_const_directive(&mut self, x: &'a Directive<true>, l: DirectiveLocation) ensures final(self).log() == old(self).log().add(one(Ev::CDir(*x, l)));
    fn visit_variable_directive(&mut self, x: &'a Directive<false>, l: DirectiveLocation) ensures final(self).log() == old(self).log().add(one(Ev::VDir(*x, l)));
    fn visit_const_directives(&mut self, x: &'a List<Directive<true>>, l: DirectiveLocation) ensures final(self).log() == old(self).log().add(one(Ev::CDirs(*x, l)));
    fn visit_variable_directives(&mut self, x: &'a List<Directive<false>>, l: DirectiveLocation) ensures final(self).log() == old(self).log().add(one(Ev::VDirs(*x, l)));
    fn visit_fragment_definition(&mut self, x: &'a FragmentDefinition) ensures final(self).log() == old(self).log().add(one(Ev::Frag(*x)));
    fn visit_inline_fragment(&mut self, x: &'a InlineFragment, t: TypeDefinitionReference<'a>) ensures final(self).log() == old(self).log().add(one(Ev::Inline(*x, t)));
    fn visit_fragment_spread(&mut self, x: &'a FragmentSpread, t: TypeDefinitionReference<'a>, p: &Path<'a>) ensures final(self).log() == old(self).log().add(one(Ev::Spread(*x, t, p.root)));
    fn visit_const_argument(&mut self, x: &'a Argument<true>, d: &'a InputValueDefinition) ensures final(self).log() == old(self).log().add(one(Ev::CArg(*x, *d)));
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition, p: &Path<'a>) ensures final(self).log() == old(self).log().add(one(Ev::VArg(*x, *d, p.root)));
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) ensures final(self).log() == old(self).log().add(one(Ev::Var(*x)));
    fn visit_variable_definitions(&mut self, x: &'a List<VariableDefinition>) ensures final(self).log() == old(self).log().add(one(Ev::Vars(*x)));
}
// the events of each part of a document
pub open spec fn e_carg<'a>(d: Seq<InputValueDefinition>, a: Argument<true>) -> Evs<'a> { match first(d, a.s_name()) { Some(i) => one(Ev::CArg(a, i)), None => none() } }
pub open spec fn e_varg<'a>(d: Seq<InputValueDefinition>, r: PathRoot<'a>, a: Argument<false>) -> Evs<'a> { match first(d, a.s_name()) { Some(i) => one(Ev::VArg(a, i, r)), None => none() } }
pub open spec fn e_cargs<'a>(d: Seq<InputValueDefinition>, a: Seq<Argument<true>>) -> Evs<'a> { sum(a, |a: Argument<true>| e_carg(d, a)) }
pub open spec fn e_vargs<'a>(d: Seq<InputValueDefinition>, r: PathRoot<'a>, a: Seq<Argument<false>>) -> Evs<'a> { sum(a, |a: Argument<false>| e_varg(d, r, a)) }
pub open spec fn dirdefs(s: SchemaDefinition, n: Seq<char>) -> Option<Seq<InputValueDefinition>> { match first(s.s_directive_definitions(), n) { Some(d) => match d.o_arguments_definition() { Some(l) => Some(l@), None => None }, None => None } }
pub open spec fn e_cdir<'a>(s: SchemaDefinition, l: DirectiveLocation, d: Directive<true>) -> Evs<'a> { one(Ev::CDir(d, l)).add(match (d.o_arguments(), dirdefs(s, d.s_name())) { (Some(a), Some(x)) => e_cargs(x, a@), _ => none() }) }
pub open spec fn e_vdir<'a>(s: SchemaDefinition, l: DirectiveLocation, r: PathRoot<'a>, d: Directive<false>) -> Evs<'a> { one(Ev::VDir(d, l)).add(match (d.o_arguments(), dirdefs(s, d.s_name())) { (Some(a), Some(x)) => e_vargs(x, r, a@), _ => none() }) }
pub open spec fn e_cdirs<'a>(s: SchemaDefinition, l: DirectiveLocation, d: List<Directive<true>>) -> Evs<'a> { one(Ev::CDirs(d, l)).add(sum(d@, |d: Directive<true>| e_cdir(s, l, d))) }
pub open spec fn e_vdirs<'a>(s: SchemaDefinition, l: DirectiveLocation, r: PathRoot<'a>, d: List<Directive<false>>) -> Evs<'a> { one(Ev::VDirs(d, l)).add(sum(d@, |d: Directive<false>| e_vdir(s, l, r, d))) }
pub open spec fn e_ocdirs<'a>(s: SchemaDefinition, l: DirectiveLocation, d: Option<List<Directive<true>>>) -> Evs<'a> { match d { Some(d) => e_cdirs(s, l, d), None => none() } }
pub open spec fn e_ovdirs<'a>(s: SchemaDefinition, l: DirectiveLocation, r: PathRoot<'a>, d: Option<List<Directive<false>>>) -> Evs<'a> { match d { Some(d) => e_vdirs(s, l, r, d), None => none() } }
pub open spec fn e_var<'a>(s: SchemaDefinition, v: VariableDefinition) -> Evs<'a> { e_ocdirs(s, DirectiveLocation::VariableDefinition, v.o_directives()).add(one(Ev::Var(v))) }
pub open spec fn e_vars<'a>(s: SchemaDefinition, v: List<VariableDefinition>) -> Evs<'a> { one(Ev::Vars(v)).add(sum(v@, |v: VariableDefinition| e_var(s, v))) }
pub open spec fn e_spread<'a>(s: &'a SchemaDefinition, f: FragmentSpread, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) -> Evs<'a> { e_ovdirs(*s, DirectiveLocation::FragmentSpread, r, f.o_directives()).add(one(Ev::Spread(f, t, r))) }
// the type an inline fragment's selections are checked against
pub open spec fn cond_type<'a>(s: &'a SchemaDefinition, c: Option<Seq<char>>, t: TypeDefinitionReference<'a>) -> Option<TypeDefinitionReference<'a>> { match c { Some(n) => first(s.s_type_definitions(), n), None => Some(t) } }
pub open spec fn e_set<'a>(s: &'a SchemaDefinition, x: List<Selection>, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) -> Evs<'a> decreases sdepth(x), x@.len() + 2 { one(Ev::Set(x, t)).add(e_upto(s, x, x@.len() as int, t, r)) }
// the first k selections
pub open spec fn e_upto<'a>(s: &'a SchemaDefinition, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) -> Evs<'a> decreases sdepth(x), k + 1 via e_upto_dec {
    if k <= 0 || k > x@.len() { none() } else { e_upto(s, x, k - 1, t, r).add(match x@[k - 1].r() {
        SelectionReference::Field(f) => match t.o_fields_definition() { Some(d) => match first(d@, f.s_name()) { Some(d) => one(Ev::Field(*f, d, r)).add(e_ovdirs(*s, DirectiveLocation::Field, r, f.o_directives())).add(match (f.o_arguments(), d.o_arguments_definition()) { (Some(a), Some(l)) => e_vargs(l@, r, a@), _ => none() }).add(
            match f.o_selection_set() { Some(y) => match first(s.s_type_definitions(), ty_base(d.s_type_().v())) { Some(t2) => e_set(s, y, t2, r), None => none() }, None => none() }), None => none() }, None => none() },
        SelectionReference::InlineFragment(i) => e_ovdirs(*s, DirectiveLocation::InlineFragment, r, i.o_directives()).add(match cond_type(s, i.s_type_condition(), t) { Some(t2) => e_set(s, i.s_selection_set(), t2, r), None => none() }).add(one(Ev::Inline(*i, t))),
        SelectionReference::FragmentSpread(f) => e_spread(s, *f, t, r) }) }
}
#[via_fn] proof fn e_upto_dec<'a>(s: &'a SchemaDefinition, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) { broadcast use sdepth_sub; }
pub open spec fn e_sub<'a>(s: &'a SchemaDefinition, f: Field, d: FieldDefinition, r: PathRoot<'a>) -> Evs<'a> { match f.o_selection_set() { Some(y) => match first(s.s_type_definitions(), ty_base(d.s_type_().v())) { Some(t2) => e_set(s, y, t2, r), None => none() }, None => none() } }
pub open spec fn e_field<'a>(s: &'a SchemaDefinition, f: Field, d: FieldDefinition, r: PathRoot<'a>) -> Evs<'a> { one(Ev::Field(f, d, r)).add(e_ovdirs(*s, DirectiveLocation::Field, r, f.o_directives())).add(match (f.o_arguments(), d.o_arguments_definition()) { (Some(a), Some(l)) => e_vargs(l@, r, a@), _ => none() }).add(e_sub(s, f, d, r)) }
pub open spec fn e_inline<'a>(s: &'a SchemaDefinition, i: InlineFragment, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) -> Evs<'a> { e_ovdirs(*s, DirectiveLocation::InlineFragment, r, i.o_directives()).add(match cond_type(s, i.s_type_condition(), t) { Some(t2) => e_set(s, i.s_selection_set(), t2, r), None => none() }).add(one(Ev::Inline(i, t))) }
pub open spec fn e_sel<'a>(s: &'a SchemaDefinition, x: Selection, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) -> Evs<'a> { match x.r() {
    SelectionReference::Field(f) => match t.o_fields_definition() { Some(d) => match first(d@, f.s_name()) { Some(d) => e_field(s, *f, d, r), None => none() }, None => none() },
    SelectionReference::InlineFragment(i) => e_inline(s, *i, t, r), SelectionReference::FragmentSpread(f) => e_spread(s, *f, t, r) } }
pub proof fn e_upto_step<'a>(s: &'a SchemaDefinition, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) requires 0 < k <= x@.len() ensures e_upto(s, x, k, t, r) == e_upto(s, x, k - 1, t, r).add(e_sel(s, x@[k - 1], t, r)) {}
pub proof fn e_upto_0<'a>(s: &'a SchemaDefinition, x: List<Selection>, t: TypeDefinitionReference<'a>, r: PathRoot<'a>) ensures e_upto(s, x, 0, t, r) == none::<'a>() {}
// the root type of an operation type
pub open spec fn root_of(s: SchemaDefinition, o: OperationType) -> Option<ObjectTypeDefinition> { match o { OperationType::Query => Some(s.s_query()), OperationType::Mutation => s.s_mutation(), OperationType::Subscription => s.s_subscription() } }
pub open spec fn roots_defined(s: SchemaDefinition) -> bool { forall|o: OperationType| #[trigger] root_of(s, o) is Some ==> named_in(s.s_type_definitions(), root_of(s, o)->0.s_name()) }
pub open spec fn e_op<'a>(s: &'a SchemaDefinition, o: OperationDefinition) -> Evs<'a> {
    one(Ev::Op(o)).add(e_ovdirs(*s, oploc(o.s_operation_type()), PathRoot::Operation(&o), o.o_directives())).add(match o.o_variable_definitions() { Some(v) => e_vars(*s, v), None => none() })
        .add(match root_of(*s, o.s_operation_type()) { Some(t) => e_set(s, o.s_selection_set(), first(s.s_type_definitions(), t.s_name())->0, PathRoot::Operation(&o)), None => none() })
}
pub open spec fn oploc(o: OperationType) -> DirectiveLocation { match o { OperationType::Query => DirectiveLocation::Query, OperationType::Mutation => DirectiveLocation::Mutation, OperationType::Subscription => DirectiveLocation::Subscription } }
pub open spec fn e_frag<'a>(s: &'a SchemaDefinition, f: FragmentDefinition) -> Evs<'a> {
    (match first(s.s_type_definitions(), f.s_type_condition()) { Some(t) => e_set(s, f.s_selection_set(), t, PathRoot::Fragment(&f)), None => none() }).add(e_ovdirs(*s, DirectiveLocation::FragmentDefinition, PathRoot::Fragment(&f), f.o_directives())).add(one(Ev::Frag(f)))
}
pub open spec fn e_doc<'a>(s: &'a SchemaDefinition, d: &ExecutableDocument) -> Evs<'a> { sum(d.s_operation_definitions(), |o: OperationDefinition| e_op(s, o)).add(sum(d.s_fragment_definitions(), |f: FragmentDefinition| e_frag(s, f))) }
}
pub use events::*;
//@item src=bluejay-validator/src/executable/document/orchestrator.rs name=Orchestrator subst="< 'a , E : ExecutableDocument , S : SchemaDefinition , V : Visitor < 'a > > ==> < 'a , V : Visitor < 'a > >"
pub mod drive { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_const_argument header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(one(Ev::CArg(*$0, *$1)))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(one(Ev::CArg(*$0, *$1)))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_variable_argument header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(one(Ev::VArg(*$0, *$1, $2.root)))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(one(Ev::VArg(*$0, *$1, $2.root)))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_const_arguments header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_cargs($1@, $0@))
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |a: Argument<true>| e_carg($1@, a); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop 0 end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_cargs($1@, $0@))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_variable_arguments header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_vargs($1@, $2.root, $0@))
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |a: Argument<false>| e_varg($1@, $2.root, a); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop 0 end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_vargs($1@, $2.root, $0@))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_const_directive header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_cdir(*old(self).schema_definition, $1, *$0))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_cdir(*old(self).schema_definition, $1, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_variable_directive header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_vdir(*old(self).schema_definition, $1, $2.root, *$0))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_vdir(*old(self).schema_definition, $1, $2.root, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_const_directives header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_cdirs(*old(self).schema_definition, $1, *$0))
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |d: Directive<true>| e_cdir(*old(self).schema_definition, $1, d); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop 0 end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_cdirs(*old(self).schema_definition, $1, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_variable_directives header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_vdirs(*old(self).schema_definition, $1, $2.root, *$0))
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |d: Directive<false>| e_vdir(*old(self).schema_definition, $1, $2.root, d); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop 0 end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_vdirs(*old(self).schema_definition, $1, $2.root, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_variable_definitions header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_vars(*old(self).schema_definition, *$0))
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |v: VariableDefinition| e_var(*old(self).schema_definition, v); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop 0 end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_vars(*old(self).schema_definition, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_fragment_spread header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_spread(old(self).schema_definition, *$0, $1, $2.root))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_spread(old(self).schema_definition, *$0, $1, $2.root))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_field header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_field(old(self).schema_definition, *$0, *$1, $2.root))
    decreases (match $0.o_selection_set() { Some(y) => sdepth(y) + 1, None => 0 }), 1int
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_field(old(self).schema_definition, *$0, *$1, $2.root))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_inline_fragment header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_inline(old(self).schema_definition, *$0, $1, $2.root))
    decreases sdepth($0.s_selection_set()) + 1, 1int
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_inline(old(self).schema_definition, *$0, $1, $2.root))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_selection_set header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_set(old(self).schema_definition, *$0, $1, $2.root))
    decreases sdepth(*$0) + 1, 0int
//@ at start
broadcast use sdepth_sub;
//@ loop 0
@base
pre let ghost __l = self.visitor.log(); proof { e_upto_0(old(self).schema_definition, *$0, $1, $2.root); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(e_upto(old(self).schema_definition, *$0, $k, $1, $2.root))
//@ at loop 0 end
proof { e_upto_step(old(self).schema_definition, *$0, $k, $1, $2.root); assert(self.visitor.log() =~= __l.add(e_upto(old(self).schema_definition, *$0, $k, $1, $2.root))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_set(old(self).schema_definition, *$0, $1, $2.root))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_fragment_definition header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_frag(old(self).schema_definition, *$0))
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_frag(old(self).schema_definition, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit_operation_definition header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires roots_defined(*old(self).schema_definition)
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_op(old(self).schema_definition, *$0))
//@ at start
proof { let __r = root_of(*old(self).schema_definition, $0.s_operation_type()); if __r is Some { assert(named_in(old(self).schema_definition.s_type_definitions(), __r->0.s_name())); first_has(old(self).schema_definition.s_type_definitions(), __r->0.s_name()); } }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_op(old(self).schema_definition, *$0))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=visit header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires roots_defined(*old(self).schema_definition)
    ensures final(self).schema_definition == old(self).schema_definition, final(self).executable_document == old(self).executable_document,
        final(self).visitor.log() == old(self).visitor.log().add(e_doc(old(self).schema_definition, old(self).executable_document))
//@ at start
hide(e_op); hide(e_frag); hide(sum);
//@ loop ~visit_operation_definition
@base
pre let ghost __l = self.visitor.log(); let ghost __f = |o: OperationDefinition| e_op(old(self).schema_definition, o); proof { sum_ends($s, __f); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l.add(sum($s.take($k), __f))
//@ at loop ~visit_operation_definition end
proof { sum_step($s, $k, __f); assert(self.visitor.log() =~= __l.add(sum($s.take($k), __f))); }
//@ loop ~visit_fragment_definition
@base
pre let ghost __l2 = self.visitor.log(); let ghost __f2 = |o: FragmentDefinition| e_frag(old(self).schema_definition, o); proof { sum_ends($s, __f2); }
invariant self.schema_definition == old(self).schema_definition, self.executable_document == old(self).executable_document
invariant self.visitor.log() == __l2.add(sum($s.take($k), __f2))
//@ at loop ~visit_fragment_definition end
proof { sum_step($s, $k, __f2); assert(self.visitor.log() =~= __l2.add(sum($s.take($k), __f2))); }
//@ at tail
proof { assert(self.visitor.log() =~= old(self).visitor.log().add(e_doc(old(self).schema_definition, old(self).executable_document))); }
//@end
//@fn src=bluejay-validator/src/executable/document/orchestrator.rs impl=Orchestrator fn=new header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures r.visitor.log() == none::<'a>(), r.schema_definition == $1, r.executable_document == $0
//@end
//@fn src=bluejay-validator/src/executable/document/path.rs impl=Clone:Path fn=clone traitimpl header="impl<'a> Clone for Path<'a>"
    ensures r.root == self.root
//@end
//@fn src=bluejay-validator/src/executable/document/path.rs impl=Path fn=with_selection header="impl<'a> Path<'a>"
    ensures r.root == self.root
//@end
}
} // verus!
fn main() {}
