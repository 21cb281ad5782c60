pub mod opevents { use super::*;
#[derive(Clone, Copy)]
pub struct Env<'a> { pub s: &'a SchemaDefinition, pub op: &'a OperationDefinition, pub vv: &'a VarValues, pub c: &'a Cache<'a> }
pub enum OEv<'a> {
    Arg(Argument<false>, InputValueDefinition), Var(VariableDefinition),
    Enter(Field, FieldDefinition, TypeDefinitionReference<'a>, bool), Leave(Field, FieldDefinition, TypeDefinitionReference<'a>, bool),
}
pub type OEvs<'a> = Seq<OEv<'a>>;
pub open spec fn one<'a>(e: OEv<'a>) -> OEvs<'a> { seq![e] }
pub open spec fn none<'a>() -> OEvs<'a> { seq![] }
// an analyzer: a state machine over the events
pub trait Visitor<'a>: Sized {
    type ExtraInfo; type St;
    spec fn st(&self) -> Self::St;
    spec fn s0(z: Env<'a>, x: Self::ExtraInfo) -> Self::St;
    spec fn nx(s: Self::St, e: OEv<'a>) -> Self::St;
    // machine arithmetic in the step stays in range
    spec fn can(s: Self::St, e: OEv<'a>) -> bool;
    fn new(o: &'a OperationDefinition, s: &'a SchemaDefinition, v: &'a VarValues, c: &'a Cache<'a>, x: Self::ExtraInfo) -> (r: Self) ensures r.st() == Self::s0(Env { s, op: o, vv: v, c }, x);
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition) requires Self::can(old(self).st(), OEv::Arg(*x, *d)) ensures final(self).st() == Self::nx(old(self).st(), OEv::Arg(*x, *d));
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) requires Self::can(old(self).st(), OEv::Enter(*x, *d, t, i)) ensures final(self).st() == Self::nx(old(self).st(), OEv::Enter(*x, *d, t, i));
    fn leave_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) requires Self::can(old(self).st(), OEv::Leave(*x, *d, t, i)) ensures final(self).st() == Self::nx(old(self).st(), OEv::Leave(*x, *d, t, i));
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) requires Self::can(old(self).st(), OEv::Var(*x)) ensures final(self).st() == Self::nx(old(self).st(), OEv::Var(*x));
}
pub open spec fn run<'a, V: Visitor<'a>>(s: V::St, e: OEvs<'a>) -> V::St decreases e.len() { if e.len() == 0 { s } else { V::nx(run::<V>(s, e.drop_last()), e.last()) } }
pub open spec fn okay<'a, V: Visitor<'a>>(s: V::St, e: OEvs<'a>) -> bool decreases e.len() { e.len() == 0 || (okay::<V>(s, e.drop_last()) && V::can(run::<V>(s, e.drop_last()), e.last())) }
pub proof fn split<'a, V: Visitor<'a>>(s: V::St, a: OEvs<'a>, b: OEvs<'a>) ensures run::<V>(s, a + b) == run::<V>(run::<V>(s, a), b), okay::<V>(s, a + b) <==> okay::<V>(s, a) && okay::<V>(run::<V>(s, a), b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); split::<V>(s, a, b.drop_last()); }
}
pub broadcast proof fn run_add<'a, V: Visitor<'a>>(s: V::St, a: OEvs<'a>, b: OEvs<'a>) ensures #[trigger] run::<V>(s, a + b) == run::<V>(run::<V>(s, a), b) { split::<V>(s, a, b); }
pub broadcast proof fn okay_add<'a, V: Visitor<'a>>(s: V::St, a: OEvs<'a>, b: OEvs<'a>) ensures #[trigger] okay::<V>(s, a + b) <==> okay::<V>(s, a) && okay::<V>(run::<V>(s, a), b) { split::<V>(s, a, b); }
pub broadcast proof fn run_one<'a, V: Visitor<'a>>(s: V::St, e: OEv<'a>) ensures #[trigger] run::<V>(s, one(e)) == V::nx(s, e) { assert(one(e).drop_last() =~= none()); assert(run::<V>(s, none()) == s); }
pub broadcast proof fn okay_one<'a, V: Visitor<'a>>(s: V::St, e: OEv<'a>) ensures #[trigger] okay::<V>(s, one(e)) <==> V::can(s, e) { assert(one(e).drop_last() =~= none()); assert(run::<V>(s, none()) == s); assert(okay::<V>(s, none())); }
pub broadcast proof fn run_none<'a, V: Visitor<'a>>(s: V::St) ensures #[trigger] run::<V>(s, none()) == s, okay::<V>(s, none()) {}
pub broadcast proof fn okay_none<'a, V: Visitor<'a>>(s: V::St) ensures #[trigger] okay::<V>(s, none()) {}
pub broadcast group runs { run_add, okay_add, run_one, okay_one, run_none, okay_none }
// the events of each part of an operation
pub open spec fn sum<'a, A>(s: Seq<A>, f: spec_fn(A) -> OEvs<'a>) -> OEvs<'a> decreases s.len() { if s.len() == 0 { none() } else { f(s[0]) + sum(s.skip(1), f) } }
pub proof fn sum_step<'a, A>(s: Seq<A>, k: int, f: spec_fn(A) -> OEvs<'a>) requires 0 <= k <= s.len() ensures k < s.len() ==> sum(s.skip(k), f) == f(s[k]) + sum(s.skip(k + 1), f) { if k < s.len() { assert(s.skip(k).skip(1) =~= s.skip(k + 1)); } }
pub proof fn sum_ends<'a, A>(s: Seq<A>, f: spec_fn(A) -> OEvs<'a>) ensures sum(s.skip(0), f) == sum(s, f), sum(s.skip(s.len() as int), f) == none::<'a>() { assert(s.skip(0) =~= s); }
pub open spec fn o_arg<'a>(d: Seq<InputValueDefinition>, a: Argument<false>) -> OEvs<'a> { match first(d, a.s_name()) { Some(i) => one(OEv::Arg(a, i)), None => none() } }
pub open spec fn o_args<'a>(d: Seq<InputValueDefinition>, a: Seq<Argument<false>>) -> OEvs<'a> { sum(a, |a: Argument<false>| o_arg(d, a)) }
pub open spec fn odefs(s: SchemaDefinition, n: Seq<char>) -> Option<Seq<InputValueDefinition>> { match first(s.s_directive_definitions(), n) { Some(d) => match d.o_arguments_definition() { Some(l) => Some(l@), None => None }, None => None } }
pub open spec fn o_dir<'a>(s: SchemaDefinition, d: Directive<false>) -> OEvs<'a> { match (d.o_arguments(), odefs(s, d.s_name())) { (Some(a), Some(x)) => o_args(x, a@), _ => none() } }
pub open spec fn o_dirs<'a>(s: SchemaDefinition, d: Seq<Directive<false>>) -> OEvs<'a> { sum(d, |d: Directive<false>| o_dir(s, d)) }
pub open spec fn oo_dirs<'a>(s: SchemaDefinition, d: Option<List<Directive<false>>>) -> OEvs<'a> { match d { Some(d) => o_dirs(s, d@), None => none() } }
pub open spec fn o_fargs<'a>(f: Field, d: FieldDefinition) -> OEvs<'a> { match (f.o_arguments(), d.o_arguments_definition()) { (Some(a), Some(l)) => o_args(l@, a@), _ => none() } }
// fragments are followed unless they are being followed already; there are finitely many
pub open spec fn names(c: &Cache) -> Set<Seq<char>> { c.s_fragment_definitions().map_values(|f: FragmentDefinition| f.s_name()).to_set() }
pub open spec fn fuel(c: &Cache, cur: Set<Seq<char>>) -> nat { names(c).difference(cur).len() }
pub broadcast axiom fn cached(c: &Cache, n: Seq<char>) ensures (#[trigger] c.s_fragment(n)) is Some ==> names(c).contains(n);
pub open spec fn frag_of(c: &Cache, n: Seq<char>, cur: Set<Seq<char>>) -> Option<FragmentDefinition> { if cur.contains(n) || !names(c).contains(n) { None } else { c.s_fragment(n) } }
pub proof fn fuel_less(c: &Cache, n: Seq<char>, cur: Set<Seq<char>>) requires names(c).contains(n), !cur.contains(n) ensures fuel(c, cur.insert(n)) < fuel(c, cur) { let a = names(c).difference(cur); let b = names(c).difference(cur.insert(n)); assert(b =~= a.remove(n)); assert(a.contains(n)); }
pub open spec fn cond_type<'a>(s: &'a SchemaDefinition, c: Option<Seq<char>>, t: TypeDefinitionReference<'a>) -> Option<TypeDefinitionReference<'a>> { match c { Some(n) => first(s.s_type_definitions(), n), None => Some(t) } }
// the selections from the k-th on
pub open spec fn o_from<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> decreases fuel(z.c, cur), sdepth(x), x@.len() - k via o_from_dec {
    if k < 0 || k >= x@.len() { none() } else { (match x@[k].r() {
        SelectionReference::Field(f) => match t.o_fields_definition() { Some(d) => match first(d@, f.s_name()) { Some(d) => { let j = i && incl(*z.op, *z.vv, f.o_directives());
            oo_dirs(*z.s, f.o_directives()) + (one(OEv::Enter(*f, d, t, j)) + (o_fargs(*f, d) + ((match f.o_selection_set() { Some(y) => match first(z.s.s_type_definitions(), ty_base(d.s_type_().v())) { Some(t2) => o_from(z, y, 0, t2, j, cur), None => none() }, None => none() }) + one(OEv::Leave(*f, d, t, j))))) }, None => none() }, None => none() },
        SelectionReference::InlineFragment(f) => { let j = i && incl(*z.op, *z.vv, f.o_directives()); oo_dirs(*z.s, f.o_directives()) + (match cond_type(z.s, f.s_type_condition(), t) { Some(t2) => o_from(z, f.s_selection_set(), 0, t2, j, cur), None => none() }) },
        SelectionReference::FragmentSpread(f) => { let j = i && incl(*z.op, *z.vv, f.o_directives()); oo_dirs(*z.s, f.o_directives()) + (match frag_of(z.c, f.s_name(), cur) { Some(g) => match first(z.s.s_type_definitions(), g.s_type_condition()) { Some(t2) => o_from(z, g.s_selection_set(), 0, t2, j, cur.insert(f.s_name())), None => none() }, None => none() }) },
    }) + o_from(z, x, k + 1, t, i, cur) }
}
#[via_fn] proof fn o_from_dec<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) { broadcast use sdepth_sub; if 0 <= k < x@.len() { match x@[k].r() { SelectionReference::FragmentSpread(f) => { if frag_of(z.c, f.s_name(), cur) is Some { fuel_less(z.c, f.s_name(), cur); } } _ => {} } } }
pub open spec fn o_set<'a>(z: Env<'a>, x: List<Selection>, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> { o_from(z, x, 0, t, i, cur) }
pub open spec fn o_sub<'a>(z: Env<'a>, f: Field, d: FieldDefinition, j: bool, cur: Set<Seq<char>>) -> OEvs<'a> { match f.o_selection_set() { Some(y) => match first(z.s.s_type_definitions(), ty_base(d.s_type_().v())) { Some(t2) => o_set(z, y, t2, j, cur), None => none() }, None => none() } }
pub open spec fn o_field<'a>(z: Env<'a>, f: Field, d: FieldDefinition, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> { let j = i && incl(*z.op, *z.vv, f.o_directives());
    oo_dirs(*z.s, f.o_directives()) + (one(OEv::Enter(f, d, t, j)) + (o_fargs(f, d) + (o_sub(z, f, d, j, cur) + one(OEv::Leave(f, d, t, j))))) }
pub open spec fn o_inline<'a>(z: Env<'a>, f: InlineFragment, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> { let j = i && incl(*z.op, *z.vv, f.o_directives()); oo_dirs(*z.s, f.o_directives()) + (match cond_type(z.s, f.s_type_condition(), t) { Some(t2) => o_set(z, f.s_selection_set(), t2, j, cur), None => none() }) }
pub open spec fn o_spread<'a>(z: Env<'a>, f: FragmentSpread, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> { let j = i && incl(*z.op, *z.vv, f.o_directives()); oo_dirs(*z.s, f.o_directives()) + (match frag_of(z.c, f.s_name(), cur) { Some(g) => match first(z.s.s_type_definitions(), g.s_type_condition()) { Some(t2) => o_set(z, g.s_selection_set(), t2, j, cur.insert(f.s_name())), None => none() }, None => none() }) }
pub open spec fn o_sel<'a>(z: Env<'a>, x: Selection, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> OEvs<'a> { match x.r() {
    SelectionReference::Field(f) => match t.o_fields_definition() { Some(d) => match first(d@, f.s_name()) { Some(d) => o_field(z, *f, d, t, i, cur), None => none() }, None => none() },
    SelectionReference::InlineFragment(f) => o_inline(z, *f, t, i, cur), SelectionReference::FragmentSpread(f) => o_spread(z, *f, i, cur) } }
pub proof fn o_from_step<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) requires 0 <= k <= x@.len() ensures k < x@.len() ==> o_from(z, x, k, t, i, cur) == o_sel(z, x@[k], t, i, cur) + o_from(z, x, k + 1, t, i, cur) {}
pub proof fn o_from_end<'a>(z: Env<'a>, x: List<Selection>, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) ensures o_from(z, x, x@.len() as int, t, i, cur) == none::<'a>() {}
pub open spec fn root_of(s: SchemaDefinition, o: OperationType) -> Option<ObjectTypeDefinition> { match o { OperationType::Query => Some(s.s_query()), OperationType::Mutation => s.s_mutation(), OperationType::Subscription => s.s_subscription() } }
pub open spec fn roots_defined(s: SchemaDefinition) -> bool { forall|o: OperationType| #[trigger] root_of(s, o) is Some ==> named_in(s.s_type_definitions(), root_of(s, o)->0.s_name()) }
pub open spec fn o_vars<'a>(v: Seq<VariableDefinition>) -> OEvs<'a> { sum(v, |v: VariableDefinition| one(OEv::Var(v))) }
pub open spec fn o_sels<'a>(z: Env<'a>) -> OEvs<'a> { match root_of(*z.s, z.op.s_operation_type()) { Some(t) => o_set(z, z.op.s_selection_set(), first(z.s.s_type_definitions(), t.s_name())->0, true, Set::empty()), None => none() } }
pub open spec fn o_op<'a>(z: Env<'a>) -> OEvs<'a> { oo_dirs(*z.s, z.op.o_directives()) + (o_sels(z) + (match z.op.o_variable_definitions() { Some(v) => o_vars(v@), None => none() })) }
// what an analyzer reports in the end
pub trait Analyzer<'a>: Visitor<'a> {
    type Output;
    spec fn out(s: Self::St, o: Self::Output) -> bool;
    fn into_output(self) -> (r: Self::Output) ensures Self::out(self.st(), r);
}
// the operation with that name, or the only one
pub open spec fn op_named(s: Seq<OperationDefinition>, n: Seq<char>) -> Option<OperationDefinition> decreases s.len() { if s.len() == 0 { None } else if s[0].s_name() == Some(n) { Some(s[0]) } else { op_named(s.skip(1), n) } }
pub open spec fn chosen(s: Seq<OperationDefinition>, n: Option<&str>) -> Option<OperationDefinition> { match n { Some(n) => op_named(s, n@), None => if s.len() == 1 { Some(s[0]) } else { None } } }
#[verifier::external_body]
pub fn sole<'a, T>(x: It<'a, T>) -> (r: Option<&'a T>) ensures x@.len() == 1 ==> r is Some && *r->0 == x@[0], x@.len() != 1 ==> r is None { unimplemented!() }
}
pub use opevents::*;
