// P18: supplied variable values are accepted if and only if they are valid.
#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerce_spec.inc
//@include validator.inc
//@include coerce_ext.inc
//@include graph.inc
//@include op_spec.inc
//@include op_orch.inc
//@include op_facts.inc
//@rtype remove=opt into_values=iter coerce_const_value=res
//@fn src=bluejay-validator/src/value/input_coercion.rs impl=trait:CoerceInput fn=coerce_const_value header="impl SchemaDefinition"
    ensures r is Err <==> unfit(*self, *$0, *$1, $2@)
//@ sig fn coerce_const_value<'a>(&'a self, $0: &'a InputType, $1: &'a Value<true>, $2: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, true>>>)
//@end
impl VariableDefinition { pub open spec fn s_is_required(&self) -> bool { self.s_default_value() is None && ty_required(self.s_type_().v()) } }
//@fn src=bluejay-core/src/executable/variable_definition.rs impl=trait:VariableDefinition fn=is_required header="impl VariableDefinition"
    ensures r == self.s_is_required()
//@end
//@item src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs name=VariableValueError subst="< 'a , E : ExecutableDocument , VV : VariableValues > ==> < 'a >;;& 'a VV :: Value ==> & 'a Value<true>;;& 'a VV :: Key ==> & 'a ObjKey;;CoerceInputError < 'a , true , < VV as VariableValues > :: Value > ==> CoercionError < 'a , true >"
//@item src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs name=VariableValuesAreValid subst="< 'a , E : ExecutableDocument , S : SchemaDefinition , VV : VariableValues , > ==> < 'a >;;& 'a VV :: Key ==> & 'a ObjKey;;& 'a VV :: Value ==> & 'a Value < true >;;VariableValueError < 'a , E , VV > ==> VariableValueError < 'a >;;PhantomData < E > ==> PhantomData < u8 >"
//@subst VariableValueError < 'a , E , VV > ==> VariableValueError < 'a >
pub struct PhantomData<T> { x: Option<T> }
pub mod vspec { use super::*;
pub type KV<'a> = (&'a ObjKey, &'a Value<true>);
// where the analysis is: the entries not claimed by a variable yet, and how many errors there are
pub struct VSt<'a> { pub rem: Map<Seq<char>, KV<'a>>, pub n: nat, pub s: &'a SchemaDefinition, pub c: &'a Cache<'a> }
pub open spec fn wrong<'a>(s: &'a SchemaDefinition, c: &'a Cache<'a>, d: VariableDefinition, v: Option<Value<true>>) -> bool { match c.s_input_type(d.s_type_()) { None => false, Some(t) => match v { Some(v) => unfit(*s, t, v, Seq::empty()), None => d.s_is_required() } } }
pub open spec fn got<'a>(m: Map<Seq<char>, KV<'a>>, n: Seq<char>) -> Option<Value<true>> { if m.contains_key(n) { Some(*m[n].1) } else { None } }
pub open spec fn vnx<'a>(s: VSt<'a>, e: OEv<'a>) -> VSt<'a> { match e { OEv::Var(d) => VSt { rem: s.rem.remove(d.s_variable()), n: s.n + (if wrong(s.s, s.c, d, got(s.rem, d.s_variable())) { 1nat } else { 0 }), s: s.s, c: s.c }, _ => s } }
// the entries by name (the last one of each name)
pub open spec fn table<'a>(e: Seq<KV<'a>>) -> Map<Seq<char>, KV<'a>> decreases e.len() { if e.len() == 0 { Map::empty() } else { table(e.drop_last()).insert(e.last().0.s_(), e.last()) } }
pub proof fn table_step<'a>(e: Seq<KV<'a>>, k: int) requires 0 < k <= e.len() ensures table(e.take(k)) == table(e.take(k - 1)).insert(e[k - 1].0.s_(), e[k - 1]) { assert(e.take(k).drop_last() =~= e.take(k - 1)); }
impl<'a> VariableValuesAreValid<'a> { pub open spec fn w(&self) -> VSt<'a> { VSt { rem: self.indexed_variable_values@, n: self.errors@.len(), s: self.schema_definition, c: self.cache } } }
}
pub use vspec::*;
pub mod vglue { use super::*;
impl<'a> Visitor<'a> for VariableValuesAreValid<'a> { type ExtraInfo = (); type St = VSt<'a>;
    open spec fn st(&self) -> VSt<'a> { self.w() }
    open spec fn s0(z: Env<'a>, x: ()) -> VSt<'a> { VSt { rem: table(z.vv.e()), n: 0, s: z.s, c: z.c } }
    open spec fn nx(s: VSt<'a>, e: OEv<'a>) -> VSt<'a> { vnx(s, e) }
    open spec fn can(s: VSt<'a>, e: OEv<'a>) -> bool { true }
    fn new(o: &'a OperationDefinition, s: &'a SchemaDefinition, v: &'a VarValues, c: &'a Cache<'a>, x: ()) -> (r: Self) { Self::w_new(o, s, v, c, x) }
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition) { self.w_arg(x, d) }
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.w_enter(x, d, t, i) }
    fn leave_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.w_leave(x, d, t, i) }
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) { self.w_var(x) }
}
impl<'a> Analyzer<'a> for VariableValuesAreValid<'a> { type Output = Vec<VariableValueError<'a>>;
    open spec fn out(s: VSt<'a>, o: Vec<VariableValueError<'a>>) -> bool { (o@.len() == 0) == (s.n == 0 && s.rem == Map::<Seq<char>, KV<'a>>::empty()) }
    fn into_output(self) -> (r: Vec<VariableValueError<'a>>) { self.w_out() }
}
}
pub use vglue::*;
pub mod vrules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs impl=Visitor:VariableValuesAreValid fn=new as=w_new header="impl<'a> VariableValuesAreValid<'a>"
    ensures r.w() == (VSt { rem: table($2.e()), n: 0nat, s: $1, c: $3 })
//@ sig fn w_new($0: &'a OperationDefinition, $1: &'a SchemaDefinition, $2: &'a VarValues, $3: &'a Cache<'a>, $4: ()) -> (r: Self)
//@ collect HashMap::new() __ins
//@ subst PhantomData ==> PhantomData { x : None }
//@ loop ~key
@base
pre proof { assert($s.take(0) =~= Seq::empty()); assert($s.take($s.len() as int) =~= $s); }
invariant $acc@ == table($s.take($k))
//@ at loop ~key end
proof { table_step($s, $k); }
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:VariableValuesAreValid fn=visit_variable_definition as=w_var header="impl<'a> VariableValuesAreValid<'a>"
    ensures final(self).w() == vnx(old(self).w(), OEv::Var(*$0))
//@ sig fn w_var(&mut self, $0: &'a VariableDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:VariableValuesAreValid fn=visit_field as=w_enter header="impl<'a> VariableValuesAreValid<'a>"
    ensures final(self).w() == old(self).w()
//@ sig fn w_enter(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:VariableValuesAreValid fn=leave_field as=w_leave header="impl<'a> VariableValuesAreValid<'a>"
    ensures final(self).w() == old(self).w()
//@ sig fn w_leave(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:VariableValuesAreValid fn=visit_variable_argument as=w_arg header="impl<'a> VariableValuesAreValid<'a>"
    ensures final(self).w() == old(self).w()
//@ sig fn w_arg(&mut self, $0: &'a Argument<false>, $1: &'a InputValueDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/variable_values_are_valid.rs impl=Analyzer:VariableValuesAreValid fn=into_output as=w_out header="impl<'a> VariableValuesAreValid<'a>"
    ensures (r@.len() == 0) == (self.w().n == 0 && self.w().rem == Map::<Seq<char>, KV<'a>>::empty())
//@ sig fn w_out(self) -> (r: Vec<VariableValueError<'a>>)
//@ subst self ==> me
//@ at start
let mut me = self;
//@ loop *~
@grow me.errors z: true
invariant me.errors@.len() == $p.len() + $k
//@end
}
// what the analysis decides about an operation
pub mod meaning { use super::*; broadcast use {runs};
pub open spec fn accept<'a>(z: Env<'a>) -> bool { let m = table(z.vv.e()); let d = z.op.s_variable_definitions();
    (forall|i: int| 0 <= i < d.len() ==> !wrong(z.s, z.c, #[trigger] d[i], got(m, d[i].s_variable()))) && (forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> named_in(d, n)) }
pub proof fn quiet<'a>(s: VSt<'a>, e: OEvs<'a>) requires novar(e) ensures run::<VariableValuesAreValid<'a>>(s, e) == s decreases e.len() { if e.len() > 0 { assert forall|i: int| 0 <= i < e.drop_last().len() implies !((#[trigger] e.drop_last()[i]) is Var) by { assert(e.drop_last()[i] == e[i]); } assert(!(e[e.len() - 1] is Var)); quiet(s, e.drop_last()); } }
pub open spec fn distinct(d: Seq<VariableDefinition>) -> bool { forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() ==> d[i].s_variable() != d[j].s_variable() }
pub proof fn claimed<'a>(s: VSt<'a>, d: Seq<VariableDefinition>) requires distinct(d)
    ensures ({ let r = run::<VariableValuesAreValid<'a>>(s, o_vars(d)); &&& r.s == s.s && r.c == s.c &&& forall|n: Seq<char>| #[trigger] r.rem.contains_key(n) <==> s.rem.contains_key(n) && !named_in(d, n)
        &&& r.n >= s.n &&& (r.n == s.n <==> forall|i: int| 0 <= i < d.len() ==> !wrong(s.s, s.c, #[trigger] d[i], got(s.rem, d[i].s_variable()))) }) decreases d.len()
{
    if d.len() > 0 {
        let f = |v: VariableDefinition| one(OEv::Var(v)); let t = d.skip(1); let e = OEv::Var(d[0]); let s1 = vnx(s, e);
        assert(o_vars(d) == one(e) + sum(t, f)); assert(sum(t, f) == o_vars(t));
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].s_variable() != t[j].s_variable() by { assert(t[i] == d[i + 1] && t[j] == d[j + 1]); }
        claimed(s1, t);
        let r = run::<VariableValuesAreValid<'a>>(s1, o_vars(t));
        assert(run::<VariableValuesAreValid<'a>>(s, o_vars(d)) == r);
        assert forall|n: Seq<char>| named_in(d, n) <==> d[0].s_variable() == n || #[trigger] named_in(t, n) by {
            if named_in(d, n) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).nm() == n; if i > 0 { assert(t[i - 1] == d[i]); } }
            if named_in(t, n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).nm() == n; assert(d[i + 1] == t[i]); }
            assert(d[0].nm() == d[0].s_variable()); }
        assert forall|n: Seq<char>| #[trigger] r.rem.contains_key(n) <==> s.rem.contains_key(n) && !named_in(d, n) by { assert(named_in(d, n) <==> d[0].s_variable() == n || named_in(t, n)); }
        assert forall|i: int| 0 <= i < t.len() implies wrong(s1.s, s1.c, #[trigger] t[i], got(s1.rem, t[i].s_variable())) == wrong(s.s, s.c, d[i + 1], got(s.rem, d[i + 1].s_variable())) by { assert(d[i + 1] == t[i]); assert(d[0].s_variable() != d[i + 1].s_variable()); }
        if r.n == s.n { assert forall|i: int| 0 <= i < d.len() implies !wrong(s.s, s.c, #[trigger] d[i], got(s.rem, d[i].s_variable())) by { if i > 0 { assert(t[i - 1] == d[i]); assert(!wrong(s1.s, s1.c, t[i - 1], got(s1.rem, t[i - 1].s_variable()))); } } }
        if forall|i: int| 0 <= i < d.len() ==> !wrong(s.s, s.c, #[trigger] d[i], got(s.rem, d[i].s_variable())) { assert(!wrong(s.s, s.c, d[0], got(s.rem, d[0].s_variable()))); assert forall|i: int| 0 <= i < t.len() implies !wrong(s1.s, s1.c, #[trigger] t[i], got(s1.rem, t[i].s_variable())) by { assert(!wrong(s.s, s.c, d[i + 1], got(s.rem, d[i + 1].s_variable()))); } }
    }
}
// P18: Orchestrator::analyze::<VariableValuesAreValid> reports nothing exactly when the values are acceptable (variables distinct: P08)
pub proof fn analyzed<'a>(z: Env<'a>, r: Vec<VariableValueError<'a>>)
    requires distinct(z.op.s_variable_definitions()), VariableValuesAreValid::<'a>::out(run::<VariableValuesAreValid<'a>>(VariableValuesAreValid::<'a>::s0(z, ()), o_op(z)), r)
    ensures (r@.len() == 0) == accept(z)
{
    let s = VariableValuesAreValid::<'a>::s0(z, ()); let d = z.op.s_variable_definitions();
    novar_odirs(*z.s, z.op.o_directives()); quiet(s, oo_dirs(*z.s, z.op.o_directives())); novar_sels(z); quiet(s, o_sels(z));
    claimed(s, d);
    let f = run::<VariableValuesAreValid<'a>>(s, o_op(z));
    match z.op.o_variable_definitions() { Some(v) => { assert(d == v@); assert(f == run::<VariableValuesAreValid<'a>>(s, o_vars(d))); } None => { assert(d.len() == 0); assert(f == s); assert(run::<VariableValuesAreValid<'a>>(s, o_vars(d)) == s); } }
    if f.rem == Map::<Seq<char>, KV<'a>>::empty() { assert forall|n: Seq<char>| #[trigger] table(z.vv.e()).contains_key(n) implies named_in(d, n) by { assert(!f.rem.contains_key(n)); } }
    if accept(z) { assert forall|n: Seq<char>| !f.rem.contains_key(n) by {} assert(f.rem =~= Map::empty()); }
}
pub proof fn okays<'a>(s: VSt<'a>, e: OEvs<'a>) ensures okay::<VariableValuesAreValid<'a>>(s, e) decreases e.len() { if e.len() > 0 { okays(s, e.drop_last()); } }
}
} // verus!
fn main() {}
