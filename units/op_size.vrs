// P18: input-size analysis reports exactly the lists that are longer than the limit.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@include op_spec.inc
//@include op_orch.inc
//@rtype get/1=opt
//@subst :: < E , VV , CONST > ==> :: < CONST >
//@subst :: < E , VV , false > ==> :: < false >
//@subst :: < E , VV , true > ==> :: < true >
//@subst :: < E , VV > ==>
//@fn src=bluejay-validator/src/executable/operation/variable_values.rs impl=trait:VariableValues fn=get header="impl VarValues"
    ensures r == kv(self.e(), $0@)
//@ sig fn get(&self, $0: &str) -> (r: Option<&Value<true>>)
//@ loop 0
@base
except $acc is None
except kv($s, $0@) == kv($s.skip($k), $0@)
ensures is_ent($acc, kv($s, $0@))
//@end
//@item src=bluejay-validator/src/executable/operation/analyzers/input_size.rs name=Offender
//@item src=bluejay-validator/src/executable/operation/analyzers/input_size.rs name=InputSize subst="< 'a , E : ExecutableDocument , VV : VariableValues > ==> < 'a >;;& 'a VV ==> & 'a VarValues"
pub mod sizespec { use super::*;
// constant values contain no variables (the parser has no variables in constant position; JSON has none)
pub broadcast axiom fn const_value<const C: bool>(v: Value<C>) ensures C ==> !((#[trigger] v.r()) is Variable);
pub open spec fn szs(s: Seq<Offender>) -> Seq<int> { s.map_values(|o: Offender| o.size as int) }
pub broadcast proof fn szs_push(s: Seq<Offender>, o: Offender) ensures #[trigger] szs(s.push(o)) == szs(s) + seq![o.size as int] { assert(szs(s.push(o)) =~= szs(s) + seq![o.size as int]); }
pub broadcast proof fn add_nil(s: Seq<int>) ensures #[trigger] (s + Seq::<int>::empty()) == s { assert(s + Seq::<int>::empty() =~= s); }
pub broadcast proof fn add3(a: Seq<int>, b: Seq<int>, c: Seq<int>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
// the lengths of the lists that are too long (redundant guards against bigger parts: see items_by, fields_by)
pub open spec fn bigv(m: int, v: Value<true>) -> Seq<int> decreases vdepth(v), 1int, 0int {
    match v.r() {
        ValueReference::List(l) => if l@.len() > m { seq![l@.len() as int] } else { bigv_items(m, v, l@.len() as int) },
        ValueReference::Object(o) => bigv_fields(m, v, o.e().len() as int),
        _ => seq![],
    }
}
pub open spec fn bigv_items(m: int, v: Value<true>, k: int) -> Seq<int> decreases vdepth(v), 0int, k { if k <= 0 || !(v.r() is List) || k > v.r()->List_0@.len() || vdepth(v.r()->List_0@[k - 1]) >= vdepth(v) { seq![] } else { bigv_items(m, v, k - 1) + bigv(m, v.r()->List_0@[k - 1]) } }
pub open spec fn bigv_fields(m: int, v: Value<true>, k: int) -> Seq<int> decreases vdepth(v), 0int, k { if k <= 0 || !(v.r() is Object) || k > v.r()->Object_0.e().len() || vdepth(*v.r()->Object_0.e()[k - 1].1) >= vdepth(v) { seq![] } else { bigv_fields(m, v, k - 1) + bigv(m, *v.r()->Object_0.e()[k - 1].1) } }
pub open spec fn big<const C: bool>(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<C>) -> Seq<int> decreases vdepth(v), 1int, 0int {
    match v.r() {
        ValueReference::List(l) => if l@.len() > m { seq![l@.len() as int] } else { big_items(m, vv, d, v, l@.len() as int) },
        ValueReference::Object(o) => big_fields(m, vv, d, v, o.e().len() as int),
        ValueReference::Variable(x) => match kv(vv.e(), x.s_name()) { Some(w) => bigv(m, *w), None => match first(d, x.s_name()) { Some(y) => match y.s_default_value() { Some(w) => bigv(m, w), None => seq![] }, None => seq![] } },
        _ => seq![],
    }
}
pub open spec fn big_items<const C: bool>(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<C>, k: int) -> Seq<int> decreases vdepth(v), 0int, k { if k <= 0 || !(v.r() is List) || k > v.r()->List_0@.len() || vdepth(v.r()->List_0@[k - 1]) >= vdepth(v) { seq![] } else { big_items(m, vv, d, v, k - 1) + big(m, vv, d, v.r()->List_0@[k - 1]) } }
pub open spec fn big_fields<const C: bool>(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<C>, k: int) -> Seq<int> decreases vdepth(v), 0int, k { if k <= 0 || !(v.r() is Object) || k > v.r()->Object_0.e().len() || vdepth(*v.r()->Object_0.e()[k - 1].1) >= vdepth(v) { seq![] } else { big_fields(m, vv, d, v, k - 1) + big(m, vv, d, *v.r()->Object_0.e()[k - 1].1) } }
pub proof fn vitems_by(m: int, v: Value<true>, k: int) requires v.r() is List, 0 < k <= v.r()->List_0@.len() ensures bigv_items(m, v, k) == bigv_items(m, v, k - 1) + bigv(m, v.r()->List_0@[k - 1]) { broadcast use vdepth_list; assert(vdepth(v.r()->List_0@[k - 1]) < vdepth(v)); }
pub proof fn vfields_by(m: int, v: Value<true>, k: int) requires v.r() is Object, 0 < k <= v.r()->Object_0.e().len() ensures bigv_fields(m, v, k) == bigv_fields(m, v, k - 1) + bigv(m, *v.r()->Object_0.e()[k - 1].1) { broadcast use vdepth_obj; assert(vdepth(*v.r()->Object_0.e()[k - 1].1) < vdepth(v)); }
pub proof fn items_by<const C: bool>(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<C>, k: int) requires v.r() is List, 0 < k <= v.r()->List_0@.len() ensures big_items(m, vv, d, v, k) == big_items(m, vv, d, v, k - 1) + big(m, vv, d, v.r()->List_0@[k - 1]) { broadcast use vdepth_list; assert(vdepth(v.r()->List_0@[k - 1]) < vdepth(v)); }
pub proof fn fields_by<const C: bool>(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<C>, k: int) requires v.r() is Object, 0 < k <= v.r()->Object_0.e().len() ensures big_fields(m, vv, d, v, k) == big_fields(m, vv, d, v, k - 1) + big(m, vv, d, *v.r()->Object_0.e()[k - 1].1) { broadcast use vdepth_obj; assert(vdepth(*v.r()->Object_0.e()[k - 1].1) < vdepth(v)); }
pub proof fn const_big(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<true>) ensures big(m, vv, d, v) == bigv(m, v) decreases vdepth(v), 1int, 0int { broadcast use const_value; match v.r() { ValueReference::List(l) => { const_items(m, vv, d, v, l@.len() as int); } ValueReference::Object(o) => { const_fields(m, vv, d, v, o.e().len() as int); } _ => {} } }
pub proof fn const_items(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<true>, k: int) requires v.r() is List, 0 <= k <= v.r()->List_0@.len() ensures big_items(m, vv, d, v, k) == bigv_items(m, v, k) decreases vdepth(v), 0int, k { broadcast use vdepth_list; if k > 0 { assert(vdepth(v.r()->List_0@[k - 1]) < vdepth(v)); const_items(m, vv, d, v, k - 1); const_big(m, vv, d, v.r()->List_0@[k - 1]); } }
pub proof fn const_fields(m: int, vv: VarValues, d: Seq<VariableDefinition>, v: Value<true>, k: int) requires v.r() is Object, 0 <= k <= v.r()->Object_0.e().len() ensures big_fields(m, vv, d, v, k) == bigv_fields(m, v, k) decreases vdepth(v), 0int, k { broadcast use vdepth_obj; if k > 0 { assert(vdepth(*v.r()->Object_0.e()[k - 1].1) < vdepth(v)); const_fields(m, vv, d, v, k - 1); const_big(m, vv, d, *v.r()->Object_0.e()[k - 1].1); } }
}
pub use sizespec::*;
// the state: sizes reported so far, the limit, the variable values and the operation's variable definitions
pub struct SizeSt { pub r: Seq<int>, pub m: int, pub vv: VarValues, pub d: Seq<VariableDefinition> }
impl<'a> InputSize<'a> { pub open spec fn z(&self) -> SizeSt { SizeSt { r: szs(self.offenders@), m: self.max_length as int, vv: *self.variable_values, d: (match self.variable_definitions { Some(l) => l@, None => seq![] }) } } }
pub mod glue { use super::*;
impl<'a> Visitor<'a> for InputSize<'a> { type ExtraInfo = usize; type St = SizeSt;
    open spec fn st(&self) -> SizeSt { self.z() }
    open spec fn s0(z: Env<'a>, x: usize) -> SizeSt { SizeSt { r: seq![], m: x as int, vv: *z.vv, d: (match z.op.o_variable_definitions() { Some(l) => l@, None => seq![] }) } }
    open spec fn nx(s: SizeSt, e: OEv<'a>) -> SizeSt { match e { OEv::Arg(a, d) => SizeSt { r: s.r + big(s.m, s.vv, s.d, a.s_value()), ..s }, _ => s } }
    open spec fn can(s: SizeSt, e: OEv<'a>) -> bool { true }
    fn new(o: &'a OperationDefinition, s: &'a SchemaDefinition, v: &'a VarValues, c: &'a Cache<'a>, x: usize) -> (r: Self) { Self::q_new(o, s, v, c, x) }
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition) { self.q_arg(x, d) }
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_enter(x, d, t, i) }
    fn leave_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_leave(x, d, t, i) }
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) { self.q_var(x) }
}
impl<'a> Analyzer<'a> for InputSize<'a> { type Output = Vec<Offender>;
    open spec fn out(s: SizeSt, o: Vec<Offender>) -> bool { szs(o@) == s.r }
    fn into_output(self) -> (r: Vec<Offender>) { self.q_out() }
}
}
pub use glue::*;
pub mod sizes { use super::*; broadcast use {base_lemmas, len_lemmas, vdepth_list, vdepth_obj, const_value, szs_push, add_nil, add3};
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs fn=find_input_size_offenders_variables header=""
    ensures szs(final($1)@) == szs(old($1)@) + bigv($0 as int, *$3)
    decreases vdepth(*$3)
//@ sig fn find_input_size_offenders_variables($0: usize, $1: &mut Vec<Offender>, $2: String, $3: &Value<true>)
//@ loop ~index
@base
pre let ghost __b = szs($1@);
invariant $ix as int == $k
invariant szs($1@) == __b + bigv_items($0 as int, *$3, $k)
//@ at loop ~index end
proof { vitems_by($0 as int, *$3, $k); }
//@ loop ~key
@base
pre let ghost __b = szs($1@);
invariant szs($1@) == __b + bigv_fields($0 as int, *$3, $k)
//@ at loop ~key end
proof { vfields_by($0 as int, *$3, $k); }
//@end
// the instance for constant values (the one the generic function calls on a variable's default value)
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs fn=find_input_size_offenders_arguments as=find_input_size_offenders_const id=find_input_size_offenders_arguments<true> header=""
    ensures szs(final($1)@) == szs(old($1)@) + big($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5)
    decreases vdepth(*$5)
//@ subst find_input_size_offenders_arguments :: < E , VV , CONST > ==> find_input_size_offenders_const
//@ subst find_input_size_offenders_arguments :: < E , VV , true > ==> find_input_size_offenders_const
//@ sig fn find_input_size_offenders_const($0: usize, $1: &mut Vec<Offender>, $2: &VarValues, $3: Option<&List<VariableDefinition>>, $4: String, $5: &Value<true>)
//@ loop ~index
@base
pre let ghost __b = szs($1@);
invariant $ix as int == $k
invariant szs($1@) == __b + big_items($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k)
//@ at loop ~index end
proof { items_by($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k); }
//@ loop ~key
@base
pre let ghost __b = szs($1@);
invariant szs($1@) == __b + big_fields($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k)
//@ at loop ~key end
proof { fields_by($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k); }
//@ loop ~def
@base
@first $5.r()->Variable_0.s_name()
//@ at start
proof { const_value(*$5); assert(!($5.r() is Variable)); } let ghost __d = (match $3 { Some(l) => l@, None => seq![] });
proof { assert forall|w: Value<true>| #[trigger] big($0 as int, *$2, __d, w) == bigv($0 as int, w) by { const_big($0 as int, *$2, __d, w); } }
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs fn=find_input_size_offenders_arguments header=""
    ensures szs(final($1)@) == szs(old($1)@) + big($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5)
    decreases vdepth(*$5)
//@ subst find_input_size_offenders_arguments :: < E , VV , true > ==> find_input_size_offenders_const
//@ sig fn find_input_size_offenders_arguments<const CONST: bool>($0: usize, $1: &mut Vec<Offender>, $2: &VarValues, $3: Option<&List<VariableDefinition>>, $4: String, $5: &Value<CONST>)
//@ loop ~index
@base
pre let ghost __b = szs($1@);
invariant $ix as int == $k
invariant szs($1@) == __b + big_items($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k)
//@ at loop ~index end
proof { items_by($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k); }
//@ loop ~key
@base
pre let ghost __b = szs($1@);
invariant szs($1@) == __b + big_fields($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k)
//@ at loop ~key end
proof { fields_by($0 as int, *$2, (match $3 { Some(l) => l@, None => seq![] }), *$5, $k); }
//@ loop ~def
@base
@first $5.r()->Variable_0.s_name()
//@ at start
proof { const_value(*$5); assert(CONST ==> !($5.r() is Variable)); } let ghost __d = (match $3 { Some(l) => l@, None => seq![] });
proof { assert forall|w: Value<true>| #[trigger] big($0 as int, *$2, __d, w) == bigv($0 as int, w) by { const_big($0 as int, *$2, __d, w); } }
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs impl=Visitor:InputSize fn=new as=q_new header="impl<'a> InputSize<'a>"
    ensures r.z() == Self::s0(Env { s: $1, op: $0, vv: $2, c: $3 }, $4)
//@ sig fn q_new($0: &'a OperationDefinition, $1: &'a SchemaDefinition, $2: &'a VarValues, $3: &'a Cache<'a>, $4: usize) -> (r: Self)
//@ at tail
proof { assert(szs(__tail.offenders@) =~= seq![]); }
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:InputSize fn=visit_variable_argument as=q_arg header="impl<'a> InputSize<'a>"
    ensures final(self).z() == Self::nx(old(self).z(), OEv::Arg(*$0, *$1))
//@ sig fn q_arg(&mut self, $0: &'a Argument<false>, $1: &'a InputValueDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:InputSize fn=visit_field as=q_enter header="impl<'a> InputSize<'a>"
    ensures final(self).z() == old(self).z()
//@ sig fn q_enter(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:InputSize fn=leave_field as=q_leave header="impl<'a> InputSize<'a>"
    ensures final(self).z() == old(self).z()
//@ sig fn q_leave(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:InputSize fn=visit_variable_definition as=q_var header="impl<'a> InputSize<'a>"
    ensures final(self).z() == old(self).z()
//@ sig fn q_var(&mut self, $0: &'a VariableDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/input_size.rs impl=Analyzer:InputSize fn=into_output as=q_out header="impl<'a> InputSize<'a>"
    ensures szs(r@) == self.z().r
//@ sig fn q_out(self) -> (r: Vec<Offender>)
//@end
}
// the report is the sizes of the over-long lists in the arguments of the operation, in order
pub mod meaning { use super::*; broadcast use {runs, add_nil, add3};
pub open spec fn sized<'a>(z: Env<'a>, m: int, e: OEvs<'a>) -> Seq<int> decreases e.len() { if e.len() == 0 { seq![] } else { sized(z, m, e.drop_last()) + (match e.last() { OEv::Arg(a, d) => big(m, *z.vv, (match z.op.o_variable_definitions() { Some(l) => l@, None => seq![] }), a.s_value()), _ => seq![] }) } }
pub proof fn gathered<'a>(z: Env<'a>, x: usize, e: OEvs<'a>) ensures okay::<InputSize>(InputSize::s0(z, x), e), run::<InputSize>(InputSize::s0(z, x), e) == (SizeSt { r: sized(z, x as int, e), ..InputSize::s0(z, x) }) decreases e.len() { if e.len() > 0 { gathered(z, x, e.drop_last()); } }
// P18: what Orchestrator::analyze::<InputSize> returns
pub proof fn analyzed<'a>(z: Env<'a>, x: usize, r: Vec<Offender>) requires InputSize::out(run::<InputSize>(InputSize::s0(z, x), o_op(z)), r)
    ensures okay::<InputSize>(InputSize::s0(z, x), o_op(z)), szs(r@) == sized(z, x as int, o_op(z)) { gathered(z, x, o_op(z)); }
}
} // verus!
fn main() {}
