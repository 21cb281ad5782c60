// P19: the deprecation analysis reports exactly the deprecated elements used.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerce_spec.inc
//@include validator.inc
//@include coerce_ext.inc
//@include graph.inc
//@include op_spec.inc
//@include op_orch.inc
//@rtype get/1=opt find=opt get_deprecation_reason=opt
//@subst S :: EnumValueDefinition ==> EnumValueDefinition
//@fn src=bluejay-validator/src/executable/operation/variable_values.rs impl=trait:VariableValues fn=get header="impl VarValues"
    ensures r == kv(self.e(), $0@)
//@ sig fn get(&self, $0: &str) -> (r: Option<&Value<true>>)
//@ loop 0
@base
except $acc is None
except kv($s, $0@) == kv($s.skip($k), $0@)
ensures is_ent($acc, kv($s, $0@))
//@end
//@item src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs name=UsageType prefix="#[derive(Copy, Clone)]"
//@item src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs name=Offender
//@item src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs name=Deprecation subst="< 'a , E : ExecutableDocument , S : SchemaDefinition , VV : VariableValues > ==> < 'a >;;& 'a VV ==> & 'a VarValues"
pub assume_specification [<str as std::convert::AsRef<str>>::as_ref] (_0: &str) -> (r: &str) ensures r@ == _0@;
pub mod deprspec { use super::*;
// what one report says
pub struct Off { pub kind: UsageType, pub name: Seq<char>, pub reason: Seq<char> }
pub open spec fn offs(s: Seq<Offender>) -> Seq<Off> { s.map_values(|o: Offender| Off { kind: o.offense_type, name: o.name@, reason: o.reason@ }) }
pub broadcast proof fn offs_push(s: Seq<Offender>, o: Offender) ensures #[trigger] offs(s.push(o)) == offs(s) + seq![Off { kind: o.offense_type, name: o.name@, reason: o.reason@ }] { assert(offs(s.push(o)) =~= offs(s) + seq![Off { kind: o.offense_type, name: o.name@, reason: o.reason@ }]); }
pub broadcast proof fn add_nil(s: Seq<Off>) ensures #[trigger] (s + Seq::<Off>::empty()) == s { assert(s + Seq::<Off>::empty() =~= s); }
pub broadcast proof fn nil_add(s: Seq<Off>) ensures #[trigger] (Seq::<Off>::empty() + s) == s { assert(Seq::<Off>::empty() + s =~= s); }
pub broadcast proof fn add3(a: Seq<Off>, b: Seq<Off>, c: Seq<Off>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
// the element is deprecated, with that reason
pub open spec fn reason_of(d: Option<List<Directive<true>>>) -> Option<Seq<char>> { match d { None => None, Some(l) => match first(l@, "deprecated"@) { None => None, Some(x) => Some(match x.o_arguments() { None => "No longer supported."@, Some(a) => match first(a@, "reason"@) { None => "No longer supported."@, Some(y) => match y.s_value().r() { ValueReference::String(z) => z@, _ => "No longer supported."@ } } }) } } }
pub open spec fn flag(k: UsageType, n: Seq<char>, d: Option<List<Directive<true>>>) -> Seq<Off> { match reason_of(d) { Some(r) => seq![Off { kind: k, name: n, reason: r }], None => seq![] } }
// the value given for a field of an input object
pub open spec fn fe<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, n: Seq<char>) -> Option<&'a Value<C>> decreases e.len() { if e.len() == 0 { None } else if e[0].0.s_() == n { Some(e[0].1) } else { fe(e.skip(1), n) } }
pub open spec fn is_fe<'a, const C: bool>(a: Option<(&'a ObjKey, &'a Value<C>)>, r: Option<&'a Value<C>>) -> bool { match a { Some(x) => r == Some(x.1), None => r is None } }
pub proof fn fe_in<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, n: Seq<char>) ensures fe(e, n) is Some ==> exists|i: int| 0 <= i < e.len() && fe(e, n)->0 == (#[trigger] e[i]).1 decreases e.len() { if e.len() > 0 && e[0].0.s_() != n { fe_in(e.skip(1), n); if fe(e, n) is Some { let i = choose|i: int| 0 <= i < e.skip(1).len() && fe(e, n)->0 == (#[trigger] e.skip(1)[i]).1; assert(e[i + 1] == e.skip(1)[i]); } } }
pub proof fn fe_small<const C: bool>(v: Value<C>, n: Seq<char>) requires v.r() is Object ensures fe(v.r()->Object_0.e(), n) is Some ==> vdepth(*fe(v.r()->Object_0.e(), n)->0) < vdepth(v) { broadcast use vdepth_obj; let e = v.r()->Object_0.e(); fe_in(e, n); if fe(e, n) is Some { let i = choose|i: int| 0 <= i < e.len() && fe(e, n)->0 == (#[trigger] e[i]).1; assert(vdepth(*e[i].1) < vdepth(v)); } }
pub open spec fn enum_name<const C: bool>(v: Value<C>) -> Option<Seq<char>> { match v.r() { ValueReference::Enum(n) => Some(n@), ValueReference::String(n) => if str_enum(v) { Some(n@) } else { None }, _ => None } }
// the deprecated elements a value of that type uses (the guards always hold: items_by, fields_by, field_by, inner_small)
pub open spec fn dv<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, n: Seq<char>) -> Seq<Off> decreases vdepth(v), 1 + ty_depth(t.v()), 0int {
    match t.s_ref(s) {
        InputTypeReference::List(i, _) => if ty_depth(i.v()) < ty_depth(t.v()) { match v.r() { ValueReference::List(l) => dv_items(s, *i, v, l@.len() as int, n), _ => dv(s, *i, v, n) } } else { seq![] },
        InputTypeReference::Base(b, _) => match b {
            BaseInputTypeReference::Enum(e) => match enum_name(v) { Some(x) => match first(e.s_enum_value_definitions()@, x) { Some(d) => flag(UsageType::EnumValue, n, d.o_directives()), None => seq![] }, None => seq![] },
            BaseInputTypeReference::InputObject(o) => match v.r() { ValueReference::Object(x) => dv_fields(s, o.s_input_field_definitions()@, v, o.s_input_field_definitions()@.len() as int, n), _ => seq![] },
            _ => seq![] } }
}
pub open spec fn dv_items<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, k: int, n: Seq<char>) -> Seq<Off> decreases vdepth(v), 0nat, k { if k <= 0 || !(v.r() is List) || k > v.r()->List_0@.len() || vdepth(v.r()->List_0@[k - 1]) >= vdepth(v) { seq![] } else { dv_items(s, t, v, k - 1, n) + dv(s, t, v.r()->List_0@[k - 1], n) } }
pub open spec fn dv_fields<const C: bool>(s: SchemaDefinition, ds: Seq<InputValueDefinition>, v: Value<C>, k: int, n: Seq<char>) -> Seq<Off> decreases vdepth(v), 0nat, k { if k <= 0 || k > ds.len() { seq![] } else { dv_fields(s, ds, v, k - 1, n) + dv_field(s, ds[k - 1], v, n) } }
pub open spec fn dv_field<const C: bool>(s: SchemaDefinition, d: InputValueDefinition, v: Value<C>, n: Seq<char>) -> Seq<Off> decreases vdepth(v), 0nat, 0int { if !(v.r() is Object) { seq![] } else { match fe(v.r()->Object_0.e(), d.s_name()) { None => seq![], Some(w) => if vdepth(*w) >= vdepth(v) { seq![] } else { flag(UsageType::InputField, d.s_name(), d.o_directives()) + dv(s, d.s_type_(), *w, n) } } } }
pub proof fn items_by<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, k: int, n: Seq<char>) requires v.r() is List, 0 < k <= v.r()->List_0@.len() ensures dv_items(s, t, v, k, n) == dv_items(s, t, v, k - 1, n) + dv(s, t, v.r()->List_0@[k - 1], n) { broadcast use vdepth_list; assert(vdepth(v.r()->List_0@[k - 1]) < vdepth(v)); }
pub proof fn fields_by<const C: bool>(s: SchemaDefinition, ds: Seq<InputValueDefinition>, v: Value<C>, k: int, n: Seq<char>) requires 0 < k <= ds.len(), v.r() is Object ensures dv_fields(s, ds, v, k, n) == dv_fields(s, ds, v, k - 1, n) + dv_field(s, ds[k - 1], v, n), dv_field(s, ds[k - 1], v, n) == (match fe(v.r()->Object_0.e(), ds[k - 1].s_name()) { None => seq![], Some(w) => flag(UsageType::InputField, ds[k - 1].s_name(), ds[k - 1].o_directives()) + dv(s, ds[k - 1].s_type_(), *w, n) }) { fe_small(v, ds[k - 1].s_name()); }
// what is reported: by event
pub struct DepSt<'a> { pub r: Seq<Off>, pub s: &'a SchemaDefinition, pub c: &'a Cache<'a>, pub vv: VarValues }
pub open spec fn used<'a>(s: SchemaDefinition, c: &'a Cache<'a>, vv: VarValues, e: OEv<'a>) -> Seq<Off> { match e {
    OEv::Arg(a, d) => flag(UsageType::Argument, a.s_name(), d.o_directives()) + dv(s, d.s_type_(), a.s_value(), a.s_name()),
    OEv::Enter(f, d, t, i) => if i { flag(UsageType::Field, f.s_name(), d.o_directives()) } else { seq![] },
    OEv::Var(d) => match c.s_input_type(d.s_type_()) { None => seq![], Some(t) => (match kv(vv.e(), d.s_variable()) { Some(v) => dv(s, t, *v, d.s_variable()), None => seq![] }) + (match d.s_default_value() { Some(v) => dv(s, t, v, d.s_variable()), None => seq![] }) },
    _ => seq![] } }
pub open spec fn dep_nx<'a>(s: DepSt<'a>, e: OEv<'a>) -> DepSt<'a> { DepSt { r: s.r + used(*s.s, s.c, s.vv, e), ..s } }
impl<'a> Deprecation<'a> { pub open spec fn z(&self) -> DepSt<'a> { DepSt { r: offs(self.offenders@), s: self.schema_definition, c: self.cache, vv: *self.variable_values } } }
}
pub use deprspec::*;
pub mod glue { use super::*;
impl<'a> Visitor<'a> for Deprecation<'a> { type ExtraInfo = (); type St = DepSt<'a>;
    open spec fn st(&self) -> DepSt<'a> { self.z() }
    open spec fn s0(z: Env<'a>, x: ()) -> DepSt<'a> { DepSt { r: seq![], s: z.s, c: z.c, vv: *z.vv } }
    open spec fn nx(s: DepSt<'a>, e: OEv<'a>) -> DepSt<'a> { dep_nx(s, e) }
    open spec fn can(s: DepSt<'a>, e: OEv<'a>) -> bool { true }
    fn new(o: &'a OperationDefinition, s: &'a SchemaDefinition, v: &'a VarValues, c: &'a Cache<'a>, x: ()) -> (r: Self) { Self::q_new(o, s, v, c, x) }
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition) { self.q_arg(x, d) }
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_enter(x, d, t, i) }
    fn leave_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_leave(x, d, t, i) }
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) { self.q_var(x) }
}
impl<'a> Analyzer<'a> for Deprecation<'a> { type Output = Vec<Offender<'a>>;
    open spec fn out(s: DepSt<'a>, o: Vec<Offender<'a>>) -> bool { offs(o@) == s.r }
    fn into_output(self) -> (r: Vec<Offender<'a>>) { self.q_out() }
}
}
pub use glue::*;
pub mod depr { use super::*; broadcast use {base_lemmas, len_lemmas, vdepth_list, vdepth_obj, offs_push, add_nil, nil_add, add3, inner_small};
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs fn=get_deprecation_reason header=""
    ensures match r { Some(x) => reason_of($0.h_directives()) == Some(x@), None => reason_of($0.h_directives()) is None }
//@ sig fn get_deprecation_reason<N: HasDirectives>($0: &N) -> (r: Option<&str>)
//@ loop 0
@base
@first "deprecated"@
//@ loop 1
@base
@first "reason"@
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs impl=Deprecation fn=find_deprecations_for_value header="impl<'a> Deprecation<'a>"
    ensures final(self).z() == (DepSt { r: old(self).z().r + dv(*old(self).schema_definition, *$0, *$1, $2@), ..old(self).z() })
    decreases vdepth(*$1), ty_depth($0.v())
//@ sig fn find_deprecations_for_value<const CONST: bool>(&mut self, $0: &'a InputType, $1: &'a Value<CONST>, $2: &'a str)
//@ subst V :: can_coerce_string_value_to_enum ( ) ==> $1 . can_coerce_string_value_to_enum_ ( )
//@ at start
broadcast use input_ref_v; let ghost __v = *$1; let ghost __z = self.z(); let ghost __t = $0.s_ref(*self.schema_definition);
//@ loop ~list_item
@base
invariant self.z() == (DepSt { r: __z.r + dv_items(*__z.s, *__t->List_0, __v, $k, $2@), ..__z })
//@ at loop ~list_item end
proof { items_by(*__z.s, *__t->List_0, __v, $k, $2@); }
//@ loop ~evd
@base
@first enum_name(__v)->0
//@ loop ~input_field_definition
@base
invariant self.z() == (DepSt { r: __z.r + dv_fields(*__z.s, $s, __v, $k, $2@), ..__z })
//@ at loop ~input_field_definition start
proof { if $k < $s.len() { fields_by(*__z.s, $s, __v, $k + 1, $2@); fe_small(__v, $s[$k].s_name()); } }
//@ loop ~key
@base
except $acc is None
except fe($s, $up.s_name()) == fe($s.skip($k), $up.s_name())
ensures is_fe($acc, fe($s, $up.s_name()))
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs impl=Visitor:Deprecation fn=new as=q_new header="impl<'a> Deprecation<'a>"
    ensures r.z() == Self::s0(Env { s: $1, op: $0, vv: $2, c: $3 }, $4)
//@ sig fn q_new($0: &'a OperationDefinition, $1: &'a SchemaDefinition, $2: &'a VarValues, $3: &'a Cache<'a>, $4: ()) -> (r: Self)
//@ at tail
proof { assert(offs(__tail.offenders@) =~= seq![]); }
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:Deprecation fn=visit_variable_argument as=q_arg header="impl<'a> Deprecation<'a>"
    ensures final(self).z() == dep_nx(old(self).z(), OEv::Arg(*$0, *$1))
//@ sig fn q_arg(&mut self, $0: &'a Argument<false>, $1: &'a InputValueDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:Deprecation fn=visit_field as=q_enter header="impl<'a> Deprecation<'a>"
    ensures final(self).z() == dep_nx(old(self).z(), OEv::Enter(*$0, *$1, $2, $3))
//@ sig fn q_enter(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:Deprecation fn=leave_field as=q_leave header="impl<'a> Deprecation<'a>"
    ensures final(self).z() == old(self).z()
//@ sig fn q_leave(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:Deprecation fn=visit_variable_definition as=q_var header="impl<'a> Deprecation<'a>"
    ensures final(self).z() == dep_nx(old(self).z(), OEv::Var(*$0))
//@ sig fn q_var(&mut self, $0: &'a VariableDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/deprecation.rs impl=Analyzer:Deprecation fn=into_output as=q_out header="impl<'a> Deprecation<'a>"
    ensures offs(r@) == self.z().r
//@ sig fn q_out(self) -> (r: Vec<Offender<'a>>)
//@end
}
// the report lists the deprecated elements the parts of the operation use, in order
pub mod meaning { use super::*; broadcast use {runs, add_nil, add3};
pub open spec fn listed<'a>(z: Env<'a>, e: OEvs<'a>) -> Seq<Off> decreases e.len() { if e.len() == 0 { seq![] } else { listed(z, e.drop_last()) + used(*z.s, z.c, *z.vv, e.last()) } }
pub proof fn gathered<'a>(z: Env<'a>, e: OEvs<'a>) ensures okay::<Deprecation>(Deprecation::s0(z, ()), e), run::<Deprecation>(Deprecation::s0(z, ()), e) == (DepSt { r: listed(z, e), ..Deprecation::s0(z, ()) }) decreases e.len() { if e.len() > 0 { gathered(z, e.drop_last()); } }
// P19: what Orchestrator::analyze::<Deprecation> returns
pub proof fn analyzed<'a>(z: Env<'a>, r: Vec<Offender<'a>>) requires Deprecation::out(run::<Deprecation>(Deprecation::s0(z, ()), o_op(z)), r)
    ensures okay::<Deprecation>(Deprecation::s0(z, ()), o_op(z)), offs(r@) == listed(z, o_op(z)) { gathered(z, o_op(z)); }
}
} // verus!
fn main() {}
