// P07: a variable is used only where its type, with its default value, allows.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@subst std :: iter :: Once ==> ItV
//@subst std :: iter :: once ==> once
//@rtype once=iter operation_definitions_where_fragment_used=iter
//@item src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs name=VariableUsageLocation subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@item src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs name=VariableUsage subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@item src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs name=AllVariableUsagesAllowed subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
impl<'a> Copy for VariableUsageLocation<'a> {}
impl<'a> Clone for VariableUsageLocation<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn nonnull_const(v: Option<Value<true>>) -> bool { match v { Some(x) => !(x.r() is Null), None => false } }
impl<'a> VariableUsageLocation<'a> {
    pub open spec fn ty(&self) -> InputType { match self { VariableUsageLocation::Argument(d) => d.s_type_(), VariableUsageLocation::ObjectField(d) => d.s_type_(), VariableUsageLocation::ListValue(t) => **t } }
    pub open spec fn dflt(&self) -> Option<Value<true>> { match self { VariableUsageLocation::Argument(d) => d.s_default_value(), VariableUsageLocation::ObjectField(d) => d.s_default_value(), VariableUsageLocation::ListValue(t) => None } }
}
// AreTypesCompatible of the GraphQL specification
pub open spec fn compat(v: TyV, l: TyV) -> bool decreases v { match (v, l) {
    (TyV::List(i, q), TyV::List(j, p)) => (q || !p) && compat(*i, *j),
    (TyV::Base(n, q), TyV::Base(m, p)) => (q || !p) && n == m,
    _ => false } }
pub open spec fn input_named(s: &SchemaDefinition, n: Seq<char>) -> bool { match first(s.s_type_definitions(), n) { Some(t) => t.s_is_input(), None => false } }
// IsVariableUsageAllowed of the GraphQL specification (a variable not of input type is reported elsewhere)
pub open spec fn allowed(s: &SchemaDefinition, d: &VariableDefinition, l: VariableUsageLocation<'_>) -> bool {
    let vt = d.s_type_().v(); let lt = l.ty().v();
    !input_named(s, ty_base(vt)) || (if ty_required(lt) && !ty_required(vt) { (nonnull_const(d.s_default_value()) || nonnull_const(l.dflt())) && compat(vt, ty_nullable(lt)) } else { compat(vt, lt) })
}
pub mod occmod { use super::*;
// the variable x occurs in the value v at location l, when v stands at location at
pub open spec fn occ<'a>(s: SchemaDefinition, v: Value<false>, at: VariableUsageLocation<'a>, x: Variable, l: VariableUsageLocation<'a>) -> bool decreases vdepth(v) via occ_dec {
    match v.r() { ValueReference::Variable(y) => *y == x && at == l,
        ValueReference::List(vs) => match at.ty().s_ref(s) { InputTypeReference::List(t, _) => exists|i: int| #![trigger vs@[i]] 0 <= i < vs@.len() && occ(s, vs@[i], VariableUsageLocation::ListValue(t), x, l), _ => false },
        ValueReference::Object(o) => match at.ty().s_base(s) { BaseInputTypeReference::InputObject(t) => exists|i: int| #![trigger o.e()[i]] 0 <= i < o.e().len() && (match first(t.s_input_field_definitions()@, o.e()[i].0.s_()) { Some(d) => occ(s, *o.e()[i].1, VariableUsageLocation::ObjectField(&d), x, l), None => false }), _ => false },
        _ => false }
}
#[via_fn] proof fn occ_dec<'a>(s: SchemaDefinition, v: Value<false>, at: VariableUsageLocation<'a>, x: Variable, l: VariableUsageLocation<'a>) { broadcast use {vdepth_list, vdepth_obj}; }
}
pub use occmod::*;
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=VariableUsageLocation fn=input_value_definition header="impl<'a> VariableUsageLocation<'a>"
    ensures match r { Some(d) => self.dflt() == d.s_default_value(), None => self.dflt() is None }
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=VariableUsageLocation fn=r#type as=type_ header="impl<'a> VariableUsageLocation<'a>"
    ensures *r == self.ty()
//@end
impl<'a> AllVariableUsagesAllowed<'a> {
    // the variable x is used at location l under that root / the fragment is spread under that root
    pub open spec fn uses(&self, r: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>) -> bool { self.variable_usages@.contains_key(r) && self.variable_usages@[r]@.contains(VariableUsage { variable: &x, location: l }) }
    pub open spec fn refs(&self, f: FragmentDefinition, r: PathRoot<'a>) -> bool { self.fragment_references@.contains_key(f) && self.fragment_references@[f]@.contains(r) }
    pub open spec fn edge(&self) -> spec_fn(PathRoot<'a>, PathRoot<'a>) -> bool { |a: PathRoot<'a>, b: PathRoot<'a>| a is Fragment && self.refs(*a->Fragment_0, b) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=Visitor:AllVariableUsagesAllowed fn=new header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures forall|r0: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>| !(#[trigger] r.uses(r0, x, l)), forall|f: FragmentDefinition, r0: PathRoot<'a>| !(#[trigger] r.refs(f, r0)), *r.cache == *$2, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=visit_value header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures final(self).cache == old(self).cache, final(self).schema_definition == old(self).schema_definition, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>| #[trigger] final(self).uses(r, x, l) <==> old(self).uses(r, x, l) || (r == $1 && occ(*old(self).schema_definition, *$0, $2, x, l))
    decreases vdepth(*$0)
//@ loop *~ListValue
@base
invariant self.cache == old(self).cache, self.schema_definition == old(self).schema_definition, self.fragment_references == old(self).fragment_references
invariant forall|r: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>| #[trigger] self.uses(r, x, l) <==> old(self).uses(r, x, l) || (r == $1 && $2.ty().s_ref(*self.schema_definition) is List && exists|j: int| #![trigger $s[j]] 0 <= j < $k && occ(*self.schema_definition, $s[j], VariableUsageLocation::ListValue($2.ty().s_ref(*self.schema_definition)->List_0), x, l))
//@ loop *~ObjectField
@base
invariant self.cache == old(self).cache, self.schema_definition == old(self).schema_definition, self.fragment_references == old(self).fragment_references
invariant forall|r: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>| #[trigger] self.uses(r, x, l) <==> old(self).uses(r, x, l) || (r == $1 && $2.ty().s_base(*self.schema_definition) is InputObject && exists|j: int| #![trigger $s[j]] 0 <= j < $k && (match first($2.ty().s_base(*self.schema_definition)->InputObject_0.s_input_field_definitions()@, $s[j].0.s_()) { Some(d) => occ(*self.schema_definition, *$s[j].1, VariableUsageLocation::ObjectField(&d), x, l), None => false }))
//@ at start
broadcast use {vdepth_list, vdepth_obj};
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=Visitor:AllVariableUsagesAllowed fn=visit_variable_argument header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures final(self).cache == old(self).cache, final(self).schema_definition == old(self).schema_definition, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, x: Variable, l: VariableUsageLocation<'a>| #[trigger] final(self).uses(r, x, l) <==> old(self).uses(r, x, l) || (r == $2.root && occ(*old(self).schema_definition, $0.s_value(), VariableUsageLocation::Argument($1), x, l))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=Visitor:AllVariableUsagesAllowed fn=visit_fragment_spread header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures final(self).cache == old(self).cache, final(self).schema_definition == old(self).schema_definition, final(self).variable_usages == old(self).variable_usages,
        forall|f: FragmentDefinition, r: PathRoot<'a>| #[trigger] final(self).refs(f, r) <==> old(self).refs(f, r) || (r == $2.root && old(self).cache.s_fragment($0.s_name()) == Some(f))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=visit_fragment_references header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures
        old($1)@.subset_of(final($1)@),
        forall|r: PathRoot<'a>| #[trigger] self.refs(*$0, r) ==> final($1)@.contains(r),
        forall|r: PathRoot<'a>| #![trigger final($1)@.contains(r)] final($1)@.contains(r) && !old($1)@.contains(r) ==> self.vdone(final($1)@, r) && reach(self.edge(), PathRoot::Fragment($0), r),
        (forall|r: PathRoot<'a>| !(#[trigger] old($1)@.contains(r))) ==> forall|r: PathRoot<'a>| #[trigger] reach(self.edge(), PathRoot::Fragment($0), r) ==> final($1)@.contains(r)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ loop ~visit_fragment_references
@base
invariant old($1)@.subset_of($1@)
invariant forall|j: int| #![trigger $s[j]] 0 <= j < $k ==> $1@.contains(*$s[j])
invariant forall|r: PathRoot<'a>| #![trigger $1@.contains(r)] $1@.contains(r) && !old($1)@.contains(r) ==> self.vdone($1@, r) && reach(self.edge(), PathRoot::Fragment($0), r)
//@ at loop ~visit_fragment_references start
let ghost __v = $1@;
//@ at loop ~visit_fragment_references end
proof {
    let x = *$s[$k - 1]; let e = self.edge();
    assert(e(PathRoot::Fragment($0), x)); reach_edge(e, PathRoot::Fragment($0), x);
    assert(__v.subset_of($1@));
    assert forall|r: PathRoot<'a>| #![trigger $1@.contains(r)] $1@.contains(r) && !old($1)@.contains(r) implies self.vdone($1@, r) && reach(self.edge(), PathRoot::Fragment($0), r) by {
        if __v.contains(r) { assert(self.vdone(__v, r)); } else if r != x { assert(reach(e, x, r)); reach_then(e, PathRoot::Fragment($0), x, r); }
    }
}
//@ at tail
proof {
    if forall|r: PathRoot<'a>| !(#[trigger] old($1)@.contains(r)) {
        let e = self.edge(); let v = |r: PathRoot<'a>| $1@.contains(r);
        assert forall|r: PathRoot<'a>| #[trigger] reach(e, PathRoot::Fragment($0), r) implies $1@.contains(r) by {
            assert forall|x: PathRoot<'a>, y: PathRoot<'a>| v(x) && #[trigger] e(x, y) implies v(y) by { assert(self.vdone($1@, x)); if x is Fragment { assert(self.refs(*x->Fragment_0, y)); } }
            reach_inv(e, v, PathRoot::Fragment($0), r);
        }
    }
}
//@end
impl<'a> AllVariableUsagesAllowed<'a> {
    // the roots the fragment r is spread under are all in v
    pub open spec fn vdone(&self, v: Set<PathRoot<'a>>, r: PathRoot<'a>) -> bool { r is Fragment ==> forall|y: PathRoot<'a>| #[trigger] self.refs(*r->Fragment_0, y) ==> v.contains(y) }
    // the root is the operation, or a fragment that the operation spreads, directly or through other fragments
    pub open spec fn in_op(&self, r: PathRoot<'a>, o: &'a OperationDefinition) -> bool { r == PathRoot::Operation(o) || (r is Fragment && reach(self.edge(), r, PathRoot::Operation(o))) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=operation_definitions_where_fragment_used header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures forall|o: &'a OperationDefinition| #![trigger r@.contains(o)] #![trigger reach(self.edge(), PathRoot::Fragment($0), PathRoot::Operation(o))] r@.contains(o) <==> reach(self.edge(), PathRoot::Fragment($0), PathRoot::Operation(o))
//@ sig fn operation_definitions_where_fragment_used(&self, $0: &'a FragmentDefinition) -> (r: ItV<&'a OperationDefinition>)
//@ loop 0
@base
invariant forall|o: &'a OperationDefinition| #![trigger $acc@.contains(o)] $acc@.contains(o) <==> exists|j: int| #![trigger $s[j]] 0 <= j < $k && $s[j] == PathRoot::Operation(o)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=is_input_type header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures r == input_named(self.schema_definition, $0@)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=are_types_compatible header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures r == compat($0.v(), $1.v()) decreases ty_depth($0.v())
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=AllVariableUsagesAllowed fn=is_variable_usage_allowed header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures r == allowed(self.schema_definition, $0, $1.location)
//@end
// the operation defines the variable, and its definition does not allow the usage
pub open spec fn bad(s: &SchemaDefinition, o: &OperationDefinition, u: VariableUsage<'_>) -> bool { match first(o.s_variable_definitions(), u.variable.s_name()) { Some(d) => !allowed(s, &d, u.location), None => false } }
pub open spec fn bad_op<'a>(s: &SchemaDefinition, o: &OperationDefinition, q: Seq<VariableUsage<'a>>) -> bool { exists|i: int| #![trigger q[i]] 0 <= i < q.len() && bad(s, o, q[i]) }
impl<'a> AllVariableUsagesAllowed<'a> { pub open spec fn bad_root(&self, r: PathRoot<'a>, q: Seq<VariableUsage<'a>>) -> bool { exists|o: &'a OperationDefinition| #[trigger] self.in_op(r, o) && bad_op(self.schema_definition, o, q) } }
pub proof fn bad_iff<'a>(z: AllVariableUsagesAllowed<'a>)
    ensures (exists|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@)) <==> exists|p: PathRoot<'a>, o: &'a OperationDefinition, x: Variable, l: VariableUsageLocation<'a>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, x, l) && bad(z.schema_definition, o, VariableUsage { variable: &x, location: l })
{
    if exists|p: PathRoot<'a>, o: &'a OperationDefinition, x: Variable, l: VariableUsageLocation<'a>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, x, l) && bad(z.schema_definition, o, VariableUsage { variable: &x, location: l }) {
        let (p, o, x, l) = choose|p: PathRoot<'a>, o: &'a OperationDefinition, x: Variable, l: VariableUsageLocation<'a>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, x, l) && bad(z.schema_definition, o, VariableUsage { variable: &x, location: l });
        let q = z.variable_usages@[p]@; let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]) == (VariableUsage { variable: &x, location: l }); assert(bad(z.schema_definition, o, q[i])); assert(bad_op(z.schema_definition, o, z.variable_usages@[p]@)); assert(z.bad_root(p, z.variable_usages@[p]@));
        assert(z.variable_usages@.contains_key(p));
    }
    if exists|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@) {
        let p = choose|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@);
        let q = z.variable_usages@[p]@; let o = choose|o: &'a OperationDefinition| #[trigger] z.in_op(p, o) && bad_op(z.schema_definition, o, q);
        let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && bad(z.schema_definition, o, q[i]); assert(z.uses(p, *q[i].variable, q[i].location));
    }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs impl=Rule:AllVariableUsagesAllowed fn=into_errors header="impl<'a> AllVariableUsagesAllowed<'a>"
    ensures (r@.len() > 0) <==> exists|p: PathRoot<'a>, o: &'a OperationDefinition, x: Variable, l: VariableUsageLocation<'a>| #[trigger] self.in_op(p, o) && #[trigger] self.uses(p, x, l) && bad(self.schema_definition, o, VariableUsage { variable: &x, location: l })
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop ~PathRoot
@grow acc z: self.bad_root(*z.0, z.1@)
pre proof { assert(forall|p: <PathRoot<'a> as View>::V| #[trigger] self.variable_usages@.contains_key(p) ==> exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && $s[i].0@ == p); assert(forall|p: PathRoot<'a>| #[trigger] self.variable_usages@.contains_key(p) ==> exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && *$s[i].0 == p && *$s[i].1 == self.variable_usages@[p]); }
ensures ($acc@.len() > 0) <==> exists|p: PathRoot<'a>| #[trigger] self.variable_usages@.contains_key(p) && self.bad_root(p, self.variable_usages@[p]@)
//@ loop ~variable_usages !PathRoot
@grow acc z: bad_op(self.schema_definition, z, $up.1@)
pre proof { assert(forall|o: &'a OperationDefinition| #![trigger self.in_op(*$up.0, o)] #![trigger $s.contains(o)] self.in_op(*$up.0, o) <==> $s.contains(o)); }
ensures ($acc@.len() > $p.len()) <==> self.bad_root(*$up.0, $up.1@)
//@ loop ~InvalidVariableUsage !PathRoot
@grow acc z: bad(self.schema_definition, $up, z)
//@ loop ~variable_definition !InvalidVariableUsage !PathRoot
@first $up.variable.s_name()
//@ at tail
proof { bad_iff(self); }
//@end
}
} // verus!
fn main() {}
