// P08: every variable used in an operation, directly or through fragments, is defined by it; every defined variable is used.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@subst Indexed < 'a , FragmentDefinition > ==> Indexed < 'a , FragmentDefinition >
//@subst std :: iter :: Once ==> ItV
//@subst std :: iter :: once ==> once
//@rtype once=iter operation_definitions_where_fragment_used=iter fragment_usages=iter
pub mod defined { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, named_push};
//@item src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs name=AllVariableUsesDefined subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
impl<'a> AllVariableUsesDefined<'a> {
    // the variable name is used under that root / the fragment is spread under that root
    pub open spec fn uses(&self, r: PathRoot<'a>, n: Seq<char>) -> bool { self.variable_usages@.contains_key(r) && named_in(self.variable_usages@[r]@, n) }
    pub open spec fn refs(&self, f: FragmentDefinition, r: PathRoot<'a>) -> bool { self.fragment_references@.contains_key(f) && self.fragment_references@[f]@.contains(r) }
    pub open spec fn edge(&self) -> spec_fn(PathRoot<'a>, PathRoot<'a>) -> bool { |a: PathRoot<'a>, b: PathRoot<'a>| a is Fragment && self.refs(*a->Fragment_0, b) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=Visitor:AllVariableUsesDefined fn=new header="impl<'a> AllVariableUsesDefined<'a>"
    ensures forall|r0: PathRoot<'a>, n: Seq<char>| !(#[trigger] r.uses(r0, n)), forall|f: FragmentDefinition, r0: PathRoot<'a>| !(#[trigger] r.refs(f, r0)), *r.cache == *$2
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=AllVariableUsesDefined fn=visit_value header="impl<'a> AllVariableUsesDefined<'a>"
    ensures final(self).cache == old(self).cache, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] final(self).uses(r, n) <==> old(self).uses(r, n) || (r == $1 && vin(*$0, n))
    decreases vdepth(*$0)
//@ loop *~visit_value
@base
invariant self.cache == old(self).cache, self.fragment_references == old(self).fragment_references
invariant forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] self.uses(r, n) <==> old(self).uses(r, n) || (r == $1 && exists|j: int| #![trigger $s[j]] 0 <= j < $k && vin($s[j].hv(), n))
//@ at start
broadcast use {vdepth_list, vdepth_obj};
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=Visitor:AllVariableUsesDefined fn=visit_variable_argument header="impl<'a> AllVariableUsesDefined<'a>"
    ensures final(self).cache == old(self).cache, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] final(self).uses(r, n) <==> old(self).uses(r, n) || (r == $2.root && vin($0.s_value(), n))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=Visitor:AllVariableUsesDefined fn=visit_fragment_spread header="impl<'a> AllVariableUsesDefined<'a>"
    ensures final(self).cache == old(self).cache, final(self).variable_usages == old(self).variable_usages,
        forall|f: FragmentDefinition, r: PathRoot<'a>| #[trigger] final(self).refs(f, r) <==> old(self).refs(f, r) || (r == $2.root && old(self).cache.s_fragment($0.s_name()) == Some(f))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=AllVariableUsesDefined fn=visit_fragment_references header="impl<'a> AllVariableUsesDefined<'a>"
    ensures
        old($1)@.subset_of(final($1)@),
        forall|r: PathRoot<'a>| #[trigger] self.refs(*$0, r) ==> final($1)@.contains(r),
        forall|r: PathRoot<'a>| #![trigger final($1)@.contains(r)] final($1)@.contains(r) && !old($1)@.contains(r) ==> self.vdone(final($1)@, r) && reach(self.edge(), PathRoot::Fragment($0), r),
        (forall|r: PathRoot<'a>| !(#[trigger] old($1)@.contains(r))) ==> forall|r: PathRoot<'a>| #[trigger] reach(self.edge(), PathRoot::Fragment($0), r) ==> final($1)@.contains(r)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ loop ~visit_fragment_references
@base
invariant old($1)@.subset_of($1@)
invariant forall|j: int| #![trigger $s[j]] 0 <= j < $k ==> $1@.contains(*$s[j])
invariant forall|r: PathRoot<'a>| #![trigger $1@.contains(r)] $1@.contains(r) && !old($1)@.contains(r) ==> self.vdone($1@, r) && reach(self.edge(), PathRoot::Fragment($0), r)
//@ at loop ~visit_fragment_references start
let ghost __v = $1@;
//@ at loop ~visit_fragment_references end
proof {
    let x = *$s[$k - 1]; let e = self.edge();
    assert(e(PathRoot::Fragment($0), x)); reach_edge(e, PathRoot::Fragment($0), x);
    assert(__v.subset_of($1@));
    assert forall|r: PathRoot<'a>| #![trigger $1@.contains(r)] $1@.contains(r) && !old($1)@.contains(r) implies self.vdone($1@, r) && reach(self.edge(), PathRoot::Fragment($0), r) by {
        if __v.contains(r) { assert(self.vdone(__v, r)); } else if r != x { assert(reach(e, x, r)); reach_then(e, PathRoot::Fragment($0), x, r); }
    }
}
//@ at tail
proof {
    if forall|r: PathRoot<'a>| !(#[trigger] old($1)@.contains(r)) {
        let e = self.edge(); let v = |r: PathRoot<'a>| $1@.contains(r);
        assert forall|r: PathRoot<'a>| #[trigger] reach(e, PathRoot::Fragment($0), r) implies $1@.contains(r) by {
            assert forall|x: PathRoot<'a>, y: PathRoot<'a>| v(x) && #[trigger] e(x, y) implies v(y) by { assert(self.vdone($1@, x)); if x is Fragment { assert(self.refs(*x->Fragment_0, y)); } }
            reach_inv(e, v, PathRoot::Fragment($0), r);
        }
    }
}
//@end
impl<'a> AllVariableUsesDefined<'a> {
    // the roots the fragment r is spread under are all in v
    pub open spec fn vdone(&self, v: Set<PathRoot<'a>>, r: PathRoot<'a>) -> bool { r is Fragment ==> forall|y: PathRoot<'a>| #[trigger] self.refs(*r->Fragment_0, y) ==> v.contains(y) }
    // the root is the operation, or a fragment that the operation spreads, directly or through other fragments
    pub open spec fn in_op(&self, r: PathRoot<'a>, o: &'a OperationDefinition) -> bool { r == PathRoot::Operation(o) || (r is Fragment && reach(self.edge(), r, PathRoot::Operation(o))) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=AllVariableUsesDefined fn=operation_definitions_where_fragment_used header="impl<'a> AllVariableUsesDefined<'a>"
    ensures forall|o: &'a OperationDefinition| #![trigger r@.contains(o)] #![trigger reach(self.edge(), PathRoot::Fragment($0), PathRoot::Operation(o))] r@.contains(o) <==> reach(self.edge(), PathRoot::Fragment($0), PathRoot::Operation(o))
//@ sig fn operation_definitions_where_fragment_used(&self, $0: &'a FragmentDefinition) -> (r: ItV<&'a OperationDefinition>)
//@ loop 0
@base
invariant forall|o: &'a OperationDefinition| #![trigger $acc@.contains(o)] $acc@.contains(o) <==> exists|j: int| #![trigger $s[j]] 0 <= j < $k && $s[j] == PathRoot::Operation(o)
//@end
// o does not define a variable of that name
pub open spec fn undef(o: &OperationDefinition, n: Seq<char>) -> bool { !named_in(o.s_variable_definitions(), n) }
pub open spec fn bad_op(o: &OperationDefinition, q: Seq<&Variable>) -> bool { exists|i: int| #![trigger q[i]] 0 <= i < q.len() && undef(o, q[i].s_name()) }
impl<'a> AllVariableUsesDefined<'a> { pub open spec fn bad_root(&self, r: PathRoot<'a>, q: Seq<&Variable>) -> bool { exists|o: &'a OperationDefinition| #[trigger] self.in_op(r, o) && bad_op(o, q) } }
pub proof fn bad_iff<'a>(z: AllVariableUsesDefined<'a>)
    ensures (exists|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@)) <==> exists|p: PathRoot<'a>, o: &'a OperationDefinition, n: Seq<char>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, n) && undef(o, n)
{
    if exists|p: PathRoot<'a>, o: &'a OperationDefinition, n: Seq<char>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, n) && undef(o, n) {
        let (p, o, n) = choose|p: PathRoot<'a>, o: &'a OperationDefinition, n: Seq<char>| #[trigger] z.in_op(p, o) && #[trigger] z.uses(p, n) && undef(o, n);
        let q = z.variable_usages@[p]@; let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).nm() == n; assert(undef(o, q[i].s_name())); assert(bad_op(o, z.variable_usages@[p]@)); assert(z.bad_root(p, z.variable_usages@[p]@));
        assert(z.variable_usages@.contains_key(p));
    }
    if exists|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@) {
        let p = choose|p: PathRoot<'a>| #[trigger] z.variable_usages@.contains_key(p) && z.bad_root(p, z.variable_usages@[p]@);
        let q = z.variable_usages@[p]@; let o = choose|o: &'a OperationDefinition| #[trigger] z.in_op(p, o) && bad_op(o, q);
        let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && undef(o, q[i].s_name()); assert(q[i].nm() == q[i].s_name()); assert(z.uses(p, q[i].s_name()));
    }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variable_uses_defined.rs impl=Rule:AllVariableUsesDefined fn=into_errors header="impl<'a> AllVariableUsesDefined<'a>"
    ensures (r@.len() > 0) <==> exists|p: PathRoot<'a>, o: &'a OperationDefinition, n: Seq<char>| #[trigger] self.in_op(p, o) && #[trigger] self.uses(p, n) && undef(o, n)
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop ~PathRoot
@grow acc z: self.bad_root(*z.0, z.1@)
pre proof { assert(forall|p: <PathRoot<'a> as View>::V| #[trigger] self.variable_usages@.contains_key(p) ==> exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && $s[i].0@ == p); assert(forall|p: PathRoot<'a>| #[trigger] self.variable_usages@.contains_key(p) ==> exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && *$s[i].0 == p && *$s[i].1 == self.variable_usages@[p]); }
ensures ($acc@.len() > 0) <==> exists|p: PathRoot<'a>| #[trigger] self.variable_usages@.contains_key(p) && self.bad_root(p, self.variable_usages@[p]@)
//@ loop ~variables !PathRoot
@grow acc z: bad_op(z, $up.1@)
pre proof { assert(forall|o: &'a OperationDefinition| #![trigger self.in_op(*$up.0, o)] #![trigger $s.contains(o)] self.in_op(*$up.0, o) <==> $s.contains(o)); }
ensures ($acc@.len() > $p.len()) <==> self.bad_root(*$up.0, $up.1@)
//@ loop ~VariableNotDefined !PathRoot
@grow acc z: undef($up, z.s_name())
//@ loop ~variable_definition
@all z: z.s_variable() != $up.s_name()
//@ at tail
proof { bad_iff(self); }
//@end
}
pub mod used { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/all_variables_used.rs name=AllVariablesUsed subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
impl<'a> AllVariablesUsed<'a> {
    pub open spec fn uses(&self, r: PathRoot<'a>, n: Seq<char>) -> bool { self.variable_usages@.contains_key(r) && self.variable_usages@[r]@.contains(n) }
    pub open spec fn refs(&self, r: PathRoot<'a>, f: FragmentDefinition) -> bool { self.fragment_references@.contains_key(r) && self.fragment_references@[r]@.contains(f) }
    pub open spec fn edge(&self) -> spec_fn(PathRoot<'a>, PathRoot<'a>) -> bool { |a: PathRoot<'a>, b: PathRoot<'a>| b is Fragment && self.refs(a, *b->Fragment_0) }
    // the fragments spread under r are all in v
    pub open spec fn vdone(&self, v: Set<FragmentDefinition>, r: PathRoot<'a>) -> bool { forall|y: FragmentDefinition| #[trigger] self.refs(r, y) ==> v.contains(y) }
    // the variable name is used by the operation, directly or through fragments
    #[verifier::opaque] pub open spec fn op_uses(&self, o: &'a OperationDefinition, n: Seq<char>) -> bool { self.uses(PathRoot::Operation(o), n) || exists|f: &'a FragmentDefinition| #[trigger] reach(self.edge(), PathRoot::Operation(o), PathRoot::Fragment(f)) && self.uses(PathRoot::Fragment(f), n) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=Visitor:AllVariablesUsed fn=new header="impl<'a> AllVariablesUsed<'a>"
    ensures forall|r0: PathRoot<'a>, n: Seq<char>| !(#[trigger] r.uses(r0, n)), forall|f: FragmentDefinition, r0: PathRoot<'a>| !(#[trigger] r.refs(r0, f)), *r.cache == *$2, *r.executable_document == *$0
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=AllVariablesUsed fn=visit_value header="impl<'a> AllVariablesUsed<'a>"
    ensures final(self).cache == old(self).cache, final(self).executable_document == old(self).executable_document, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] final(self).uses(r, n) <==> old(self).uses(r, n) || (r == $1 && vin(*$0, n))
    decreases vdepth(*$0)
//@ loop *~visit_value
@base
invariant self.cache == old(self).cache, self.executable_document == old(self).executable_document, self.fragment_references == old(self).fragment_references
invariant forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] self.uses(r, n) <==> old(self).uses(r, n) || (r == $1 && exists|j: int| #![trigger $s[j]] 0 <= j < $k && vin($s[j].hv(), n))
//@ at start
broadcast use {vdepth_list, vdepth_obj};
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=Visitor:AllVariablesUsed fn=visit_variable_argument header="impl<'a> AllVariablesUsed<'a>"
    ensures final(self).cache == old(self).cache, final(self).executable_document == old(self).executable_document, final(self).fragment_references == old(self).fragment_references,
        forall|r: PathRoot<'a>, n: Seq<char>| #[trigger] final(self).uses(r, n) <==> old(self).uses(r, n) || (r == $2.root && vin($0.s_value(), n))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=Visitor:AllVariablesUsed fn=visit_fragment_spread header="impl<'a> AllVariablesUsed<'a>"
    ensures final(self).cache == old(self).cache, final(self).executable_document == old(self).executable_document, final(self).variable_usages == old(self).variable_usages,
        forall|f: FragmentDefinition, r: PathRoot<'a>| #[trigger] final(self).refs(r, f) <==> old(self).refs(r, f) || (r == $2.root && old(self).cache.s_fragment($0.s_name()) == Some(f))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=AllVariablesUsed fn=visit_fragment_references header="impl<'a> AllVariablesUsed<'a>"
    ensures
        old($1)@.subset_of(final($1)@),
        self.vdone(final($1)@, *$0),
        forall|f: FragmentDefinition| #![trigger final($1)@.contains(f)] final($1)@.contains(f) && !old($1)@.contains(f) ==> self.vdone(final($1)@, PathRoot::Fragment(&f)) && reach(self.edge(), *$0, PathRoot::Fragment(&f)),
        (forall|f: FragmentDefinition| !(#[trigger] old($1)@.contains(f))) ==> forall|f: FragmentDefinition| #[trigger] reach(self.edge(), *$0, PathRoot::Fragment(&f)) ==> final($1)@.contains(f)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ loop ~visit_fragment_references
@base
invariant old($1)@.subset_of($1@)
invariant forall|j: int| #![trigger $s[j]] 0 <= j < $k ==> $1@.contains(*$s[j].0)
pre proof { assert forall|f: FragmentDefinition| #[trigger] self.refs(*$0, f) implies exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && *$s[i].0 == f by { scov($s, self.fragment_references@[*$0]@, f); } }
ensures self.vdone($1@, *$0)
invariant forall|f: FragmentDefinition| #![trigger $1@.contains(f)] $1@.contains(f) && !old($1)@.contains(f) ==> self.vdone($1@, PathRoot::Fragment(&f)) && reach(self.edge(), *$0, PathRoot::Fragment(&f))
//@ at loop ~visit_fragment_references start
let ghost __v = $1@;
//@ at loop ~visit_fragment_references end
proof {
    let x = *$s[$k - 1].0; let e = self.edge();
    assert(e(*$0, PathRoot::Fragment(&x))); reach_edge(e, *$0, PathRoot::Fragment(&x));
    assert(__v.subset_of($1@));
    assert forall|f: FragmentDefinition| #![trigger $1@.contains(f)] $1@.contains(f) && !old($1)@.contains(f) implies self.vdone($1@, PathRoot::Fragment(&f)) && reach(self.edge(), *$0, PathRoot::Fragment(&f)) by {
        if __v.contains(f) { assert(self.vdone(__v, PathRoot::Fragment(&f))); } else if f != x { assert(reach(e, PathRoot::Fragment(&x), PathRoot::Fragment(&f))); reach_then(e, *$0, PathRoot::Fragment(&x), PathRoot::Fragment(&f)); }
    }
}
//@ at tail
proof {
    assert(self.vdone($1@, *$0));
    if forall|f: FragmentDefinition| !(#[trigger] old($1)@.contains(f)) { closed(self, *$0, $1@); }
}
//@end
pub proof fn closed<'a>(z: &AllVariablesUsed<'a>, r: PathRoot<'a>, v: Set<FragmentDefinition>)
    requires z.vdone(v, r), forall|f: FragmentDefinition| #![trigger v.contains(f)] v.contains(f) ==> z.vdone(v, PathRoot::Fragment(&f))
    ensures forall|f: FragmentDefinition| #[trigger] reach(z.edge(), r, PathRoot::Fragment(&f)) ==> v.contains(f)
{
    let e = z.edge(); let p = |r: PathRoot<'a>| r is Fragment && v.contains(*r->Fragment_0);
    assert forall|f: FragmentDefinition| #[trigger] reach(e, r, PathRoot::Fragment(&f)) implies v.contains(f) by {
        assert forall|x: PathRoot<'a>, y: PathRoot<'a>| p(x) && #[trigger] e(x, y) implies p(y) by { assert(z.vdone(v, PathRoot::Fragment(x->Fragment_0))); assert(z.refs(x, *y->Fragment_0)); }
        assert forall|y: PathRoot<'a>| #[trigger] e(r, y) implies p(y) by { assert(z.refs(r, *y->Fragment_0)); }
        reach_inv(e, p, r, PathRoot::Fragment(&f));
    }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=AllVariablesUsed fn=fragment_usages header="impl<'a> AllVariablesUsed<'a>"
    ensures forall|f: &'a FragmentDefinition| #![trigger r@.contains(f)] #![trigger reach(self.edge(), PathRoot::Operation($0), PathRoot::Fragment(f))] r@.contains(f) <==> reach(self.edge(), PathRoot::Operation($0), PathRoot::Fragment(f))
//@ sig fn fragment_usages(&self, $0: &'a OperationDefinition) -> (r: ItV<&'a FragmentDefinition>)
//@ loop 0
@push acc z: true =>> z.0
//@end
impl<'a> AllVariablesUsed<'a> {
    #[verifier::opaque] pub open spec fn unused_in(&self, o: &'a OperationDefinition, q: Seq<VariableDefinition>) -> bool { exists|i: int| #![trigger q[i]] 0 <= i < q.len() && !self.op_uses(o, q[i].s_variable()) }
    pub open spec fn unused_var(&self, o: &'a OperationDefinition) -> bool { self.unused_in(o, o.s_variable_definitions()) }
}
//@fn src=bluejay-validator/src/executable/document/rules/all_variables_used.rs impl=Rule:AllVariablesUsed fn=into_errors header="impl<'a> AllVariablesUsed<'a>"
    ensures (r@.len() > 0) <==> exists|i: int| #![trigger self.executable_document.s_operation_definitions()[i]] 0 <= i < self.executable_document.s_operation_definitions().len() && self.unused_var(&self.executable_document.s_operation_definitions()[i])
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ at start
proof { assert(forall|o: &'a OperationDefinition, q: Seq<VariableDefinition>| q.len() == 0 ==> !#[trigger] self.unused_in(o, q)) by { reveal(AllVariablesUsed::unused_in); } }
//@ loop 0
@grow acc z: self.unused_var(&z)
//@ loop ~PathRoot get
@base
invariant forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> exists|j: int| #![trigger $s[j]] 0 <= j < $k && self.uses(PathRoot::Fragment($s[j]), n)
ensures forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> exists|f: &'a FragmentDefinition| #[trigger] reach(self.edge(), PathRoot::Operation(&$up), PathRoot::Fragment(f)) && self.uses(PathRoot::Fragment(f), n)
//@ loop ~get !PathRoot
@base
pre let ghost __q = $acc@; proof { reveal(AllVariablesUsed::op_uses); }
invariant forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> __q.contains(n) || exists|j: int| #![trigger $s[j]] 0 <= j < $k && self.uses($s[j], n)
ensures forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> self.op_uses(&$up, n)
//@ loop *~into_it
@base
pre let ghost __q2 = $acc@;
invariant forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> __q2.contains(n) || exists|j: int| #![trigger $s[j]] 0 <= j < $k && $s[j]@.contains(n)
ensures forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> __q2.contains(n) || ($s.len() > 0 && $s[0]@.contains(n))
//@ loop *~__ins
@push acc z: true =>> z@
pre proof { assert forall|n: Seq<char>| #[trigger] $up@.contains(n) implies exists|i: int| #![trigger $s[i]] 0 <= i < $s.len() && $s[i]@ == n by { scov($s, $up@, n); } }
ensures forall|n: Seq<char>| #![trigger $acc@.contains(n)] $acc@.contains(n) <==> $p.contains(n) || $up@.contains(n)
//@ loop ~VariableDefinitionUnused
@grow acc z: !self.op_uses(&$up2, z.s_variable())
ensures ($acc@.len() > $p.len()) <==> self.unused_in(&$up2, $s)
pre proof { reveal(AllVariablesUsed::unused_in); }
//@ loop *~variable_definitions
@grow acc z: self.unused_in(&$up, z@)
pre proof { if $s.len() > 0 { assert($s[0]@ == $up.s_variable_definitions()); assert($s.len() == 1); } }
ensures ($acc@.len() > $p.len()) <==> self.unused_var(&$up)
//@end
}
} // verus!
fn main() {}
