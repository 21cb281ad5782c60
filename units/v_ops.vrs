// P15: names of operations and fragments, operation types, subscription roots, unused fragments.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/named_operation_name_uniqueness.rs name=NamedOperationNameUniqueness subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/named_operation_name_uniqueness.rs impl=Visitor:NamedOperationNameUniqueness fn=new header="impl<'a> NamedOperationNameUniqueness<'a>"
    ensures idx(r.operations@, Seq::<ExplicitOperationDefinition>::empty())
//@end
// the map indexes the named operations visited so far
//@fn src=bluejay-validator/src/executable/document/rules/named_operation_name_uniqueness.rs impl=Visitor:NamedOperationNameUniqueness fn=visit_operation_definition header="impl<'a> NamedOperationNameUniqueness<'a>"
    ensures forall|s: Seq<ExplicitOperationDefinition>| #![trigger idx(old(self).operations@, s)] idx(old(self).operations@, s) ==> idx(final(self).operations@, if $0.r() is Explicit && $0.r()->Explicit_0.s_name() is Some { s.push(*$0.r()->Explicit_0) } else { s })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/named_operation_name_uniqueness.rs impl=Rule:NamedOperationNameUniqueness fn=into_errors header="impl<'a> NamedOperationNameUniqueness<'a>"
    ensures forall|s: Seq<ExplicitOperationDefinition>| #[trigger] idx(self.operations@, s) ==> ((r@.len() > 0) <==> dup(s))
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop 0
@grow acc z: z.1@.len() > 1
//@end
//@item src=bluejay-validator/src/executable/document/rules/fragment_name_uniqueness.rs name=FragmentNameUniqueness subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragment_name_uniqueness.rs impl=Visitor:FragmentNameUniqueness fn=new header="impl<'a> FragmentNameUniqueness<'a>"
    ensures idx(r.fragment_definitions@, Seq::<FragmentDefinition>::empty())
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_name_uniqueness.rs impl=Visitor:FragmentNameUniqueness fn=visit_fragment_definition header="impl<'a> FragmentNameUniqueness<'a>"
    ensures forall|s: Seq<FragmentDefinition>| #![trigger idx(old(self).fragment_definitions@, s)] idx(old(self).fragment_definitions@, s) ==> idx(final(self).fragment_definitions@, s.push(*$0))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_name_uniqueness.rs impl=Rule:FragmentNameUniqueness fn=into_errors header="impl<'a> FragmentNameUniqueness<'a>"
    ensures forall|s: Seq<FragmentDefinition>| #[trigger] idx(self.fragment_definitions@, s) ==> ((r@.len() > 0) <==> dup(s))
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop 0
@grow acc z: z.1@.len() > 1
//@end
//@item src=bluejay-validator/src/executable/document/rules/fragments_must_be_used.rs name=FragmentsMustBeUsed subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragments_must_be_used.rs impl=Visitor:FragmentsMustBeUsed fn=new header="impl<'a> FragmentsMustBeUsed<'a>"
    ensures forall|n: Seq<char>| #[trigger] r.unused_fragment_definitions@.contains_key(n) <==> named_in($0.s_fragment_definitions(), n)
//@ loop 0
@pushd acc z: true =>> z.s_name()
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragments_must_be_used.rs impl=Visitor:FragmentsMustBeUsed fn=visit_fragment_spread header="impl<'a> FragmentsMustBeUsed<'a>"
    ensures final(self).unused_fragment_definitions@ == old(self).unused_fragment_definitions@.remove($0.s_name())
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragments_must_be_used.rs impl=Rule:FragmentsMustBeUsed fn=into_errors header="impl<'a> FragmentsMustBeUsed<'a>"
    ensures (r@.len() > 0) <==> exists|n: Seq<char>| #[trigger] self.unused_fragment_definitions@.contains_key(n)
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop 0
@base
invariant $acc@.len() == $k
//@end
//@item src=bluejay-validator/src/executable/document/rules/lone_anonymous_operation.rs name=LoneAnonymousOperation subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/lone_anonymous_operation.rs impl=Visitor:LoneAnonymousOperation fn=new header="impl<'a> LoneAnonymousOperation<'a>"
    ensures r.anonymous_operations@.len() == 0, *r.executable_document == *$0
//@end
//@fn src=bluejay-validator/src/executable/document/rules/lone_anonymous_operation.rs impl=Visitor:LoneAnonymousOperation fn=visit_operation_definition header="impl<'a> LoneAnonymousOperation<'a>"
    ensures final(self).executable_document == old(self).executable_document,
        grew(old(self).anonymous_operations@, final(self).anonymous_operations@, $0.s_name() is None)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/lone_anonymous_operation.rs impl=Rule:LoneAnonymousOperation fn=into_errors header="impl<'a> LoneAnonymousOperation<'a>"
    ensures (r@.len() > 0) <==> (self.anonymous_operations@.len() > 0 && self.executable_document.s_operation_definitions().len() != 1)
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop 0
@base
invariant $acc == $k
//@end
//@item src=bluejay-validator/src/executable/document/rules/operation_type_is_defined.rs name=OperationTypeIsDefined subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/operation_type_is_defined.rs impl=Visitor:OperationTypeIsDefined fn=new header="impl<'a> OperationTypeIsDefined<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/operation_type_is_defined.rs impl=Visitor:OperationTypeIsDefined fn=visit_operation_definition header="impl<'a> OperationTypeIsDefined<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match $0.s_operation_type() { OperationType::Query => false, OperationType::Mutation => old(self).schema_definition.s_mutation() is None, OperationType::Subscription => old(self).schema_definition.s_subscription() is None })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/operation_type_is_defined.rs impl=Rule:OperationTypeIsDefined fn=into_errors header="impl<'a> OperationTypeIsDefined<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs name=SubscriptionOperationSingleRootField subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs impl=Visitor:SubscriptionOperationSingleRootField fn=new header="impl<'a> SubscriptionOperationSingleRootField<'a>"
    ensures r.invalid_operation_definitions@.len() == 0, *r.executable_document == *$0
//@end
// fragment f is done: its root response names are collected, the fragments it spreads are visited
pub open spec fn fdone(d: ExecutableDocument, rn: Set<Seq<char>>, vf: Set<Seq<char>>, f: Seq<char>) -> bool {
    frag(d, f) is Some ==> sdone(d, rn, vf, frag(d, f)->0.s_selection_set())
}
pub open spec fn sdone(d: ExecutableDocument, rn: Set<Seq<char>>, vf: Set<Seq<char>>, s: List<Selection>) -> bool {
    (forall|n: Seq<char>| #[trigger] root_field(s, n) ==> rn.contains(n)) && (forall|g: Seq<char>| #[trigger] root_spread(s, g) ==> vf.contains(g))
}
pub proof fn all_names(d: ExecutableDocument, s: List<Selection>, rn: Set<Seq<char>>, vf: Set<Seq<char>>)
    requires sdone(d, rn, vf, s), forall|f: Seq<char>| #[trigger] vf.contains(f) ==> fdone(d, rn, vf, f)
    ensures forall|n: Seq<char>| #[trigger] response_name_of(d, s, n) ==> rn.contains(n)
{
    reveal(response_name_of);
    assert forall|g: Seq<char>| #[trigger] spread_reach(d, s, g) implies vf.contains(g) by {
        if root_spread(s, g) { } else {
            let f = choose|f: Seq<char>| root_spread(s, f) && #[trigger] reach(root_edge(d), f, g);
            let e = root_edge(d);
            assert(vf.contains(f));
            assert forall|y: Seq<char>| e(f, y) implies #[trigger] vf.contains(y) by { assert(fdone(d, rn, vf, f)); }
            assert forall|x: Seq<char>, y: Seq<char>| vf.contains(x) && #[trigger] e(x, y) implies vf.contains(y) by { assert(fdone(d, rn, vf, x)); }
            reach_closed(e, vf, f, g);
        }
    }
    assert forall|n: Seq<char>| #[trigger] response_name_of(d, s, n) implies rn.contains(n) by {
        if !root_field(s, n) { let g = choose|g: Seq<char>| #[trigger] spread_reach(d, s, g) && frag(d, g) is Some && root_field(frag(d, g)->0.s_selection_set(), n); assert(vf.contains(g)); assert(fdone(d, rn, vf, g)); }
    }
}
pub open spec fn selname(s: Selection, n: Seq<char>) -> bool { match s.r() { SelectionReference::Field(f) => f.s_response_name() == n, SelectionReference::InlineFragment(f) => root_field(f.s_selection_set(), n), _ => false } }
pub open spec fn selspread(s: Selection, n: Seq<char>) -> bool { match s.r() { SelectionReference::FragmentSpread(f) => f.s_name() == n, SelectionReference::InlineFragment(f) => root_spread(f.s_selection_set(), n), _ => false } }
//@fn src=bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs impl=SubscriptionOperationSingleRootField fn=collect_response_names header="impl<'a> SubscriptionOperationSingleRootField<'a>"
    ensures
        old($1)@.subset_of(final($1)@), old($2)@.subset_of(final($2)@),
        sdone(*self.executable_document, final($1)@, final($2)@, *$0),
        forall|f: Seq<char>| #![trigger final($2)@.contains(f)] final($2)@.contains(f) && !old($2)@.contains(f) ==> fdone(*self.executable_document, final($1)@, final($2)@, f) && spread_reach(*self.executable_document, *$0, f),
        forall|n: Seq<char>| #![trigger final($1)@.contains(n)] final($1)@.contains(n) && !old($1)@.contains(n) ==> response_name_of(*self.executable_document, *$0, n),
        (forall|f: Seq<char>| !(#[trigger] old($2)@.contains(f))) ==> forall|n: Seq<char>| #[trigger] response_name_of(*self.executable_document, *$0, n) ==> final($1)@.contains(n)
//@ loop ~as_ref
@base
invariant old($1)@.subset_of($1@), old($2)@.subset_of($2@)
invariant forall|n: Seq<char>, i: int| #![trigger selname($s[i], n)] 0 <= i < $k && selname($s[i], n) ==> $1@.contains(n)
invariant forall|g: Seq<char>, i: int| #![trigger selspread($s[i], g)] 0 <= i < $k && selspread($s[i], g) ==> $2@.contains(g)
invariant forall|f: Seq<char>| #![trigger $2@.contains(f)] $2@.contains(f) && !old($2)@.contains(f) ==> fdone(*self.executable_document, $1@, $2@, f) && spread_reach(*self.executable_document, *$0, f)
invariant forall|n: Seq<char>| #![trigger $1@.contains(n)] $1@.contains(n) && !old($1)@.contains(n) ==> response_name_of(*self.executable_document, *$0, n)
//@ at loop ~as_ref start
let ghost __rn = $1@; let ghost __vf = $2@; let ghost __d = *self.executable_document;
//@ at loop ~as_ref end
proof {
    let x = $s[$k - 1];
    if x.r() is InlineFragment { lift_inline(__d, *$0, $k - 1, x.r()->InlineFragment_0.s_selection_set()); }
    if x.r() is FragmentSpread { lift_spread(__d, *$0, $k - 1, x.r()->FragmentSpread_0.s_name()); }
    if x.r() is Field { assert(root_field(*$0, x.r()->Field_0.s_response_name())); }
}
proof {
    assert forall|n: Seq<char>| #![trigger $1@.contains(n)] $1@.contains(n) && !old($1)@.contains(n) implies response_name_of(__d, *$0, n) by { reveal(response_name_of); }
    assert(__rn.subset_of($1@) && __vf.subset_of($2@));
    assert forall|f: Seq<char>| #![trigger $2@.contains(f)] $2@.contains(f) && !old($2)@.contains(f) implies fdone(__d, $1@, $2@, f) && spread_reach(__d, *$0, f) by { if __vf.contains(f) { assert(fdone(__d, __rn, __vf, f)); } }
}
//@ loop ~name !as_ref
@first $up.r()->FragmentSpread_0.s_name()
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at tail
proof {
    assert forall|n: Seq<char>| #[trigger] root_field(*$0, n) implies $1@.contains(n) by { let i = choose|i: int| 0 <= i < $0@.len() && selname(#[trigger] $0@[i], n); assert(selname($0@[i], n)); }
    assert forall|n: Seq<char>| #[trigger] root_spread(*$0, n) implies $2@.contains(n) by { let i = choose|i: int| 0 <= i < $0@.len() && selspread(#[trigger] $0@[i], n); assert(selspread($0@[i], n)); }
    if forall|f: Seq<char>| !(#[trigger] old($2)@.contains(f)) { all_names(*self.executable_document, *$0, $1@, $2@); }
}
//@ at start
proof { reveal(response_name_of); }
//@end
// more than one response name at the root of the operation
pub open spec fn many_roots(d: ExecutableDocument, s: List<Selection>) -> bool { exists|a: Seq<char>, b: Seq<char>| a != b && #[trigger] response_name_of(d, s, a) && #[trigger] response_name_of(d, s, b) }
//@fn src=bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs impl=Visitor:SubscriptionOperationSingleRootField fn=visit_operation_definition header="impl<'a> SubscriptionOperationSingleRootField<'a>"
    ensures final(self).executable_document == old(self).executable_document,
        grew(old(self).invalid_operation_definitions@, final(self).invalid_operation_definitions@, $0.s_operation_type() is Subscription && many_roots(*old(self).executable_document, $0.s_selection_set()))
//@ at start
broadcast use two_members;
//@end
//@fn src=bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs impl=Rule:SubscriptionOperationSingleRootField fn=into_errors header="impl<'a> SubscriptionOperationSingleRootField<'a>"
    ensures r@.len() == self.invalid_operation_definitions@.len()
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@ loop 0
@base
invariant $acc@.len() == $k
//@end
}
} // verus!
fn main() {}
