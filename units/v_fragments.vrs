// P10: fragment spreads fit the type they are applied to.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
// the names of the object types a value of type t can have; None for types that have no fields
pub open spec fn possible<'a>(s: SchemaDefinition, t: TypeDefinitionReference<'a>, n: Seq<char>) -> bool {
    match t {
        TypeDefinitionReference::Object(o) => n == o.s_name(),
        TypeDefinitionReference::Interface(i) => named_in(s.s_implementors(*i), n),
        TypeDefinitionReference::Union(u) => named_in(u.s_union_member_types()@, n),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn impossible<'a>(s: SchemaDefinition, p: TypeDefinitionReference<'a>, f: TypeDefinitionReference<'a>) -> bool {
    p.s_is_composite() && f.s_is_composite() && forall|n: Seq<char>| !(#[trigger] possible(s, p, n) && possible(s, f, n))
}
//@item src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs name=FragmentSpreadIsPossible subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=Visitor:FragmentSpreadIsPossible fn=new header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1, *r.cache == *$2
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=FragmentSpreadIsPossible fn=get_possible_types header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures r is Some <==> $0.s_is_composite(), r is Some ==> forall|n: Seq<char>| #![trigger r->0@.contains(n)] #![trigger possible(*self.schema_definition, $0, n)] r->0@.contains(n) <==> possible(*self.schema_definition, $0, n)
//@ loop *~name
@push acc z: true =>> z.nm()
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=FragmentSpreadIsPossible fn=spread_is_not_possible header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures r == impossible(*self.schema_definition, $0, $1)
//@ at start
proof { reveal(impossible); }
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=Visitor:FragmentSpreadIsPossible fn=visit_fragment_spread header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).cache == old(self).cache,
        grew(old(self).errors@, final(self).errors@, match old(self).cache.s_fragment($0.s_name()) { Some(fd) => match first(old(self).schema_definition.s_type_definitions(), fd.s_type_condition()) { Some(t) => impossible(*old(self).schema_definition, $1, t), None => false }, None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=Visitor:FragmentSpreadIsPossible fn=visit_inline_fragment header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).cache == old(self).cache,
        grew(old(self).errors@, final(self).errors@, match $0.s_type_condition() { Some(n) => match first(old(self).schema_definition.s_type_definitions(), n) { Some(t) => impossible(*old(self).schema_definition, $1, t), None => false }, None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_is_possible.rs impl=Rule:FragmentSpreadIsPossible fn=into_errors header="impl<'a> FragmentSpreadIsPossible<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/fragment_spread_type_exists.rs name=FragmentSpreadTypeExists subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_type_exists.rs impl=Visitor:FragmentSpreadTypeExists fn=new header="impl<'a> FragmentSpreadTypeExists<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_type_exists.rs impl=Visitor:FragmentSpreadTypeExists fn=visit_fragment_definition header="impl<'a> FragmentSpreadTypeExists<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, !named_in(old(self).schema_definition.s_type_definitions(), $0.s_type_condition()))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_type_exists.rs impl=Visitor:FragmentSpreadTypeExists fn=visit_inline_fragment header="impl<'a> FragmentSpreadTypeExists<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, $0.s_type_condition() is Some && !named_in(old(self).schema_definition.s_type_definitions(), $0.s_type_condition()->0))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_type_exists.rs impl=Rule:FragmentSpreadTypeExists fn=into_errors header="impl<'a> FragmentSpreadTypeExists<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
pub open spec fn not_composite<'a>(s: &'a SchemaDefinition, n: Seq<char>) -> bool { match first(s.s_type_definitions(), n) { Some(t) => !t.s_is_composite(), None => false } }
//@item src=bluejay-validator/src/executable/document/rules/fragments_on_composite_types.rs name=FragmentsOnCompositeTypes subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragments_on_composite_types.rs impl=Visitor:FragmentsOnCompositeTypes fn=new header="impl<'a> FragmentsOnCompositeTypes<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragments_on_composite_types.rs impl=Visitor:FragmentsOnCompositeTypes fn=visit_fragment_definition header="impl<'a> FragmentsOnCompositeTypes<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, not_composite(old(self).schema_definition, $0.s_type_condition()))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragments_on_composite_types.rs impl=Visitor:FragmentsOnCompositeTypes fn=visit_inline_fragment header="impl<'a> FragmentsOnCompositeTypes<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, $0.s_type_condition() is Some && not_composite(old(self).schema_definition, $0.s_type_condition()->0))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragments_on_composite_types.rs impl=Rule:FragmentsOnCompositeTypes fn=into_errors header="impl<'a> FragmentsOnCompositeTypes<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/fragment_spread_target_defined.rs name=FragmentSpreadTargetDefined subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_target_defined.rs impl=Visitor:FragmentSpreadTargetDefined fn=new header="impl<'a> FragmentSpreadTargetDefined<'a>"
    ensures r.errors@.len() == 0, forall|n: Seq<char>| #[trigger] r.fragment_definition_names@.contains(n) <==> named_in($0.s_fragment_definitions(), n)
//@ loop 0
@push acc z: true =>> z.s_name()
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_target_defined.rs impl=Visitor:FragmentSpreadTargetDefined fn=visit_fragment_spread header="impl<'a> FragmentSpreadTargetDefined<'a>"
    ensures final(self).fragment_definition_names == old(self).fragment_definition_names,
        grew(old(self).errors@, final(self).errors@, !old(self).fragment_definition_names@.contains($0.s_name()))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spread_target_defined.rs impl=Rule:FragmentSpreadTargetDefined fn=into_errors header="impl<'a> FragmentSpreadTargetDefined<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
