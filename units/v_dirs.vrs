// P14: directives are defined, in a valid location, and unique unless repeatable.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include dups.inc
pub open spec fn definition(s: &SchemaDefinition, n: Seq<char>) -> Option<DirectiveDefinition> { first(s.s_directive_definitions(), n) }
// the directive is defined and the location is not one of its locations
pub open spec fn misplaced(s: &SchemaDefinition, n: Seq<char>, l: DirectiveLocation) -> bool { match definition(s, n) { Some(d) => !d.s_locations()@.contains(l), None => false } }
pub open spec fn unrepeatable(s: &SchemaDefinition, n: Seq<char>) -> bool { match definition(s, n) { Some(d) => !d.s_is_repeatable(), None => false } }
// a defined directive that is not repeatable occurs twice
pub open spec fn repeated<const C: bool>(s: &SchemaDefinition, d: Seq<Directive<C>>) -> bool { exists|n: Seq<char>| #[trigger] dupn(d, n) && unrepeatable(s, n) }
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs name=DirectivesAreDefined subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs impl=Visitor:DirectivesAreDefined fn=new header="impl<'a> DirectivesAreDefined<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs impl=DirectivesAreDefined fn=visit_directive header="impl<'a> DirectivesAreDefined<'a>" closures
    requires forall|x: DirectiveError<'a, CONST>| #[trigger] $1.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, definition(old(self).schema_definition, $0.s_name()) is None)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs impl=Visitor:DirectivesAreDefined fn=visit_variable_directive header="impl<'a> DirectivesAreDefined<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, definition(old(self).schema_definition, $0.s_name()) is None)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs impl=Visitor:DirectivesAreDefined fn=visit_const_directive header="impl<'a> DirectivesAreDefined<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, definition(old(self).schema_definition, $0.s_name()) is None)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_defined.rs impl=Rule:DirectivesAreDefined fn=into_errors header="impl<'a> DirectivesAreDefined<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs name=DirectivesAreInValidLocations subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs impl=Visitor:DirectivesAreInValidLocations fn=new header="impl<'a> DirectivesAreInValidLocations<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs impl=DirectivesAreInValidLocations fn=visit_directive header="impl<'a> DirectivesAreInValidLocations<'a>" closures
    requires forall|x: DirectiveError<'a, CONST>| #[trigger] $2.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, misplaced(old(self).schema_definition, $0.s_name(), $1))
//@ loop 0
@all z: z != $1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs impl=Visitor:DirectivesAreInValidLocations fn=visit_variable_directive header="impl<'a> DirectivesAreInValidLocations<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, misplaced(old(self).schema_definition, $0.s_name(), $1))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs impl=Visitor:DirectivesAreInValidLocations fn=visit_const_directive header="impl<'a> DirectivesAreInValidLocations<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, misplaced(old(self).schema_definition, $0.s_name(), $1))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_in_valid_locations.rs impl=Rule:DirectivesAreInValidLocations fn=into_errors header="impl<'a> DirectivesAreInValidLocations<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs name=DirectivesAreUniquePerLocation subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs impl=Visitor:DirectivesAreUniquePerLocation fn=new header="impl<'a> DirectivesAreUniquePerLocation<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs impl=DirectivesAreUniquePerLocation fn=visit_directives header="impl<'a> DirectivesAreUniquePerLocation<'a>" closures
    requires forall|x: DirectiveError<'a, CONST>| #[trigger] $1.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, repeated(old(self).schema_definition, $0@))
//@ subst Directive :: name ==> Directive :: < CONST > :: name
//@ loop ~build_error
@grow self.errors z: unrepeatable(old(self).schema_definition, z.0@)
invariant self.schema_definition == old(self).schema_definition
pre proof { assert forall|i: int| #![trigger $s[i]] 0 <= i < $s.len() implies dupn($0@, $s[i].0@) by { assert(haskey($s, $s[i].0@)); } }
ensures (self.errors@.len() > $p.len()) <==> repeated(old(self).schema_definition, $0@)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs impl=Visitor:DirectivesAreUniquePerLocation fn=visit_variable_directives header="impl<'a> DirectivesAreUniquePerLocation<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, repeated(old(self).schema_definition, $0@))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs impl=Visitor:DirectivesAreUniquePerLocation fn=visit_const_directives header="impl<'a> DirectivesAreUniquePerLocation<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, repeated(old(self).schema_definition, $0@))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/directives_are_unique_per_location.rs impl=Rule:DirectivesAreUniquePerLocation fn=into_errors header="impl<'a> DirectivesAreUniquePerLocation<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
