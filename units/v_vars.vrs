// P08: variables are unique, of input type, defined and used.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@include dups.inc
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/variable_uniqueness.rs name=VariableUniqueness subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/variable_uniqueness.rs impl=Visitor:VariableUniqueness fn=new header="impl<'a> VariableUniqueness<'a>"
    ensures r.errors@.len() == 0
//@end
//@fn src=bluejay-validator/src/executable/document/rules/variable_uniqueness.rs impl=Visitor:VariableUniqueness fn=visit_variable_definitions header="impl<'a> VariableUniqueness<'a>"
    ensures grew(old(self).errors@, final(self).errors@, dup($0@))
//@ loop 0
@grow self.errors z: true
//@end
//@fn src=bluejay-validator/src/executable/document/rules/variable_uniqueness.rs impl=Rule:VariableUniqueness fn=into_errors header="impl<'a> VariableUniqueness<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/variables_are_input_types.rs name=VariablesAreInputTypes subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/variables_are_input_types.rs impl=Visitor:VariablesAreInputTypes fn=new header="impl<'a> VariablesAreInputTypes<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/variables_are_input_types.rs impl=Visitor:VariablesAreInputTypes fn=visit_variable_definition header="impl<'a> VariablesAreInputTypes<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, !(match first(old(self).schema_definition.s_type_definitions(), ty_base($0.s_type_().v())) { Some(t) => t.s_is_input(), None => false }))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/variables_are_input_types.rs impl=Rule:VariablesAreInputTypes fn=into_errors header="impl<'a> VariablesAreInputTypes<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
