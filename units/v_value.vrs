// P06: literal argument and default values are checked against the type of their position.
#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerce_spec.inc
//@include validator.inc
//@include coerce_ext.inc
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/value_is_valid.rs name=ValueIsValid subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/value_is_valid.rs impl=Visitor:ValueIsValid fn=new header="impl<'a> ValueIsValid<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1, r.cache == $2
//@end
//@fn src=bluejay-validator/src/executable/document/rules/value_is_valid.rs impl=Visitor:ValueIsValid fn=visit_variable_definition header="impl<'a> ValueIsValid<'a>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).cache == old(self).cache,
        grew(old(self).errors@, final(self).errors@, match ($0.s_default_value(), old(self).cache.s_input_type($0.s_type_())) { (Some(v), Some(t)) => unfit(*old(self).schema_definition, t, v, Seq::empty()), _ => false })
//@ loop *~
@grow self.errors z: true
invariant self.errors@.len() == $p.len() + $k
//@end
//@fn src=bluejay-validator/src/executable/document/rules/value_is_valid.rs impl=Visitor:ValueIsValid fn=visit_const_argument header="impl<'a> ValueIsValid<'a>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).cache == old(self).cache,
        grew(old(self).errors@, final(self).errors@, unfit(*old(self).schema_definition, $1.s_type_(), $0.s_value(), Seq::empty()))
//@ loop *~
@grow self.errors z: true
invariant self.errors@.len() == $p.len() + $k
//@end
//@fn src=bluejay-validator/src/executable/document/rules/value_is_valid.rs impl=Visitor:ValueIsValid fn=visit_variable_argument header="impl<'a> ValueIsValid<'a>"
    ensures final(self).schema_definition == old(self).schema_definition, final(self).cache == old(self).cache,
        grew(old(self).errors@, final(self).errors@, unfit(*old(self).schema_definition, $1.s_type_(), $0.s_value(), Seq::empty()))
//@ loop *~
@grow self.errors z: true
invariant self.errors@.len() == $p.len() + $k
//@end
//@fn src=bluejay-validator/src/executable/document/rules/value_is_valid.rs impl=Rule:ValueIsValid fn=into_errors header="impl<'a> ValueIsValid<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
