// P12: field existence and leaf selections.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/executable/document/rules/field_selections.rs name=FieldSelections subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/field_selections.rs impl=Visitor:FieldSelections fn=new header="impl<'a> FieldSelections<'a>"
    ensures r.errors@.len() == 0
//@end
// every selected field that the type does not define is an error
//@fn src=bluejay-validator/src/executable/document/rules/field_selections.rs impl=Visitor:FieldSelections fn=visit_selection_set header="impl<'a> FieldSelections<'a>"
    ensures grew(old(self).errors@, final(self).errors@, match $1.o_fields_definition() { Some(fd) => exists|i: int| 0 <= i < $0@.len() && (#[trigger] $0@[i]).r() is Field && !named_in(fd@, $0@[i].r()->Field_0.s_name()), None => false })
//@ loop 0
@grow self.errors z: z.r() is Field && !named_in($1.o_fields_definition()->0@, z.r()->Field_0.s_name())
//@end
//@fn src=bluejay-validator/src/executable/document/rules/field_selections.rs impl=Rule:FieldSelections fn=into_errors header="impl<'a> FieldSelections<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/leaf_field_selections.rs name=LeafFieldSelections subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/leaf_field_selections.rs impl=Visitor:LeafFieldSelections fn=new header="impl<'a> LeafFieldSelections<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
// a field of leaf type has no selection set and every other field has one
//@fn src=bluejay-validator/src/executable/document/rules/leaf_field_selections.rs impl=Visitor:LeafFieldSelections fn=visit_field header="impl<'a> LeafFieldSelections<'a>"
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, $1.s_type_().s_base(*old(self).schema_definition).s_leaf() == ($0.o_selection_set() is Some))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/leaf_field_selections.rs impl=Rule:LeafFieldSelections fn=into_errors header="impl<'a> LeafFieldSelections<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
