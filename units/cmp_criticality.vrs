// P21: the criticality of every kind of change (bluejay-schema-comparator/src/changes.rs).
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include core.inc
//@include types.inc
//@include typedefs.inc
//@include cmp_change.inc
} // verus!
fn main() {}
