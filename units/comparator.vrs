// P22: every difference between two schemas is reported, and nothing else (bluejay-schema-comparator/src/diff).
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include cmp_subst.inc
//@include cmp_diff.inc
} // verus!
fn main() {}
