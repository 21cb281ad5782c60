#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include parser_prelude.inc
//@include parser_values.inc
//@include parser_sdl.inc
} // verus!
fn main() {}
