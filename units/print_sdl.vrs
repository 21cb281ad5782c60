// P05: what the printers of type system documents write, as tokens, and that the grammar reads them back as the same definitions.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@fmt
//@include parser_prelude.inc
//@include parser_values_spec.inc
//@include parser_sdl_spec.inc
//@include print.inc
//@include print_values.inc
//@include print_sdl.inc
//@include print_schema.inc
//@include print_round.inc
//@include print_round_sdl.inc
} // verus!
fn main() {}
