// P04: what the printers of executable documents write, as tokens, and that the grammar reads them back as the same document.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@fmt
//@include parser_prelude.inc
//@include parser_values_spec.inc
//@include parser_exec_spec.inc
//@include print.inc
//@include print_values.inc
//@include print_exec.inc
//@include print_round.inc
//@include print_round_exec.inc
} // verus!
fn main() {}
