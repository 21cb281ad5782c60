#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@text
//@include lex_text.inc
//@include lex_block.inc
} // verus!
fn main() {}
