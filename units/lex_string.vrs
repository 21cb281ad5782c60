#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@text
//@include lex_text.inc
//@subst Lexer < 'a , Token < 'a > > ==> Cb < 'a >
//@subst u32 :: from_str_radix ==> __from_str_radix
//@subst char :: from_u32 ==> __from_u32
//@include lex_string.inc
} // verus!
fn main() {}
