#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CowStr { x: u8 }
#[verifier::external_body]
pub fn __opaque_cow() -> CowStr { unimplemented!() }
//@subst Cow :: from ( $x ) ==> __opaque_cow ( )
//@subst Cow < 'static , str > ==> CowStr
//@subst is_change_safe_for_field :: < S > ==> is_change_safe_for_field
//@subst is_change_safe_for_input_value :: < S > ==> is_change_safe_for_input_value
//@subst TypeDefinitionReference < 'a , S :: TypeDefinition > ==> TypeDefinitionReference < 'a >
//@subst ArgumentForDirective < S > ==> Argument < true >
//@subst S :: Directive ==> Directive < true >
//@subst S :: $x ==> $x
//@subst ShallowOutputTypeReference < OutputType > ==> ShallowOutputTypeReference < '_ >
//@subst ShallowInputTypeReference < InputType > ==> ShallowInputTypeReference < '_ >
//@rtype directives=opt as_shallow_ref=val
//@item src=bluejay-schema-comparator/src/changes.rs name=Criticality
//@item src=bluejay-schema-comparator/src/changes.rs name=Change prefix="#[allow(inconsistent_fields)]" subst="< 'a , S : SchemaDefinition > ==> < 'a >"
