#[verifier::external_body] #[verifier::reject_recursive_types(CONST)]
pub struct CoercionError<'a, const CONST: bool> { x: &'a u8 }
