//@rtype variable_definition_input_type=opt coerce_value=res
// the type of a variable, resolved in the schema (VariableDefinitionInputType is an input type like the schema's own)
impl<'a> Cache<'a> {
    pub uninterp spec fn s_input_type(&self, t: VariableType) -> Option<InputType>;
    #[verifier::external_body] pub fn variable_definition_input_type(&self, t: &'a VariableType) -> (r: Option<&InputType>) ensures is_opt(r, self.s_input_type(*t)) { unimplemented!() }
}
// proved in the unit v_coerce
impl SchemaDefinition { #[verifier::external_body] pub fn coerce_value<'a, const CONST: bool>(&'a self, t: &'a InputType, v: &'a Value<CONST>, p: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
    ensures r is Err ==> r->Err_0@.len() > 0, r is Err <==> unfit(*self, *t, *v, p@) { unimplemented!() }
}
