// The document validator: its error enums, the per-document cache, paths, and the helper `duplicates`.
//@subst S :: CustomScalarTypeDefinition ==> ScalarTypeDefinition
//@subst TypeDefinitionReference < 'a , S :: TypeDefinition > ==> TypeDefinitionReference < 'a >
//@subst VariableTypeReference < 'a , E :: VariableType > ==> VariableTypeReference < 'a >
//@subst InputTypeReference < 'a , S :: InputType > ==> InputTypeReference < 'a >
//@subst < E :: Value < false > as Value < false > > :: Variable ==> Variable
//@subst < E as ExecutableDocument > :: SelectionSet ==> List < Selection >
//@subst < E as ExecutableDocument > :: VariableDefinitions ==> List < VariableDefinition >
//@subst < E as ExecutableDocument > :: Directives ==> LDirective
//@subst < E as ExecutableDocument > :: $x ==> $x
//@subst < S as SchemaDefinition > :: $x ==> $x
//@subst E :: SelectionSet ==> List < Selection >
//@subst E :: VariableDefinitions ==> List < VariableDefinition >
//@subst E :: Arguments < CONST > ==> List < Argument < CONST > >
//@subst E :: Arguments < false > ==> List < Argument < false > >
//@subst E :: Arguments < true > ==> List < Argument < true > >
//@subst E :: Directives < CONST > ==> List < Directive < CONST > >
//@subst E :: Directives < false > ==> List < Directive < false > >
//@subst E :: Directives < true > ==> List < Directive < true > >
//@subst E :: $x ==> $x
//@subst S :: ArgumentsDefinition ==> List < InputValueDefinition >
//@subst S :: FieldsDefinition ==> List < FieldDefinition >
//@subst S :: $x ==> $x
//@subst < 'a , CONST , E , S > ==> < 'a , CONST >
//@subst < 'a , true , E , S > ==> < 'a , true >
//@subst < 'a , false , E , S > ==> < 'a , false >
//@subst < 'a , E , S > ==> < 'a >
//@subst < 'a , E > ==> < 'a >
//@subst < 'a , S > ==> < 'a >
//@subst & 'a E ==> & 'a ExecutableDocument
//@subst & 'a S ==> & 'a SchemaDefinition
//@subst bluejay_core :: definition :: DirectiveLocation ==> DirectiveLocation
//@subst LDirective < CONST > ==> List < Directive < CONST > >
//@subst LDirective < true > ==> List < Directive < true > >
//@subst LDirective < false > ==> List < Directive < false > >
//@method iter/0 ==> $self.it()
//@method into_iter/0 ==> $self.into_it()
//@method not/0 ==> !($self)
//@rtype it=iter into_it=iter duplicates=iter operation_definitions=iter fragment_definitions=iter directives=opt arguments=opt name/0=val arguments_definition=opt get_type_definition=opt get_directive_definition=opt get_interface_implementors=iter variable_definitions=opt default_value=opt
//@eta Error::InvalidVariableArgument Error::InvalidConstArgument Error::InvalidVariableDirective Error::InvalidConstDirective Error::InvalidConstValue Error::InvalidVariableValue
impl<T> List<T> { pub fn it(&self) -> (r: It<'_, T>) ensures r@ == self@ { self.iter() } }
impl<'a, T> It<'a, T> { pub fn it(self) -> (r: Self) ensures r == self { self } }
//@item src=bluejay-validator/src/executable/document/error/argument_error.rs name=ArgumentError prefix="#[allow(inconsistent_fields)] #[verifier::reject_recursive_types(CONST)]" subst="< 'a , const CONST : bool , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a , const CONST : bool >"
//@item src=bluejay-validator/src/executable/document/error/directive_error.rs name=DirectiveError prefix="#[allow(inconsistent_fields)] #[verifier::reject_recursive_types(CONST)]" subst="< 'a , const CONST : bool , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a , const CONST : bool >"
//@item src=bluejay-validator/src/executable/document/error.rs name=Error prefix="#[allow(inconsistent_fields)]" subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >;;InputCoercionError < 'a , true , Value < true > > ==> CoercionError < 'a , true >;;InputCoercionError < 'a , false , Value < false > > ==> CoercionError < 'a , false >"
//@item src=bluejay-validator/src/executable/document/path.rs name=PathRoot prefix="" subst="< 'a , E : ExecutableDocument > ==> < 'a >"
impl<'a> Copy for PathRoot<'a> {}
impl<'a> Clone for PathRoot<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// PathRoot's Eq/Ord/Hash compare the definitions' ids, which identify the definition (assumed)
impl<'a> View for PathRoot<'a> { type V = PathRoot<'a>; open spec fn view(&self) -> PathRoot<'a> { *self } }
//@item src=bluejay-validator/src/executable/document/path.rs name=Path subst="< 'a , E : ExecutableDocument > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/path.rs impl=Path fn=root header="impl<'a> Path<'a>"
    ensures *r == self.root
//@ sig fn root(&self) -> (r: &PathRoot<'a>)
//@end
//@fn src=bluejay-validator/src/executable/document/path.rs impl=Path fn=new header="impl<'a> Path<'a>"
    ensures r.root == $0, r.members@.len() == 0
//@end
#[verifier::external_body]
pub struct Cache<'a> { x: &'a u8 }
impl<'a> Cache<'a> {
    pub uninterp spec fn s_fragment_definitions(&self) -> Seq<FragmentDefinition>;
    // the fragment with that name (unique names; otherwise one of them)
    pub uninterp spec fn s_fragment(&self, n: Seq<char>) -> Option<FragmentDefinition>;
    #[verifier::external_body] pub fn fragment_definition(&self, n: &str) -> (r: Option<&'a FragmentDefinition>) ensures is_opt(r, self.s_fragment(n@)) { unimplemented!() }
}
