// Executable documents: the concrete reference enums of bluejay-core over the opaque types.
//@item src=bluejay-core/src/executable/selection.rs name=SelectionReference subst="< 'a , S : Selection > ==> < 'a >;;S :: $x ==> $x"
//@item src=bluejay-core/src/executable/operation_definition.rs name=OperationDefinitionReference subst="< 'a , O : OperationDefinition > ==> < 'a >;;O :: $x ==> $x"
//@item src=bluejay-core/src/executable/variable_type.rs name=VariableTypeReference subst="< 'a , T : VariableType > ==> < 'a >;;& 'a T ==> & 'a VariableType"
impl Selection {
    pub uninterp spec fn r<'a>(&'a self) -> SelectionReference<'a>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: SelectionReference<'_>) ensures r == self.r() { unimplemented!() }
}
impl OperationDefinition {
    pub uninterp spec fn r<'a>(&'a self) -> OperationDefinitionReference<'a>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: OperationDefinitionReference<'_>) ensures r == self.r() { unimplemented!() }
    pub open spec fn s_name(&self) -> Option<Seq<char>> { match self.r() { OperationDefinitionReference::Explicit(e) => e.s_name(), _ => None } }
    pub open spec fn s_operation_type(&self) -> OperationType { match self.r() { OperationDefinitionReference::Explicit(e) => e.s_operation_type(), _ => OperationType::Query } }
    pub open spec fn s_selection_set(&self) -> List<Selection> { match self.r() { OperationDefinitionReference::Explicit(e) => e.s_selection_set(), OperationDefinitionReference::Implicit(e) => e.s_selection_set() } }
    pub open spec fn o_variable_definitions(&self) -> Option<List<VariableDefinition>> { match self.r() { OperationDefinitionReference::Explicit(e) => e.o_variable_definitions(), _ => None } }
    pub open spec fn s_variable_definitions(&self) -> Seq<VariableDefinition> { olist(self.o_variable_definitions()) }
    pub open spec fn o_directives(&self) -> Option<List<Directive<false>>> { match self.r() { OperationDefinitionReference::Explicit(e) => e.o_directives(), _ => None } }
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
}
impl<'a> OperationDefinitionReference<'a> {
    pub open spec fn s_name(&self) -> Option<Seq<char>> { match self { OperationDefinitionReference::Explicit(e) => e.s_name(), _ => None } }
    pub open spec fn s_operation_type(&self) -> OperationType { match self { OperationDefinitionReference::Explicit(e) => e.s_operation_type(), _ => OperationType::Query } }
    pub open spec fn s_selection_set(&self) -> List<Selection> { match self { OperationDefinitionReference::Explicit(e) => e.s_selection_set(), OperationDefinitionReference::Implicit(e) => e.s_selection_set() } }
    pub open spec fn o_variable_definitions(&self) -> Option<List<VariableDefinition>> { match self { OperationDefinitionReference::Explicit(e) => e.o_variable_definitions(), _ => None } }
    pub open spec fn o_directives(&self) -> Option<List<Directive<false>>> { match self { OperationDefinitionReference::Explicit(e) => e.o_directives(), _ => None } }
}
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=operation_type header="impl<'a> OperationDefinitionReference<'a>"
    ensures r == self.s_operation_type()
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=name header="impl<'a> OperationDefinitionReference<'a>"
    ensures match r { Some(x) => self.s_name() == Some(x@), None => self.s_name() is None }
//@ sig fn name(&self) -> (r: Option<&'a str>)
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=variable_definitions header="impl<'a> OperationDefinitionReference<'a>"
    ensures is_opt(r, self.o_variable_definitions())
//@ sig fn variable_definitions(&self) -> (r: Option<&'a List<VariableDefinition>>)
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=selection_set header="impl<'a> OperationDefinitionReference<'a>"
    ensures *r == self.s_selection_set()
//@ sig fn selection_set(&self) -> (r: &'a List<Selection>)
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=directives header="impl<'a> OperationDefinitionReference<'a>"
    ensures is_opt(r, self.o_directives())
//@ sig fn directives(&self) -> (r: Option<&'a List<Directive<false>>>)
//@end
impl Field { pub open spec fn s_response_name(&self) -> Seq<char> { match self.s_alias() { Some(a) => a, None => self.s_name() } } }
//@fn src=bluejay-core/src/executable/field.rs impl=trait:Field fn=response_name header="impl Field"
    ensures r@ == self.s_response_name()
//@end
// variable types
impl<'a> Copy for VariableTypeReference<'a> {}
impl<'a> Clone for VariableTypeReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> VariableTypeReference<'a> { pub open spec fn v(&self) -> TyV { match self { VariableTypeReference::Named(n, q) => TyV::Base(n@, *q), VariableTypeReference::List(i, q) => TyV::List(Box::new(i.v()), *q) } } }
impl VariableType { pub uninterp spec fn v(&self) -> TyV;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: VariableTypeReference<'_>) ensures r.v() == self.v() { unimplemented!() } }
//@fn src=bluejay-core/src/executable/variable_type.rs impl=VariableTypeReference fn=name header="impl<'a> VariableTypeReference<'a>"
    ensures r@ == ty_base(self.v()) decreases ty_depth(self.v())
//@end
//@fn src=bluejay-core/src/executable/variable_type.rs impl=VariableTypeReference fn=is_required header="impl<'a> VariableTypeReference<'a>"
    ensures r == ty_required(self.v())
//@end
// resolved types
//@item src=bluejay-core/src/definition/output_type.rs name=BaseOutputTypeReference subst="< 'a , O : OutputType > ==> < 'a >;;O :: CustomScalarTypeDefinition ==> ScalarTypeDefinition;;O :: $x ==> $x"
//@item src=bluejay-core/src/definition/output_type.rs name=OutputTypeReference subst="< 'a , O : OutputType > ==> < 'a >;;< 'a , O > ==> < 'a >;;& 'a O ==> & 'a OutputType"
//@item src=bluejay-core/src/definition/input_type.rs name=BaseInputTypeReference subst="< 'a , T : InputType > ==> < 'a >;;T :: CustomScalarTypeDefinition ==> ScalarTypeDefinition;;T :: $x ==> $x"
//@item src=bluejay-core/src/definition/input_type.rs name=InputTypeReference subst="< 'a , I : InputType > ==> < 'a >;;< 'a , I > ==> < 'a >;;& 'a I ==> & 'a InputType"
impl<'a> Copy for BaseOutputTypeReference<'a> {}
impl<'a> Clone for BaseOutputTypeReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for OutputTypeReference<'a> {}
impl<'a> Clone for OutputTypeReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for BaseInputTypeReference<'a> {}
impl<'a> Clone for BaseInputTypeReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for InputTypeReference<'a> {}
impl<'a> Clone for InputTypeReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> BaseOutputTypeReference<'a> {
    pub open spec fn s_name(&self) -> Seq<char> { match self { BaseOutputTypeReference::BuiltinScalar(t) => t.s_name(), BaseOutputTypeReference::CustomScalar(t) => t.s_name(), BaseOutputTypeReference::Enum(t) => t.s_name(), BaseOutputTypeReference::Object(t) => t.s_name(), BaseOutputTypeReference::Interface(t) => t.s_name(), BaseOutputTypeReference::Union(t) => t.s_name() } }
    pub open spec fn s_leaf(&self) -> bool { self is BuiltinScalar || self is CustomScalar || self is Enum }
}
impl<'a> OutputTypeReference<'a> {
    pub open spec fn v(&self) -> TyV { match self { OutputTypeReference::Base(b, q) => TyV::Base(b.s_name(), *q), OutputTypeReference::List(i, q) => TyV::List(Box::new(i.v()), *q) } }
    pub open spec fn s_base(&self, s: SchemaDefinition) -> BaseOutputTypeReference<'a> { match self { OutputTypeReference::Base(b, q) => *b, OutputTypeReference::List(i, q) => i.s_base(s) } }
}
impl<'a> BaseInputTypeReference<'a> {
    pub open spec fn s_name(&self) -> Seq<char> { match self { BaseInputTypeReference::BuiltinScalar(t) => t.s_name(), BaseInputTypeReference::CustomScalar(t) => t.s_name(), BaseInputTypeReference::Enum(t) => t.s_name(), BaseInputTypeReference::InputObject(t) => t.s_name() } }
}
impl<'a> InputTypeReference<'a> {
    pub open spec fn v(&self) -> TyV { match self { InputTypeReference::Base(b, q) => TyV::Base(b.s_name(), *q), InputTypeReference::List(i, q) => TyV::List(Box::new(i.v()), *q) } }
    pub open spec fn s_base(&self, s: SchemaDefinition) -> BaseInputTypeReference<'a> { match self { InputTypeReference::Base(b, q) => *b, InputTypeReference::List(i, q) => i.s_base(s) } }
}
impl OutputType {
    pub uninterp spec fn s_base<'a>(&'a self, s: SchemaDefinition) -> BaseOutputTypeReference<'a>;
    // the type resolved against the schema: the same structure, with the named type looked up
    #[verifier::external_body] pub fn as_ref<'a>(&'a self, s: &'a SchemaDefinition) -> (r: OutputTypeReference<'a>) ensures r.v() == self.v(), r.s_base(*s) == self.s_base(*s) { unimplemented!() }
}
impl InputType {
    pub uninterp spec fn s_base<'a>(&'a self, s: SchemaDefinition) -> BaseInputTypeReference<'a>;
    pub uninterp spec fn s_ref<'a>(&'a self, s: SchemaDefinition) -> InputTypeReference<'a>;
    #[verifier::external_body] pub fn as_ref<'a>(&'a self, s: &'a SchemaDefinition) -> (r: InputTypeReference<'a>) ensures r == self.s_ref(*s), r.v() == self.v(), r.s_base(*s) == self.s_base(*s) { unimplemented!() }
}
//@fn src=bluejay-core/src/definition/output_type.rs impl=BaseOutputTypeReference fn=name header="impl<'a> BaseOutputTypeReference<'a>"
    ensures r@ == self.s_name()
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=BaseOutputTypeReference fn=is_scalar_or_enum header="impl<'a> BaseOutputTypeReference<'a>"
    ensures r == self.s_leaf()
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=OutputTypeReference fn=base header="impl<'a> OutputTypeReference<'a>"
    ensures r == self.s_base(*$0) decreases ty_depth(self.v()), 0int
//@ sig fn base(&self, $0: &'a SchemaDefinition) -> (r: BaseOutputTypeReference<'a>)
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=trait:OutputType fn=base header="impl OutputType"
    ensures r == self.s_base(*$0) decreases ty_depth(self.v()), 1int
//@ sig fn base<'a>(&'a self, $0: &'a SchemaDefinition) -> (r: BaseOutputTypeReference<'a>)
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=BaseInputTypeReference fn=name header="impl<'a> BaseInputTypeReference<'a>"
    ensures r@ == self.s_name()
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=InputTypeReference fn=is_required header="impl<'a> InputTypeReference<'a>"
    ensures r == ty_required(self.v())
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=InputTypeReference fn=unwrap_nullable header="impl<'a> InputTypeReference<'a>"
    ensures r.v() == ty_nullable(self.v()), self is Base <==> r is Base, self is Base ==> r->Base_0 == self->Base_0, self is List ==> r->List_0 == self->List_0
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=InputTypeReference fn=base header="impl<'a> InputTypeReference<'a>"
    ensures r == self.s_base(*$0) decreases ty_depth(self.v()), 0int
//@ sig fn base(&self, $0: &'a SchemaDefinition) -> (r: BaseInputTypeReference<'a>)
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=trait:InputType fn=base header="impl InputType"
    ensures r == self.s_base(*$0) decreases ty_depth(self.v()), 1int
//@ sig fn base<'a>(&'a self, $0: &'a SchemaDefinition) -> (r: BaseInputTypeReference<'a>)
//@end
pub open spec fn ty_nullable(t: TyV) -> TyV { match t { TyV::Base(n, _) => TyV::Base(n, false), TyV::List(i, _) => TyV::List(i, false) } }
impl Named for VariableDefinition { open spec fn nm(&self) -> Seq<char> { self.s_variable() } }
impl Named for ExplicitOperationDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name()->0 } }
