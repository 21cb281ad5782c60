// Generated by tools/gencore.py: opaque stand-ins for the associated types of the bluejay_core traits.
// $-directives below map the generic paths of the source to these types.
#[verifier::external_body]
pub struct FieldDefinition { x: u8 }
impl FieldDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_arguments_definition(&self) -> Option<List<InputValueDefinition>>;
    pub open spec fn s_arguments_definition(&self) -> Seq<InputValueDefinition> { olist(self.o_arguments_definition()) }
    #[verifier::external_body] pub fn arguments_definition(&self) -> (r: Option<&List<InputValueDefinition>>) ensures match r { Some(x) => self.o_arguments_definition() == Some(*x), None => self.o_arguments_definition() is None } { unimplemented!() }
    pub uninterp spec fn s_type_(&self) -> OutputType;
    #[verifier::external_body] pub fn type_(&self) -> (r: &OutputType) ensures *r == self.s_type_() { unimplemented!() }
    pub uninterp spec fn s_is_builtin(&self) -> bool;
    #[verifier::external_body] pub fn is_builtin(&self) -> (r: bool) ensures r == self.s_is_builtin() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct InputValueDefinition { x: u8 }
impl InputValueDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn s_type_(&self) -> InputType;
    #[verifier::external_body] pub fn type_(&self) -> (r: &InputType) ensures *r == self.s_type_() { unimplemented!() }
    pub uninterp spec fn s_default_value(&self) -> Option<Value<true>>;
    #[verifier::external_body] pub fn default_value(&self) -> (r: Option<&Value<true>>) ensures match r { Some(x) => self.s_default_value() == Some(*x), None => self.s_default_value() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct EnumValueDefinition { x: u8 }
impl EnumValueDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct InterfaceImplementation { x: u8 }
impl InterfaceImplementation {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
}
#[verifier::external_body]
pub struct UnionMemberType { x: u8 }
impl UnionMemberType {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
}
#[verifier::external_body]
pub struct ScalarTypeDefinition { x: u8 }
impl ScalarTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct EnumTypeDefinition { x: u8 }
impl EnumTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn s_enum_value_definitions(&self) -> List<EnumValueDefinition>;
    #[verifier::external_body] pub fn enum_value_definitions(&self) -> (r: &List<EnumValueDefinition>) ensures *r == self.s_enum_value_definitions() { unimplemented!() }
    pub uninterp spec fn s_is_builtin(&self) -> bool;
    #[verifier::external_body] pub fn is_builtin(&self) -> (r: bool) ensures r == self.s_is_builtin() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct InputObjectTypeDefinition { x: u8 }
impl InputObjectTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn s_input_field_definitions(&self) -> List<InputValueDefinition>;
    #[verifier::external_body] pub fn input_field_definitions(&self) -> (r: &List<InputValueDefinition>) ensures *r == self.s_input_field_definitions() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct InterfaceTypeDefinition { x: u8 }
impl InterfaceTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_interface_implementations(&self) -> Option<List<InterfaceImplementation>>;
    pub open spec fn s_interface_implementations(&self) -> Seq<InterfaceImplementation> { olist(self.o_interface_implementations()) }
    #[verifier::external_body] pub fn interface_implementations(&self) -> (r: Option<&List<InterfaceImplementation>>) ensures match r { Some(x) => self.o_interface_implementations() == Some(*x), None => self.o_interface_implementations() is None } { unimplemented!() }
    pub uninterp spec fn s_fields_definition(&self) -> List<FieldDefinition>;
    #[verifier::external_body] pub fn fields_definition(&self) -> (r: &List<FieldDefinition>) ensures *r == self.s_fields_definition() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct ObjectTypeDefinition { x: u8 }
impl ObjectTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_interface_implementations(&self) -> Option<List<InterfaceImplementation>>;
    pub open spec fn s_interface_implementations(&self) -> Seq<InterfaceImplementation> { olist(self.o_interface_implementations()) }
    #[verifier::external_body] pub fn interface_implementations(&self) -> (r: Option<&List<InterfaceImplementation>>) ensures match r { Some(x) => self.o_interface_implementations() == Some(*x), None => self.o_interface_implementations() is None } { unimplemented!() }
    pub uninterp spec fn s_fields_definition(&self) -> List<FieldDefinition>;
    #[verifier::external_body] pub fn fields_definition(&self) -> (r: &List<FieldDefinition>) ensures *r == self.s_fields_definition() { unimplemented!() }
    pub uninterp spec fn s_is_builtin(&self) -> bool;
    #[verifier::external_body] pub fn is_builtin(&self) -> (r: bool) ensures r == self.s_is_builtin() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct UnionTypeDefinition { x: u8 }
impl UnionTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn s_union_member_types(&self) -> List<UnionMemberType>;
    #[verifier::external_body] pub fn union_member_types(&self) -> (r: &List<UnionMemberType>) ensures *r == self.s_union_member_types() { unimplemented!() }
    pub uninterp spec fn s_fields_definition(&self) -> List<FieldDefinition>;
    #[verifier::external_body] pub fn fields_definition(&self) -> (r: &List<FieldDefinition>) ensures *r == self.s_fields_definition() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct DirectiveDefinition { x: u8 }
impl DirectiveDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn o_arguments_definition(&self) -> Option<List<InputValueDefinition>>;
    pub open spec fn s_arguments_definition(&self) -> Seq<InputValueDefinition> { olist(self.o_arguments_definition()) }
    #[verifier::external_body] pub fn arguments_definition(&self) -> (r: Option<&List<InputValueDefinition>>) ensures match r { Some(x) => self.o_arguments_definition() == Some(*x), None => self.o_arguments_definition() is None } { unimplemented!() }
    pub uninterp spec fn s_is_repeatable(&self) -> bool;
    #[verifier::external_body] pub fn is_repeatable(&self) -> (r: bool) ensures r == self.s_is_repeatable() { unimplemented!() }
    pub uninterp spec fn s_locations(&self) -> List<DirectiveLocation>;
    #[verifier::external_body] pub fn locations(&self) -> (r: &List<DirectiveLocation>) ensures *r == self.s_locations() { unimplemented!() }
    pub uninterp spec fn s_is_builtin(&self) -> bool;
    #[verifier::external_body] pub fn is_builtin(&self) -> (r: bool) ensures r == self.s_is_builtin() { unimplemented!() }
}
#[verifier::external_body]
pub struct Argument<const C: bool> { x: u8 }
impl<const C: bool> Argument<C> {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_value(&self) -> Value<C>;
    #[verifier::external_body] pub fn value(&self) -> (r: &Value<C>) ensures *r == self.s_value() { unimplemented!() }
}
#[verifier::external_body]
pub struct Directive<const C: bool> { x: u8 }
impl<const C: bool> Directive<C> {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn o_arguments(&self) -> Option<List<Argument<C>>>;
    pub open spec fn s_arguments(&self) -> Seq<Argument<C>> { olist(self.o_arguments()) }
    #[verifier::external_body] pub fn arguments(&self) -> (r: Option<&List<Argument<C>>>) ensures match r { Some(x) => self.o_arguments() == Some(*x), None => self.o_arguments() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct VariableDefinition { x: u8 }
impl VariableDefinition {
    pub uninterp spec fn s_variable(&self) -> Seq<char>;
    #[verifier::external_body] pub fn variable(&self) -> (r: &str) ensures r@ == self.s_variable() { unimplemented!() }
    pub uninterp spec fn s_type_(&self) -> VariableType;
    #[verifier::external_body] pub fn type_(&self) -> (r: &VariableType) ensures *r == self.s_type_() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn s_default_value(&self) -> Option<Value<true>>;
    #[verifier::external_body] pub fn default_value(&self) -> (r: Option<&Value<true>>) ensures match r { Some(x) => self.s_default_value() == Some(*x), None => self.s_default_value() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct FragmentDefinition { x: u8 }
impl FragmentDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_type_condition(&self) -> Seq<char>;
    #[verifier::external_body] pub fn type_condition(&self) -> (r: &str) ensures r@ == self.s_type_condition() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<false>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<false>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn s_selection_set(&self) -> List<Selection>;
    #[verifier::external_body] pub fn selection_set(&self) -> (r: &List<Selection>) ensures *r == self.s_selection_set() { unimplemented!() }
}
#[verifier::external_body]
pub struct FragmentSpread { x: u8 }
impl FragmentSpread {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<false>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<false>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct InlineFragment { x: u8 }
impl InlineFragment {
    pub uninterp spec fn s_type_condition(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn type_condition(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_type_condition() == Some(x@), None => self.s_type_condition() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<false>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<false>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn s_selection_set(&self) -> List<Selection>;
    #[verifier::external_body] pub fn selection_set(&self) -> (r: &List<Selection>) ensures *r == self.s_selection_set() { unimplemented!() }
}
#[verifier::external_body]
pub struct Field { x: u8 }
impl Field {
    pub uninterp spec fn s_alias(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn alias(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_alias() == Some(x@), None => self.s_alias() is None } { unimplemented!() }
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn o_arguments(&self) -> Option<List<Argument<false>>>;
    pub open spec fn s_arguments(&self) -> Seq<Argument<false>> { olist(self.o_arguments()) }
    #[verifier::external_body] pub fn arguments(&self) -> (r: Option<&List<Argument<false>>>) ensures match r { Some(x) => self.o_arguments() == Some(*x), None => self.o_arguments() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<false>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<false>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn o_selection_set(&self) -> Option<List<Selection>>;
    pub open spec fn s_selection_set(&self) -> Seq<Selection> { olist(self.o_selection_set()) }
    #[verifier::external_body] pub fn selection_set(&self) -> (r: Option<&List<Selection>>) ensures match r { Some(x) => self.o_selection_set() == Some(*x), None => self.o_selection_set() is None } { unimplemented!() }
}
#[verifier::external_body]
pub struct ExplicitOperationDefinition { x: u8 }
impl ExplicitOperationDefinition {
    pub uninterp spec fn s_operation_type(&self) -> OperationType;
    #[verifier::external_body] pub fn operation_type(&self) -> (r: OperationType) ensures r == self.s_operation_type() { unimplemented!() }
    pub uninterp spec fn s_name(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn name(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_name() == Some(x@), None => self.s_name() is None } { unimplemented!() }
    pub uninterp spec fn o_variable_definitions(&self) -> Option<List<VariableDefinition>>;
    pub open spec fn s_variable_definitions(&self) -> Seq<VariableDefinition> { olist(self.o_variable_definitions()) }
    #[verifier::external_body] pub fn variable_definitions(&self) -> (r: Option<&List<VariableDefinition>>) ensures match r { Some(x) => self.o_variable_definitions() == Some(*x), None => self.o_variable_definitions() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<false>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<false>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<false>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn s_selection_set(&self) -> List<Selection>;
    #[verifier::external_body] pub fn selection_set(&self) -> (r: &List<Selection>) ensures *r == self.s_selection_set() { unimplemented!() }
}
#[verifier::external_body]
pub struct ImplicitOperationDefinition { x: u8 }
impl ImplicitOperationDefinition {
    pub uninterp spec fn s_selection_set(&self) -> List<Selection>;
    #[verifier::external_body] pub fn selection_set(&self) -> (r: &List<Selection>) ensures *r == self.s_selection_set() { unimplemented!() }
}
#[verifier::external_body]
pub struct OperationDefinition { x: u8 }
#[verifier::external_body]
pub struct ExecutableDocument { x: u8 }
impl ExecutableDocument {
    pub uninterp spec fn s_operation_definitions(&self) -> Seq<OperationDefinition>;
    #[verifier::external_body] pub fn operation_definitions(&self) -> (r: It<'_, OperationDefinition>) ensures r@ == self.s_operation_definitions() { unimplemented!() }
    pub uninterp spec fn s_fragment_definitions(&self) -> Seq<FragmentDefinition>;
    #[verifier::external_body] pub fn fragment_definitions(&self) -> (r: It<'_, FragmentDefinition>) ensures r@ == self.s_fragment_definitions() { unimplemented!() }
}
#[verifier::external_body]
pub struct SchemaDefinition { x: u8 }
impl SchemaDefinition {
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
    pub uninterp spec fn s_query(&self) -> ObjectTypeDefinition;
    #[verifier::external_body] pub fn query(&self) -> (r: &ObjectTypeDefinition) ensures *r == self.s_query() { unimplemented!() }
    pub uninterp spec fn s_mutation(&self) -> Option<ObjectTypeDefinition>;
    #[verifier::external_body] pub fn mutation(&self) -> (r: Option<&ObjectTypeDefinition>) ensures match r { Some(x) => self.s_mutation() == Some(*x), None => self.s_mutation() is None } { unimplemented!() }
    pub uninterp spec fn s_subscription(&self) -> Option<ObjectTypeDefinition>;
    #[verifier::external_body] pub fn subscription(&self) -> (r: Option<&ObjectTypeDefinition>) ensures match r { Some(x) => self.s_subscription() == Some(*x), None => self.s_subscription() is None } { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>;
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None } { unimplemented!() }
    pub uninterp spec fn s_directive_definitions(&self) -> Seq<DirectiveDefinition>;
    #[verifier::external_body] pub fn directive_definitions(&self) -> (r: It<'_, DirectiveDefinition>) ensures r@ == self.s_directive_definitions() { unimplemented!() }
}
#[verifier::external_body]
pub struct OutputType { x: u8 }
#[verifier::external_body]
pub struct InputType { x: u8 }
#[verifier::external_body]
pub struct VariableType { x: u8 }
#[verifier::external_body]
pub struct Value<const C: bool> { x: u8 }
#[verifier::external_body]
pub struct Selection { x: u8 }
#[verifier::external_body]
pub struct Variable { x: u8 }
impl Variable {
    pub uninterp spec fn s_name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
}
pub trait HasDirectives { spec fn h_directives(&self) -> Option<List<Directive<true>>>;
    fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.h_directives() == Some(*x), None => self.h_directives() is None }; }
pub open spec fn dirs<T: HasDirectives>(t: T) -> Seq<Directive<true>> { olist(t.h_directives()) }
impl HasDirectives for FieldDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { FieldDefinition::directives(self) } }
impl HasDirectives for InputValueDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { InputValueDefinition::directives(self) } }
impl HasDirectives for EnumValueDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { EnumValueDefinition::directives(self) } }
impl HasDirectives for ScalarTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { ScalarTypeDefinition::directives(self) } }
impl HasDirectives for EnumTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { EnumTypeDefinition::directives(self) } }
impl HasDirectives for InputObjectTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { InputObjectTypeDefinition::directives(self) } }
impl HasDirectives for InterfaceTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { InterfaceTypeDefinition::directives(self) } }
impl HasDirectives for ObjectTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { ObjectTypeDefinition::directives(self) } }
impl HasDirectives for UnionTypeDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { UnionTypeDefinition::directives(self) } }
impl HasDirectives for SchemaDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { SchemaDefinition::directives(self) } }
impl Named for FieldDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for InputValueDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for EnumValueDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for InterfaceImplementation { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for UnionMemberType { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for ScalarTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for EnumTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for InputObjectTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for InterfaceTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for ObjectTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for UnionTypeDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for DirectiveDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl<const C: bool> Named for Argument<C> { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl<const C: bool> Named for Directive<C> { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for FragmentDefinition { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for FragmentSpread { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for Field { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
impl Named for Variable { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
