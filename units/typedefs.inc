// Definitions of bluejay-core that are concrete types, and its provided (default) trait methods.
//@item src=bluejay-core/src/definition/directive_definition.rs name=DirectiveLocation prefix="#[derive(PartialEq, Eq, Clone, Copy, Structural)]"
//@item src=bluejay-core/src/operation_type.rs name=OperationType prefix="#[derive(PartialEq, Eq, Clone, Copy, Structural)]"
//@item src=bluejay-core/src/builtin_scalar_definition.rs name=BuiltinScalarDefinition prefix="#[derive(PartialEq, Eq, Clone, Copy, Structural)]"
//@fn src=bluejay-core/src/operation_type.rs impl=OperationType fn=associated_directive_location
    ensures r == (match self { OperationType::Query => DirectiveLocation::Query, OperationType::Mutation => DirectiveLocation::Mutation, OperationType::Subscription => DirectiveLocation::Subscription })
//@end
impl BuiltinScalarDefinition {
    pub open spec fn s_name(&self) -> Seq<char> { match self { BuiltinScalarDefinition::Int => "Int"@, BuiltinScalarDefinition::Float => "Float"@, BuiltinScalarDefinition::String => "String"@, BuiltinScalarDefinition::Boolean => "Boolean"@, BuiltinScalarDefinition::ID => "ID"@ } }
    // generated by strum (IntoStaticStr): the variant's name
    #[verifier::external_body] pub fn name(&self) -> (r: &'static str) ensures r@ == self.s_name() { unimplemented!() }
}
//@item src=bluejay-core/src/definition/type_definition.rs name=TypeDefinitionReference subst="< 'a , T : TypeDefinition > ==> < 'a >;;T :: $x ==> $x;;CustomScalarTypeDefinition ==> ScalarTypeDefinition"
impl<'a> Copy for TypeDefinitionReference<'a> {}
impl<'a> Clone for TypeDefinitionReference<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> TypeDefinitionReference<'a> {
    pub open spec fn s_name(&self) -> Seq<char> { match self { TypeDefinitionReference::BuiltinScalar(t) => t.s_name(), TypeDefinitionReference::CustomScalar(t) => t.s_name(), TypeDefinitionReference::Object(t) => t.s_name(), TypeDefinitionReference::InputObject(t) => t.s_name(), TypeDefinitionReference::Enum(t) => t.s_name(), TypeDefinitionReference::Union(t) => t.s_name(), TypeDefinitionReference::Interface(t) => t.s_name() } }
    pub open spec fn s_description(&self) -> Option<Seq<char>> { match self { TypeDefinitionReference::BuiltinScalar(t) => None, TypeDefinitionReference::CustomScalar(t) => t.s_description(), TypeDefinitionReference::Object(t) => t.s_description(), TypeDefinitionReference::InputObject(t) => t.s_description(), TypeDefinitionReference::Enum(t) => t.s_description(), TypeDefinitionReference::Union(t) => t.s_description(), TypeDefinitionReference::Interface(t) => t.s_description() } }
    pub open spec fn o_directives(&self) -> Option<List<Directive<true>>> { match self { TypeDefinitionReference::BuiltinScalar(t) => None, TypeDefinitionReference::CustomScalar(t) => t.o_directives(), TypeDefinitionReference::Object(t) => t.o_directives(), TypeDefinitionReference::InputObject(t) => t.o_directives(), TypeDefinitionReference::Enum(t) => t.o_directives(), TypeDefinitionReference::Union(t) => t.o_directives(), TypeDefinitionReference::Interface(t) => t.o_directives() } }
    pub open spec fn s_directives(&self) -> Seq<Directive<true>> { olist(self.o_directives()) }
    pub open spec fn kind_(&self) -> int { match self { TypeDefinitionReference::BuiltinScalar(t) => 0, TypeDefinitionReference::CustomScalar(t) => 0, TypeDefinitionReference::Object(t) => 1, TypeDefinitionReference::InputObject(t) => 2, TypeDefinitionReference::Enum(t) => 3, TypeDefinitionReference::Union(t) => 4, TypeDefinitionReference::Interface(t) => 5 } }
    pub open spec fn s_is_builtin(&self) -> bool { match self { TypeDefinitionReference::BuiltinScalar(t) => true, TypeDefinitionReference::Object(t) => t.s_is_builtin(), TypeDefinitionReference::Enum(t) => t.s_is_builtin(), _ => false } }
    pub open spec fn o_fields_definition(&self) -> Option<List<FieldDefinition>> { match self { TypeDefinitionReference::Object(t) => Some(t.s_fields_definition()), TypeDefinitionReference::Interface(t) => Some(t.s_fields_definition()), TypeDefinitionReference::Union(t) => Some(t.s_fields_definition()), _ => None } }
    pub open spec fn s_is_input(&self) -> bool { self is BuiltinScalar || self is CustomScalar || self is InputObject || self is Enum }
    pub open spec fn s_is_composite(&self) -> bool { self is Object || self is Interface || self is Union }
}
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=name header="impl<'a> TypeDefinitionReference<'a>"
    ensures r@ == self.s_name()
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=description header="impl<'a> TypeDefinitionReference<'a>"
    ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None }
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_builtin header="impl<'a> TypeDefinitionReference<'a>"
    ensures r == self.s_is_builtin()
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_composite header="impl<'a> TypeDefinitionReference<'a>"
    ensures r == self.s_is_composite()
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_abstract header="impl<'a> TypeDefinitionReference<'a>"
    ensures r == (self is Interface || self is Union)
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_input header="impl<'a> TypeDefinitionReference<'a>"
    ensures r == self.s_is_input()
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=fields_definition header="impl<'a> TypeDefinitionReference<'a>"
    ensures match r { Some(x) => self.o_fields_definition() == Some(*x), None => self.o_fields_definition() is None }
//@ sig fn fields_definition(&self) -> (r: Option<&'a List<FieldDefinition>>)
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=HasDirectives:TypeDefinitionReference fn=directives header="impl<'a> TypeDefinitionReference<'a>"
    ensures match r { Some(x) => self.o_directives() == Some(*x), None => self.o_directives() is None }
//@ sig fn directives(&self) -> (r: Option<&'a List<Directive<true>>>)
//@end
impl<'a> HasDirectives for TypeDefinitionReference<'a> { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { TypeDefinitionReference::directives(self) } }
impl InputValueDefinition { pub open spec fn s_is_required(&self) -> bool { ty_required(self.s_type_().v()) && self.s_default_value() is None } }
//@fn src=bluejay-core/src/definition/input_value_definition.rs impl=trait:InputValueDefinition fn=is_required header="impl InputValueDefinition"
    ensures r == self.s_is_required()
//@end
impl<'a> Named for TypeDefinitionReference<'a> { open spec fn nm(&self) -> Seq<char> { self.s_name() } }
//@fn src=bluejay-core/src/definition/fields_definition.rs impl=trait:FieldsDefinition fn=contains_field header="impl List<FieldDefinition>"
    ensures r == named_in(self@, $0@)
//@ loop 0
@any f: f.s_name() == $0@
//@end
//@fn src=bluejay-core/src/definition/fields_definition.rs impl=trait:FieldsDefinition fn=get header="impl List<FieldDefinition>"
    ensures is_opt(r, first(self@, $0@))
//@ sig fn get(&self, $0: &str) -> (r: Option<&FieldDefinition>)
//@ loop 0
@first $0@
//@end
//@fn src=bluejay-core/src/definition/arguments_definition.rs impl=trait:ArgumentsDefinition fn=get header="impl List<InputValueDefinition>"
    ensures is_opt(r, first(self@, $0@))
//@ sig fn get(&self, $0: &str) -> (r: Option<&InputValueDefinition>)
//@ loop 0
@first $0@
//@end
//@fn src=bluejay-core/src/definition/union_member_types.rs impl=trait:UnionMemberTypes fn=contains_type header="impl List<UnionMemberType>"
    ensures r == named_in(self@, $0@)
//@ loop 0
@any f: f.s_name() == $0@
//@end
//@fn src=bluejay-core/src/definition/union_member_types.rs impl=trait:UnionMemberTypes fn=get header="impl List<UnionMemberType>"
    ensures is_opt(r, first(self@, $0@))
//@ sig fn get(&self, $0: &str) -> (r: Option<&UnionMemberType>)
//@ loop 0
@first $0@
//@end
impl<'a> TypeDefinitionReference<'a> {
    pub open spec fn kind2(&self) -> int { match self { TypeDefinitionReference::BuiltinScalar(t) => 6, _ => self.kind_() } }
}
impl SchemaDefinition {
    pub uninterp spec fn s_type_definitions<'a>(&'a self) -> Seq<TypeDefinitionReference<'a>>;
    #[verifier::external_body] pub fn type_definitions<'a>(&'a self) -> (r: ItV<TypeDefinitionReference<'a>>) ensures r@ == self.s_type_definitions() { unimplemented!() }
    // the definition with that name (names are unique in a schema: P23)
    #[verifier::external_body] pub fn get_type_definition<'a>(&'a self, n: &str) -> (r: Option<TypeDefinitionReference<'a>>) ensures r == first(self.s_type_definitions(), n@) { unimplemented!() }
    #[verifier::external_body] pub fn get_directive_definition<'a>(&'a self, n: &str) -> (r: Option<&'a DirectiveDefinition>) ensures is_opt(r, first(self.s_directive_definitions(), n@)) { unimplemented!() }
    // the object types declaring that they implement the interface
    pub uninterp spec fn s_implementors(&self, i: InterfaceTypeDefinition) -> Seq<ObjectTypeDefinition>;
    #[verifier::external_body] pub fn get_interface_implementors<'a>(&'a self, i: &'a InterfaceTypeDefinition) -> (r: It<'a, ObjectTypeDefinition>) ensures r@ == self.s_implementors(*i) { unimplemented!() }
}
