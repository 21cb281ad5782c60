// ---- type system documents: accessors (bluejay-parser), references (bluejay-core), printers (bluejay-printer) ----
//@rtype description=opt as_ref=opt mutation=opt subscription=opt default_value=opt arguments_definition=opt interface_implementations=opt values=iter filter=iter type_definitions=iter directive_definitions=iter locations=val
//@known description name type_ default_value arguments_definition directives interface_implementations fields_definition input_field_definitions enum_value_definitions union_member_types is_repeatable locations is_builtin display_name as_shallow_ref query mutation subscription get_type_definition type_definitions directive_definitions is_implicit fmt_explicit_schema_definition is_none is_some
//@method to_string/0 ==> __shown({ let mut __g = Formatter::new(); __ok($self.fmt(&mut __g)); __g })
pub fn __shown(f: Formatter) -> (r: String) ensures txt(r) == f.out(), f.last() is Word ==> lastw(r), f.last() is Other ==> !lastw(r) { f.finish() }
//@subst . r#type ( ) ==> . type_ ( )
//@fn src=bluejay-parser/src/ast/definition/directive.rs impl=Directive:Directive fn=name id=DDirective::name header="impl<'a> DDirective<'a>"
    ensures r@ == self.inner.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@ subst self . inner . name ( ) . as_str ( ) ==> self . inner . name ( )
//@end
//@fn src=bluejay-parser/src/ast/definition/directive.rs impl=Directive:Directive fn=arguments id=DDirective::arguments header="impl<'a> DDirective<'a>"
    ensures r is Some == self.inner.arguments is Some, r is Some ==> *r->0 == self.inner.arguments->0
//@ sig fn arguments<'b>(&'b self) -> (r: Option<&'b Arguments<'a, true>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive.rs impl=AsIter:Directives fn=iter as=it_ id=DDirectives::iter header="impl<'a> DDirectives<'a>"
    ensures r.s@ == self.directives@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, DDirective<'a>>)
//@end
//@fn src=bluejay-core/src/as_iter.rs impl=trait:AsIter fn=is_empty id=DDirectives::is_empty header="impl<'a> DDirectives<'a>"
    ensures r == (self.directives@.len() == 0)
//@end
//@item src=bluejay-printer/src/directive.rs name=DirectivePrinter subst="struct DirectivePrinter ==> struct DDirectivePrinter;;< 'a , const CONST : bool , T : Directive < CONST > > ==> < 'b , 'a >;;& 'a T ==> & 'b DDirective < 'a >"
//@fn src=bluejay-printer/src/directive.rs impl=DirectivePrinter fn=new id=DDirectivePrinter::new header="impl<'b, 'a> DDirectivePrinter<'b, 'a>"
    ensures *r.0 == *directive
//@ sig fn new(directive: &'b DDirective<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/directive.rs impl=Display:DirectivePrinter fn=fmt id=DDirectivePrinter::fmt header="impl<'b, 'a> DDirectivePrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_dir(self.0.inner.v(), k)] old(f).out() + p_dir(self.0.inner.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group;
//@end
//@item src=bluejay-printer/src/directive.rs name=DirectivesPrinter subst="struct DirectivesPrinter ==> struct DDirectivesPrinter;;< 'a , const CONST : bool , T : Directives < CONST > > ==> < 'b , 'a >;;& 'a T ==> & 'b DDirectives < 'a >"
//@fn src=bluejay-printer/src/directive.rs impl=DirectivesPrinter fn=new id=DDirectivesPrinter::new header="impl<'b, 'a> DDirectivesPrinter<'b, 'a>"
    ensures *r.0 == *directives
//@ sig fn new(directives: &'b DDirectives<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/directive.rs impl=Display:DirectivesPrinter fn=fmt id=DDirectivesPrinter::fmt header="impl<'b, 'a> DDirectivesPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_dirs(dds_v(self.0.directives@), k)] old(f).out() + p_dirs(dds_v(self.0.directives@), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivePrinter :: new ==> DDirectivePrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), !(f.last() is Dollar), self.0.directives@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_dirs(dds_v(self.0.directives@), k)] f0 + p_dirs(dds_v(self.0.directives@), k) == f.out() + p_dirs(dds_v($it.s@).skip($it.i as int), k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_dirs_at(dds_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-core/src/definition/input_type.rs name=ShallowInputTypeReference subst="< 'a , I : InputType > ==> < 'b , 'a >;;& 'a str ==> & 'b str;;& 'a I ==> & 'b InputType < 'a >"
pub open spec fn p_input_ref<'b, 'a>(t: ShallowInputTypeReference<'b, 'a>, k: Seq<KTok>) -> Seq<KTok> { match t {
    ShallowInputTypeReference::Base(n, b) => cons(KTok::Name(n@), p_bang(b, k)),
    ShallowInputTypeReference::List(i, b) => cons(KTok::P(PunctuatorType::OpenSquareBracket), p_type(i.v(), cons(KTok::P(PunctuatorType::CloseSquareBracket), p_bang(b, k)))) } }
pub open spec fn input_ref_ok<'b, 'a>(t: ShallowInputTypeReference<'b, 'a>) -> bool { t is Base ==> nm(t->Base_0@) }
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=BaseInputType fn=name id=BaseInputType::name header="impl<'a> BaseInputType<'a>"
    ensures *r == self.name
//@ sig fn name<'b>(&'b self) -> (r: &'b Name<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=CoreInputType:InputType fn=as_shallow_ref id=InputType::as_shallow_ref header="impl<'a> InputType<'a>"
    ensures input_ref_ok(r), forall|k: Seq<KTok>| #![trigger p_input_ref(r, k)] #![trigger p_type(self.v(), k)] p_input_ref(r, k) == p_type(self.v(), k)
//@ sig fn as_shallow_ref<'b>(&'b self) -> (r: ShallowInputTypeReference<'b, 'a>)
//@ subst inner . as_ref ( ) ==> ( & * * inner )
//@ at start
    broadcast use print_lemmas;
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=Display:ShallowInputTypeReference fn=fmt id=ShallowInputTypeReference::fmt header="impl<'b, 'a> ShallowInputTypeReference<'b, 'a>"
    requires input_ref_ok(*self), old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), !(final(f).last() is Quote), forall|k: Seq<KTok>| #![trigger p_input_ref(*self, k)] old(f).out() + p_input_ref(*self, k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas;
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=trait:InputType fn=display_name id=InputType::display_name header="impl<'a> InputType<'a>"
    ensures forall|k: Seq<KTok>| #![trigger p_type(self.v(), k)] #![trigger txt(r) + k] txt(r) + k == p_type(self.v(), k)
//@ sig fn display_name(&self) -> (r: String)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, empty_plus;
//@end
//@item src=bluejay-core/src/definition/output_type.rs name=ShallowOutputTypeReference subst="< 'a , O : OutputType > ==> < 'b , 'a >;;& 'a str ==> & 'b str;;& 'a O ==> & 'b OutputType < 'a >"
pub open spec fn p_output_ref<'b, 'a>(t: ShallowOutputTypeReference<'b, 'a>, k: Seq<KTok>) -> Seq<KTok> { match t {
    ShallowOutputTypeReference::Base(n, b) => cons(KTok::Name(n@), p_bang(b, k)),
    ShallowOutputTypeReference::List(i, b) => cons(KTok::P(PunctuatorType::OpenSquareBracket), p_type(i.v(), cons(KTok::P(PunctuatorType::CloseSquareBracket), p_bang(b, k)))) } }
pub open spec fn output_ref_ok<'b, 'a>(t: ShallowOutputTypeReference<'b, 'a>) -> bool { t is Base ==> nm(t->Base_0@) }
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=BaseOutputType fn=name id=BaseOutputType::name header="impl<'a> BaseOutputType<'a>"
    ensures *r == self.name
//@ sig fn name<'b>(&'b self) -> (r: &'b Name<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=CoreOutputType:OutputType fn=as_shallow_ref id=OutputType::as_shallow_ref header="impl<'a> OutputType<'a>"
    ensures output_ref_ok(r), forall|k: Seq<KTok>| #![trigger p_output_ref(r, k)] #![trigger p_type(self.v(), k)] p_output_ref(r, k) == p_type(self.v(), k)
//@ sig fn as_shallow_ref<'b>(&'b self) -> (r: ShallowOutputTypeReference<'b, 'a>)
//@ subst inner . as_ref ( ) ==> ( & * * inner )
//@ at start
    broadcast use print_lemmas;
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=Display:ShallowOutputTypeReference fn=fmt id=ShallowOutputTypeReference::fmt header="impl<'b, 'a> ShallowOutputTypeReference<'b, 'a>"
    requires output_ref_ok(*self), old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), !(final(f).last() is Quote), forall|k: Seq<KTok>| #![trigger p_output_ref(*self, k)] old(f).out() + p_output_ref(*self, k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas;
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=trait:OutputType fn=display_name id=OutputType::display_name header="impl<'a> OutputType<'a>"
    ensures forall|k: Seq<KTok>| #![trigger p_type(self.v(), k)] #![trigger txt(r) + k] txt(r) + k == p_type(self.v(), k)
//@ sig fn display_name(&self) -> (r: String)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, empty_plus;
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=CoreInputValueDefinition:InputValueDefinition fn=description id=InputValueDefinition::description header="impl<'a> InputValueDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=CoreInputValueDefinition:InputValueDefinition fn=name id=InputValueDefinition::name header="impl<'a> InputValueDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=CoreInputValueDefinition:InputValueDefinition fn=r#type as=type_ id=InputValueDefinition::r#type header="impl<'a> InputValueDefinition<'a>"
    ensures *r == self.type_
//@ sig fn type_<'b>(&'b self) -> (r: &'b InputType<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=CoreInputValueDefinition:InputValueDefinition fn=default_value id=InputValueDefinition::default_value header="impl<'a> InputValueDefinition<'a>"
    ensures r is Some == self.default_value is Some, r is Some ==> *r->0 == self.default_value->0
//@ sig fn default_value<'b>(&'b self) -> (r: Option<&'b ConstValue<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=HasDirectives:InputValueDefinition fn=directives id=InputValueDefinition::directives header="impl<'a> InputValueDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/arguments_definition.rs impl=AsIter:ArgumentsDefinition fn=iter as=it_ id=ArgumentsDefinition::iter header="impl<'a> ArgumentsDefinition<'a>"
    ensures r.s@ == self.argument_definitions@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, InputValueDefinition<'a>>)
//@end
//@fn src=bluejay-core/src/as_iter.rs impl=trait:AsIter fn=is_empty id=ArgumentsDefinition::is_empty header="impl<'a> ArgumentsDefinition<'a>"
    ensures r == (self.argument_definitions@.len() == 0)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=CoreFieldDefinition:FieldDefinition fn=description id=FieldDefinition::description header="impl<'a> FieldDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=CoreFieldDefinition:FieldDefinition fn=name id=FieldDefinition::name header="impl<'a> FieldDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=CoreFieldDefinition:FieldDefinition fn=arguments_definition id=FieldDefinition::arguments_definition header="impl<'a> FieldDefinition<'a>"
    ensures r is Some == self.arguments_definition is Some, r is Some ==> *r->0 == self.arguments_definition->0
//@ sig fn arguments_definition<'b>(&'b self) -> (r: Option<&'b ArgumentsDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=CoreFieldDefinition:FieldDefinition fn=r#type as=type_ id=FieldDefinition::r#type header="impl<'a> FieldDefinition<'a>"
    ensures *r == self.type_
//@ sig fn type_<'b>(&'b self) -> (r: &'b OutputType<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=CoreFieldDefinition:FieldDefinition fn=is_builtin id=FieldDefinition::is_builtin header="impl<'a> FieldDefinition<'a>"
    ensures r == self.is_builtin
//@ sig fn is_builtin(&self) -> (r: bool)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=HasDirectives:FieldDefinition fn=directives id=FieldDefinition::directives header="impl<'a> FieldDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/fields_definition.rs impl=AsIter:FieldsDefinition fn=iter as=it_ id=FieldsDefinition::iter header="impl<'a> FieldsDefinition<'a>"
    ensures r.s@ == self.field_definitions@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, FieldDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_fields_definition.rs impl=AsIter:InputFieldsDefinition fn=iter as=it_ id=InputFieldsDefinition::iter header="impl<'a> InputFieldsDefinition<'a>"
    ensures r.s@ == self.input_field_definitions@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, InputValueDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definition.rs impl=CoreEnumValueDefinition:EnumValueDefinition fn=description id=EnumValueDefinition::description header="impl<'a> EnumValueDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definition.rs impl=CoreEnumValueDefinition:EnumValueDefinition fn=name id=EnumValueDefinition::name header="impl<'a> EnumValueDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definition.rs impl=HasDirectives:EnumValueDefinition fn=directives id=EnumValueDefinition::directives header="impl<'a> EnumValueDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definitions.rs impl=AsIter:EnumValueDefinitions fn=iter as=it_ id=EnumValueDefinitions::iter header="impl<'a> EnumValueDefinitions<'a>"
    ensures r.s@ == self.enum_value_definitions@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, EnumValueDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_implementation.rs impl=CoreInterfaceImplementation:InterfaceImplementation fn=name id=InterfaceImplementation::name header="impl<'a> InterfaceImplementation<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_implementations.rs impl=AsIter:InterfaceImplementations fn=iter as=it_ id=InterfaceImplementations::iter header="impl<'a> InterfaceImplementations<'a>"
    ensures r.s@ == self.interface_implementations@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, InterfaceImplementation<'a>>)
//@end
//@fn src=bluejay-core/src/as_iter.rs impl=trait:AsIter fn=is_empty id=InterfaceImplementations::is_empty header="impl<'a> InterfaceImplementations<'a>"
    ensures r == (self.interface_implementations@.len() == 0)
//@end
//@fn src=bluejay-parser/src/ast/definition/union_member_type.rs impl=CoreUnionMemberType:UnionMemberType fn=name id=UnionMemberType::name header="impl<'a> UnionMemberType<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/union_member_types.rs impl=AsIter:UnionMemberTypes fn=iter as=it_ id=UnionMemberTypes::iter header="impl<'a> UnionMemberTypes<'a>"
    ensures r.s@ == self.union_member_types@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, UnionMemberType<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs impl=CoreScalarTypeDefinition:CustomScalarTypeDefinition fn=description id=CustomScalarTypeDefinition::description header="impl<'a> CustomScalarTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs impl=CoreScalarTypeDefinition:CustomScalarTypeDefinition fn=name id=CustomScalarTypeDefinition::name header="impl<'a> CustomScalarTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs impl=HasDirectives:CustomScalarTypeDefinition fn=directives id=CustomScalarTypeDefinition::directives header="impl<'a> CustomScalarTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=CoreObjectTypeDefinition:ObjectTypeDefinition fn=description id=ObjectTypeDefinition::description header="impl<'a> ObjectTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=CoreObjectTypeDefinition:ObjectTypeDefinition fn=name id=ObjectTypeDefinition::name header="impl<'a> ObjectTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=HasDirectives:ObjectTypeDefinition fn=directives id=ObjectTypeDefinition::directives header="impl<'a> ObjectTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=CoreObjectTypeDefinition:ObjectTypeDefinition fn=interface_implementations id=ObjectTypeDefinition::interface_implementations header="impl<'a> ObjectTypeDefinition<'a>"
    ensures r is Some == self.interface_implementations is Some, r is Some ==> *r->0 == self.interface_implementations->0
//@ sig fn interface_implementations<'b>(&'b self) -> (r: Option<&'b InterfaceImplementations<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=CoreObjectTypeDefinition:ObjectTypeDefinition fn=fields_definition id=ObjectTypeDefinition::fields_definition header="impl<'a> ObjectTypeDefinition<'a>"
    ensures *r == self.fields_definition
//@ sig fn fields_definition<'b>(&'b self) -> (r: &'b FieldsDefinition<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=CoreInterfaceTypeDefinition:InterfaceTypeDefinition fn=description id=InterfaceTypeDefinition::description header="impl<'a> InterfaceTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=CoreInterfaceTypeDefinition:InterfaceTypeDefinition fn=name id=InterfaceTypeDefinition::name header="impl<'a> InterfaceTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=HasDirectives:InterfaceTypeDefinition fn=directives id=InterfaceTypeDefinition::directives header="impl<'a> InterfaceTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=CoreInterfaceTypeDefinition:InterfaceTypeDefinition fn=interface_implementations id=InterfaceTypeDefinition::interface_implementations header="impl<'a> InterfaceTypeDefinition<'a>"
    ensures r is Some == self.interface_implementations is Some, r is Some ==> *r->0 == self.interface_implementations->0
//@ sig fn interface_implementations<'b>(&'b self) -> (r: Option<&'b InterfaceImplementations<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=CoreInterfaceTypeDefinition:InterfaceTypeDefinition fn=fields_definition id=InterfaceTypeDefinition::fields_definition header="impl<'a> InterfaceTypeDefinition<'a>"
    ensures *r == self.fields_definition
//@ sig fn fields_definition<'b>(&'b self) -> (r: &'b FieldsDefinition<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=CoreObjectTypeDefinition:ObjectTypeDefinition fn=is_builtin id=ObjectTypeDefinition::is_builtin header="impl<'a> ObjectTypeDefinition<'a>"
    ensures r == self.is_builtin
//@ sig fn is_builtin(&self) -> (r: bool)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=CoreEnumTypeDefinition:EnumTypeDefinition fn=description id=EnumTypeDefinition::description header="impl<'a> EnumTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=CoreEnumTypeDefinition:EnumTypeDefinition fn=name id=EnumTypeDefinition::name header="impl<'a> EnumTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=HasDirectives:EnumTypeDefinition fn=directives id=EnumTypeDefinition::directives header="impl<'a> EnumTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=CoreEnumTypeDefinition:EnumTypeDefinition fn=enum_value_definitions id=EnumTypeDefinition::enum_value_definitions header="impl<'a> EnumTypeDefinition<'a>"
    ensures *r == self.enum_value_definitions
//@ sig fn enum_value_definitions<'b>(&'b self) -> (r: &'b EnumValueDefinitions<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=CoreEnumTypeDefinition:EnumTypeDefinition fn=is_builtin id=EnumTypeDefinition::is_builtin header="impl<'a> EnumTypeDefinition<'a>"
    ensures r == self.is_builtin
//@ sig fn is_builtin(&self) -> (r: bool)
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=CoreUnionTypeDefinition:UnionTypeDefinition fn=description id=UnionTypeDefinition::description header="impl<'a> UnionTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=CoreUnionTypeDefinition:UnionTypeDefinition fn=name id=UnionTypeDefinition::name header="impl<'a> UnionTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=HasDirectives:UnionTypeDefinition fn=directives id=UnionTypeDefinition::directives header="impl<'a> UnionTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=CoreUnionTypeDefinition:UnionTypeDefinition fn=union_member_types id=UnionTypeDefinition::union_member_types header="impl<'a> UnionTypeDefinition<'a>"
    ensures *r == self.member_types
//@ sig fn union_member_types<'b>(&'b self) -> (r: &'b UnionMemberTypes<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=CoreInputObjectTypeDefinition:InputObjectTypeDefinition fn=description id=InputObjectTypeDefinition::description header="impl<'a> InputObjectTypeDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=CoreInputObjectTypeDefinition:InputObjectTypeDefinition fn=name id=InputObjectTypeDefinition::name header="impl<'a> InputObjectTypeDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=HasDirectives:InputObjectTypeDefinition fn=directives id=InputObjectTypeDefinition::directives header="impl<'a> InputObjectTypeDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=CoreInputObjectTypeDefinition:InputObjectTypeDefinition fn=input_field_definitions id=InputObjectTypeDefinition::input_field_definitions header="impl<'a> InputObjectTypeDefinition<'a>"
    ensures *r == self.input_fields_definition
//@ sig fn input_field_definitions<'b>(&'b self) -> (r: &'b InputFieldsDefinition<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=description id=DirectiveDefinition::description header="impl<'a> DirectiveDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=name id=DirectiveDefinition::name header="impl<'a> DirectiveDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=arguments_definition id=DirectiveDefinition::arguments_definition header="impl<'a> DirectiveDefinition<'a>"
    ensures r is Some == self.arguments_definition is Some, r is Some ==> *r->0 == self.arguments_definition->0
//@ sig fn arguments_definition<'b>(&'b self) -> (r: Option<&'b ArgumentsDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=is_repeatable id=DirectiveDefinition::is_repeatable header="impl<'a> DirectiveDefinition<'a>"
    ensures r == self.is_repeatable
//@ sig fn is_repeatable(&self) -> (r: bool)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=locations id=DirectiveDefinition::locations header="impl<'a> DirectiveDefinition<'a>"
    ensures *r == self.locations
//@ sig fn locations<'b>(&'b self) -> (r: &'b DirectiveLocations)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=CoreDirectiveDefinition:DirectiveDefinition fn=is_builtin id=DirectiveDefinition::is_builtin header="impl<'a> DirectiveDefinition<'a>"
    ensures r == self.is_builtin
//@ sig fn is_builtin(&self) -> (r: bool)
//@end
pub struct SlL<'b> { pub s: &'b Vec<DirectiveLocation>, pub i: usize }
impl<'b> SlL<'b> {
    pub fn next(&mut self) -> (r: Option<&'b CoreDirectiveLocation>)
        requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).i <= final(self).s@.len(),
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int].inner) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some(x.as_ref()) } else { None } }
}
pub fn __locs<'b>(s: &'b Vec<DirectiveLocation>) -> (r: SlL<'b>) ensures r.s@ == s@, r.i == 0 { SlL { s, i: 0 } }
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=AsRef:DirectiveLocation fn=as_ref id=DirectiveLocation::as_ref header="impl DirectiveLocation"
    ensures *r == self.inner
//@ sig fn as_ref<'b>(&'b self) -> (r: &'b CoreDirectiveLocation)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=AsIter:DirectiveLocations fn=iter as=it_ id=DirectiveLocations::iter header="impl DirectiveLocations"
    ensures r.s@ == self.0@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: SlL<'b>)
//@ subst self . 0 . iter ( ) . map ( AsRef :: as_ref ) ==> __locs ( & self . 0 )
//@end

// Display of directive locations: strum, SCREAMING_SNAKE_CASE (assumed; the attribute and the variants are pinned with the parser)
pub open spec fn loc_name(l: CoreDirectiveLocation) -> Seq<char> { match l {
    CoreDirectiveLocation::Query => "QUERY"@, CoreDirectiveLocation::Mutation => "MUTATION"@, CoreDirectiveLocation::Subscription => "SUBSCRIPTION"@, CoreDirectiveLocation::Field => "FIELD"@,
    CoreDirectiveLocation::FragmentDefinition => "FRAGMENT_DEFINITION"@, CoreDirectiveLocation::FragmentSpread => "FRAGMENT_SPREAD"@, CoreDirectiveLocation::InlineFragment => "INLINE_FRAGMENT"@, CoreDirectiveLocation::VariableDefinition => "VARIABLE_DEFINITION"@,
    CoreDirectiveLocation::Schema => "SCHEMA"@, CoreDirectiveLocation::Scalar => "SCALAR"@, CoreDirectiveLocation::Object => "OBJECT"@, CoreDirectiveLocation::FieldDefinition => "FIELD_DEFINITION"@, CoreDirectiveLocation::ArgumentDefinition => "ARGUMENT_DEFINITION"@,
    CoreDirectiveLocation::Interface => "INTERFACE"@, CoreDirectiveLocation::Union => "UNION"@, CoreDirectiveLocation::Enum => "ENUM"@, CoreDirectiveLocation::EnumValue => "ENUM_VALUE"@, CoreDirectiveLocation::InputObject => "INPUT_OBJECT"@, CoreDirectiveLocation::InputFieldDefinition => "INPUT_FIELD_DEFINITION"@ } }
impl Show for CoreDirectiveLocation { open spec fn shown(&self, l: Last) -> Seq<KTok> { seq![KTok::Name(loc_name(*self))] } open spec fn showable(&self, l: Last) -> bool { !(l is Dollar) } open spec fn wordy(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
// the tokens of each construct, followed by k
pub open spec fn p_desc<'a>(d: Option<StringValue<'a>>, k: Seq<KTok>) -> Seq<KTok> { match d { None => k, Some(s) => cons(KTok::Str(s.contents@), k) } }
pub open spec fn p_iv<'a>(v: GIv<'a>, k: Seq<KTok>) -> Seq<KTok> { p_desc(v.desc, p_name(v.name, cons(KTok::P(PunctuatorType::Colon), p_type(v.ty, p_default(v.default_, p_dirs(v.dirs, k)))))) }
pub open spec fn p_ivs<'a>(s: Seq<GIv<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_iv(s[0], p_ivs(s.drop_first(), k)) } }
pub open spec fn p_argsdef<'a>(s: Seq<GIv<'a>>, k: Seq<KTok>) -> Seq<KTok> { if s.len() == 0 { k } else { cons(KTok::P(PunctuatorType::OpenRoundBracket), p_ivs(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))) } }
pub open spec fn p_oargsdef<'a>(s: Option<Seq<GIv<'a>>>, k: Seq<KTok>) -> Seq<KTok> { match s { None => k, Some(s) => p_argsdef(s, k) } }
pub open spec fn p_infields<'a>(s: Seq<GIv<'a>>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::P(PunctuatorType::OpenBrace), p_ivs(s, cons(KTok::P(PunctuatorType::CloseBrace), k))) }
pub open spec fn p_fd<'a>(v: GFd<'a>, k: Seq<KTok>) -> Seq<KTok> { p_desc(v.desc, p_name(v.name, p_oargsdef(v.args, cons(KTok::P(PunctuatorType::Colon), p_type(v.ty, p_dirs(v.dirs, k)))))) }
pub open spec fn p_fds<'a>(s: Seq<GFd<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_fd(s[0], p_fds(s.drop_first(), k)) } }
pub open spec fn p_fdef<'a>(s: Seq<GFd<'a>>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::P(PunctuatorType::OpenBrace), p_fds(s, cons(KTok::P(PunctuatorType::CloseBrace), k))) }
pub open spec fn p_ev<'a>(v: GEv<'a>, k: Seq<KTok>) -> Seq<KTok> { p_desc(v.desc, p_name(v.name, p_dirs(v.dirs, k))) }
pub open spec fn p_evs<'a>(s: Seq<GEv<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_ev(s[0], p_evs(s.drop_first(), k)) } }
pub open spec fn p_values<'a>(s: Seq<GEv<'a>>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::P(PunctuatorType::OpenBrace), p_evs(s, cons(KTok::P(PunctuatorType::CloseBrace), k))) }
/// Name (sep Name)*; `more`: names came before
pub open spec fn p_names<'a>(s: Seq<Name<'a>>, sep: PunctuatorType, more: bool, k: Seq<KTok>) -> Seq<KTok> decreases s.len() {
    if s.len() == 0 { k } else { let r = p_name(s[0], p_names(s.drop_first(), sep, true, k)); if more { cons(KTok::P(sep), r) } else { r } } }
pub open spec fn p_locs(s: Seq<CoreDirectiveLocation>, more: bool, k: Seq<KTok>) -> Seq<KTok> decreases s.len() {
    if s.len() == 0 { k } else { let r = cons(KTok::Name(loc_name(s[0])), p_locs(s.drop_first(), true, k)); if more { cons(KTok::P(PunctuatorType::Pipe), r) } else { r } } }
pub open spec fn p_ifs<'a>(s: Seq<Name<'a>>, k: Seq<KTok>) -> Seq<KTok> { if s.len() == 0 { k } else { cons(KTok::Name("implements"@), p_names(s, PunctuatorType::Ampersand, false, k)) } }
pub open spec fn p_oifs<'a>(s: Option<Seq<Name<'a>>>, k: Seq<KTok>) -> Seq<KTok> { match s { None => k, Some(s) => p_ifs(s, k) } }
pub open spec fn p_head<'a>(desc: Option<StringValue<'a>>, kw: Seq<char>, name: Name<'a>, k: Seq<KTok>) -> Seq<KTok> { p_desc(desc, cons(KTok::Name(kw), p_name(name, k))) }
pub open spec fn p_td<'a>(d: GTd<'a>, k: Seq<KTok>) -> Seq<KTok> { match d {
    GTd::Scalar { desc, name, dirs } => p_head(desc, "scalar"@, name, p_dirs(dirs, k)),
    GTd::Object { desc, name, ifs, dirs, fields } => p_head(desc, "type"@, name, p_oifs(ifs, p_dirs(dirs, p_fdef(fields, k)))),
    GTd::Interface { desc, name, ifs, dirs, fields } => p_head(desc, "interface"@, name, p_oifs(ifs, p_dirs(dirs, p_fdef(fields, k)))),
    GTd::Input { desc, name, dirs, fields } => p_head(desc, "input"@, name, p_dirs(dirs, p_infields(fields, k))),
    GTd::Enum { desc, name, dirs, values } => p_head(desc, "enum"@, name, p_dirs(dirs, p_values(values, k))),
    GTd::Union { desc, name, dirs, members } => p_head(desc, "union"@, name, p_dirs(dirs, cons(KTok::P(PunctuatorType::Equals), p_names(members, PunctuatorType::Pipe, false, k)))),
} }
pub open spec fn p_tds<'a>(s: Seq<GTd<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_td(s[0], p_tds(s.drop_first(), k)) } }
pub open spec fn p_rep(b: bool, k: Seq<KTok>) -> Seq<KTok> { if b { cons(KTok::Name("repeatable"@), k) } else { k } }
pub open spec fn p_dd<'a>(d: GDd<'a>, k: Seq<KTok>) -> Seq<KTok> { p_desc(d.desc, cons(KTok::Name("directive"@), cons(KTok::P(PunctuatorType::At), p_name(d.name, p_oargsdef(d.args, p_rep(d.repeatable, cons(KTok::Name("on"@), p_locs(d.locs, false, k)))))))) }
pub open spec fn p_dds<'a>(s: Seq<GDd<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_dd(s[0], p_dds(s.drop_first(), k)) } }
pub open spec fn p_root(op: Seq<char>, name: Seq<char>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Name(op), cons(KTok::P(PunctuatorType::Colon), cons(KTok::Name(name), k))) }
pub open spec fn p_oroot(op: Seq<char>, name: Option<Seq<char>>, k: Seq<KTok>) -> Seq<KTok> { match name { None => k, Some(n) => p_root(op, n, k) } }
pub open spec fn p_schema<'a>(desc: Option<StringValue<'a>>, dirs: Seq<GDir<'a>>, q: Seq<char>, m: Option<Seq<char>>, s: Option<Seq<char>>, k: Seq<KTok>) -> Seq<KTok> {
    p_desc(desc, cons(KTok::Name("schema"@), p_dirs(dirs, cons(KTok::P(PunctuatorType::OpenBrace), p_root("query"@, q, p_oroot("mutation"@, m, p_oroot("subscription"@, s, cons(KTok::P(PunctuatorType::CloseBrace), k)))))))) }
// walking the definitions, leaving the built-in ones out
pub proof fn fds_front<'a>(x: FieldDefinition<'a>, s: Seq<FieldDefinition<'a>>) ensures fds_v(seq![x] + s) == (if x.is_builtin { fds_v(s) } else { seq![x.v()] + fds_v(s) }) decreases s.len() {
    broadcast use sdl_group;
    if s.len() == 0 { assert(seq![x] + s =~= Seq::<FieldDefinition<'a>>::empty().push(x)); assert(seq![x.v()] + fds_v(s) =~= Seq::<GFd<'a>>::empty().push(x.v())); assert(fds_v(Seq::<FieldDefinition<'a>>::empty()) == Seq::<GFd<'a>>::empty()); }
    else { let p = s.drop_last(); fds_front(x, p); assert(seq![x] + s =~= (seq![x] + p).push(s.last())); assert(s =~= p.push(s.last())); if !s.last().is_builtin && !x.is_builtin { assert(seq![x.v()] + fds_v(s) =~= (seq![x.v()] + fds_v(p)).push(s.last().v())); } }
}
pub proof fn tds_front<'a>(x: TypeDefinition<'a>, s: Seq<TypeDefinition<'a>>) ensures tds_v(seq![x] + s) == (if x.bi() { tds_v(s) } else { seq![x.v()] + tds_v(s) }) decreases s.len() {
    broadcast use sdl_group;
    if s.len() == 0 { assert(seq![x] + s =~= Seq::<TypeDefinition<'a>>::empty().push(x)); assert(seq![x.v()] + tds_v(s) =~= Seq::<GTd<'a>>::empty().push(x.v())); assert(tds_v(Seq::<TypeDefinition<'a>>::empty()) == Seq::<GTd<'a>>::empty()); }
    else { let p = s.drop_last(); tds_front(x, p); assert(seq![x] + s =~= (seq![x] + p).push(s.last())); assert(s =~= p.push(s.last())); if !s.last().bi() && !x.bi() { assert(seq![x.v()] + tds_v(s) =~= (seq![x.v()] + tds_v(p)).push(s.last().v())); } }
}
pub proof fn dds_front<'a>(x: DirectiveDefinition<'a>, s: Seq<DirectiveDefinition<'a>>) ensures dirdefs_v(seq![x] + s) == (if x.is_builtin { dirdefs_v(s) } else { seq![x.v()] + dirdefs_v(s) }) decreases s.len() {
    broadcast use sdl_group;
    if s.len() == 0 { assert(seq![x] + s =~= Seq::<DirectiveDefinition<'a>>::empty().push(x)); assert(seq![x.v()] + dirdefs_v(s) =~= Seq::<GDd<'a>>::empty().push(x.v())); assert(dirdefs_v(Seq::<DirectiveDefinition<'a>>::empty()) == Seq::<GDd<'a>>::empty()); }
    else { let p = s.drop_last(); dds_front(x, p); assert(seq![x] + s =~= (seq![x] + p).push(s.last())); assert(s =~= p.push(s.last())); if !s.last().is_builtin && !x.is_builtin { assert(seq![x.v()] + dirdefs_v(s) =~= (seq![x.v()] + dirdefs_v(p)).push(s.last().v())); } }
}
pub proof fn p_fds_at<'a>(s: Seq<FieldDefinition<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_fds(fds_v(s.skip(j)), k) == (if s[j].is_builtin { p_fds(fds_v(s.skip(j + 1)), k) } else { p_fd(s[j].v(), p_fds(fds_v(s.skip(j + 1)), k)) })
{ assert(s.skip(j) =~= seq![s[j]] + s.skip(j + 1)); fds_front(s[j], s.skip(j + 1)); if !s[j].is_builtin { assert((seq![s[j].v()] + fds_v(s.skip(j + 1))).drop_first() =~= fds_v(s.skip(j + 1))); } }
pub proof fn p_tds_at<'a>(s: Seq<TypeDefinition<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_tds(tds_v(s.skip(j)), k) == (if s[j].bi() { p_tds(tds_v(s.skip(j + 1)), k) } else { p_td(s[j].v(), p_tds(tds_v(s.skip(j + 1)), k)) })
{ assert(s.skip(j) =~= seq![s[j]] + s.skip(j + 1)); tds_front(s[j], s.skip(j + 1)); if !s[j].bi() { assert((seq![s[j].v()] + tds_v(s.skip(j + 1))).drop_first() =~= tds_v(s.skip(j + 1))); } }
pub proof fn p_dds_at<'a>(s: Seq<DirectiveDefinition<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_dds(dirdefs_v(s.skip(j)), k) == (if s[j].is_builtin { p_dds(dirdefs_v(s.skip(j + 1)), k) } else { p_dd(s[j].v(), p_dds(dirdefs_v(s.skip(j + 1)), k)) })
{ assert(s.skip(j) =~= seq![s[j]] + s.skip(j + 1)); dds_front(s[j], s.skip(j + 1)); if !s[j].is_builtin { assert((seq![s[j].v()] + dirdefs_v(s.skip(j + 1))).drop_first() =~= dirdefs_v(s.skip(j + 1))); } }
pub proof fn p_ivs_at<'a>(s: Seq<GIv<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_ivs(s.skip(j), k) == p_iv(s[j], p_ivs(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_evs_at<'a>(s: Seq<GEv<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_evs(s.skip(j), k) == p_ev(s[j], p_evs(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_names_at<'a>(s: Seq<Name<'a>>, sep: PunctuatorType, j: int) requires 0 <= j < s.len()
    ensures forall|more: bool, k: Seq<KTok>| #[trigger] p_names(s.skip(j), sep, more, k) == (if more { cons(KTok::P(sep), p_name(s[j], p_names(s.skip(j + 1), sep, true, k))) } else { p_name(s[j], p_names(s.skip(j + 1), sep, true, k)) }) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_locs_at(s: Seq<CoreDirectiveLocation>, j: int) requires 0 <= j < s.len()
    ensures forall|more: bool, k: Seq<KTok>| #[trigger] p_locs(s.skip(j), more, k) == (if more { cons(KTok::P(PunctuatorType::Pipe), cons(KTok::Name(loc_name(s[j])), p_locs(s.skip(j + 1), true, k))) } else { cons(KTok::Name(loc_name(s[j])), p_locs(s.skip(j + 1), true, k)) }) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }

// string_value.rs: the block string written (with its indentation) lexes to one string token with the same contents, on lines of its
// own (assumed here; explored by the harness)
pub struct BlockStringValuePrinter<'b> { pub value: &'b str, pub indentation: usize }
impl<'b> BlockStringValuePrinter<'b> {
    #[verifier::external_body] pub fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires old(f).last() is Other || old(f).last() is Word
        ensures r is Ok, final(f).out() == old(f).out().push(KTok::Str(self.value@)), final(f).last() is Other { unimplemented!() }
}
//@fn src=bluejay-printer/src/string_value.rs impl=BlockStringValuePrinter fn=new id=BlockStringValuePrinter::new
    ensures r.value@ == value@
//@end
// ---- definition/*.rs (bluejay-printer) ----------------------------------------------------------------
//@item src=bluejay-printer/src/definition/input_value_definition.rs name=InputValueDefinitionPrinter subst="< 'a , T : InputValueDefinition > ==> < 'b , 'a >;;& 'a T ==> & 'b InputValueDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/input_value_definition.rs impl=InputValueDefinitionPrinter fn=new id=InputValueDefinitionPrinter::new header="impl<'b, 'a> InputValueDefinitionPrinter<'b, 'a>"
    ensures *r.input_value_definition == *input_value_definition
//@ sig fn new(input_value_definition: &'b InputValueDefinition<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/input_value_definition.rs impl=Display:InputValueDefinitionPrinter fn=fmt id=InputValueDefinitionPrinter::fmt header="impl<'b, 'a> InputValueDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_iv(self.input_value_definition.v(), k)] old(f).out() + p_iv(self.input_value_definition.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@item src=bluejay-printer/src/definition/arguments_definition.rs name=ArgumentsDefinitionPrinter subst="< 'a , T : ArgumentsDefinition > ==> < 'b , 'a >;;& 'a T ==> & 'b ArgumentsDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/arguments_definition.rs impl=ArgumentsDefinitionPrinter fn=new id=ArgumentsDefinitionPrinter::new header="impl<'b, 'a> ArgumentsDefinitionPrinter<'b, 'a>"
    ensures *r.arguments_definition == *arguments_definition
//@ sig fn new(arguments_definition: &'b ArgumentsDefinition<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/arguments_definition.rs impl=Display:ArgumentsDefinitionPrinter fn=fmt id=ArgumentsDefinitionPrinter::fmt header="impl<'b, 'a> ArgumentsDefinitionPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_argsdef(ivs_v(self.arguments_definition.argument_definitions@), k)] old(f).out() + p_argsdef(ivs_v(self.arguments_definition.argument_definitions@), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), f.last() is Other, $ix == $it.i, self.arguments_definition.argument_definitions@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_argsdef(ivs_v(self.arguments_definition.argument_definitions@), k)] f0 + p_argsdef(ivs_v(self.arguments_definition.argument_definitions@), k) == f.out() + p_ivs(ivs_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseRoundBracket), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_ivs_at(ivs_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/field_definition.rs name=FieldDefinitionPrinter subst="< 'a , F : FieldDefinition > ==> < 'b , 'a >;;& 'a F ==> & 'b FieldDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/field_definition.rs impl=FieldDefinitionPrinter fn=new id=FieldDefinitionPrinter::new header="impl<'b, 'a> FieldDefinitionPrinter<'b, 'a>"
    ensures *r.field_definition == *field_definition
//@ sig fn new(field_definition: &'b FieldDefinition<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/field_definition.rs impl=Display:FieldDefinitionPrinter fn=fmt id=FieldDefinitionPrinter::fmt header="impl<'b, 'a> FieldDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_fd(self.field_definition.v(), k)] old(f).out() + p_fd(self.field_definition.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@item src=bluejay-printer/src/definition/field_definition.rs name=FieldsDefinitionPrinter subst="< 'a , F : FieldsDefinition > ==> < 'b , 'a >;;& 'a F ==> & 'b FieldsDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/field_definition.rs impl=FieldsDefinitionPrinter fn=new id=FieldsDefinitionPrinter::new header="impl<'b, 'a> FieldsDefinitionPrinter<'b, 'a>"
    ensures *r.fields_definition == *fields_definition
//@ sig fn new(fields_definition: &'b FieldsDefinition<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/field_definition.rs impl=Display:FieldsDefinitionPrinter fn=fmt id=FieldsDefinitionPrinter::fmt header="impl<'b, 'a> FieldsDefinitionPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_fdef(fds_v(self.fields_definition.field_definitions@), k)] old(f).out() + p_fdef(fds_v(self.fields_definition.field_definitions@), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), f.last() is Other, $ix <= $it.i, self.fields_definition.field_definitions@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_fdef(fds_v(self.fields_definition.field_definitions@), k)] f0 + p_fdef(fds_v(self.fields_definition.field_definitions@), k) == f.out() + p_fds(fds_v($it.s@.skip($it.i as int)), cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_fds_at($it.s@, $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/input_object_type_definition.rs name=InputObjectTypeDefinitionPrinter subst="< 'a , I : InputObjectTypeDefinition > ==> < 'b , 'a >;;& 'a I ==> & 'b InputObjectTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/input_object_type_definition.rs impl=InputObjectTypeDefinitionPrinter fn=new id=InputObjectTypeDefinitionPrinter::new header="impl<'b, 'a> InputObjectTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *input_object_type_definition
//@ sig fn new(input_object_type_definition: &'b InputObjectTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/input_object_type_definition.rs impl=Display:InputObjectTypeDefinitionPrinter fn=fmt id=InputObjectTypeDefinitionPrinter::fmt header="impl<'b, 'a> InputObjectTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), f.last() is Other, $ix == $it.i, self.0.input_fields_definition.input_field_definitions@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] f0 + p_td(self.0.v(), k) == f.out() + p_ivs(ivs_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_ivs_at(ivs_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/enum_type_definition.rs name=EnumTypeDefinitionPrinter subst="< 'a , E : EnumTypeDefinition > ==> < 'b , 'a >;;& 'a E ==> & 'b EnumTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/enum_type_definition.rs impl=EnumTypeDefinitionPrinter fn=new id=EnumTypeDefinitionPrinter::new header="impl<'b, 'a> EnumTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *enum_type_definition
//@ sig fn new(enum_type_definition: &'b EnumTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/enum_type_definition.rs impl=Display:EnumTypeDefinitionPrinter fn=fmt id=EnumTypeDefinitionPrinter::fmt header="impl<'b, 'a> EnumTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), f.last() is Other, $ix == $it.i, self.0.enum_value_definitions.enum_value_definitions@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] f0 + p_td(self.0.v(), k) == f.out() + p_evs(evs_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_evs_at(evs_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/interface_implementations.rs name=InterfaceImplementationsPrinter subst="< 'a , I : InterfaceImplementations > ==> < 'b , 'a >;;& 'a I ==> & 'b InterfaceImplementations < 'a >"
//@fn src=bluejay-printer/src/definition/interface_implementations.rs impl=InterfaceImplementationsPrinter fn=new id=InterfaceImplementationsPrinter::new header="impl<'b, 'a> InterfaceImplementationsPrinter<'b, 'a>"
    ensures *r.0 == *interface_implementations
//@ sig fn new(interface_implementations: &'b InterfaceImplementations<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/interface_implementations.rs impl=Display:InterfaceImplementationsPrinter fn=fmt id=InterfaceImplementationsPrinter::fmt header="impl<'b, 'a> InterfaceImplementationsPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_ifs(iis_v(self.0.interface_implementations@), k)] old(f).out() + p_ifs(iis_v(self.0.interface_implementations@), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, $ix == $it.i, self.0.interface_implementations@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_ifs(iis_v(self.0.interface_implementations@), k)] f0 + p_ifs(iis_v(self.0.interface_implementations@), k) == f.out() + p_names(iis_v($it.s@).skip($it.i as int), PunctuatorType::Ampersand, $it.i > 0, k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_names_at(iis_v($it.s@), PunctuatorType::Ampersand, $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/object_type_definition.rs name=ObjectTypeDefinitionPrinter subst="< 'a , O : ObjectTypeDefinition > ==> < 'b , 'a >;;& 'a O ==> & 'b ObjectTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/object_type_definition.rs impl=ObjectTypeDefinitionPrinter fn=new id=ObjectTypeDefinitionPrinter::new header="impl<'b, 'a> ObjectTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *object_type_definition
//@ sig fn new(object_type_definition: &'b ObjectTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/object_type_definition.rs impl=Display:ObjectTypeDefinitionPrinter fn=fmt id=ObjectTypeDefinitionPrinter::fmt header="impl<'b, 'a> ObjectTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@item src=bluejay-printer/src/definition/interface_type_definition.rs name=InterfaceTypeDefinitionPrinter subst="< 'a , I : InterfaceTypeDefinition > ==> < 'b , 'a >;;& 'a I ==> & 'b InterfaceTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/interface_type_definition.rs impl=InterfaceTypeDefinitionPrinter fn=new id=InterfaceTypeDefinitionPrinter::new header="impl<'b, 'a> InterfaceTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *interface_type_definition
//@ sig fn new(interface_type_definition: &'b InterfaceTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/interface_type_definition.rs impl=Display:InterfaceTypeDefinitionPrinter fn=fmt id=InterfaceTypeDefinitionPrinter::fmt header="impl<'b, 'a> InterfaceTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@item src=bluejay-printer/src/definition/scalar_type_definition.rs name=ScalarTypeDefinitionPrinter subst="< 'a , S : ScalarTypeDefinition > ==> < 'b , 'a >;;& 'a S ==> & 'b CustomScalarTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/scalar_type_definition.rs impl=ScalarTypeDefinitionPrinter fn=new id=ScalarTypeDefinitionPrinter::new header="impl<'b, 'a> ScalarTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *scalar_type_definition
//@ sig fn new(scalar_type_definition: &'b CustomScalarTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/scalar_type_definition.rs impl=Display:ScalarTypeDefinitionPrinter fn=fmt id=ScalarTypeDefinitionPrinter::fmt header="impl<'b, 'a> ScalarTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@item src=bluejay-printer/src/definition/union_type_definition.rs name=UnionTypeDefinitionPrinter subst="< 'a , U : UnionTypeDefinition > ==> < 'b , 'a >;;& 'a U ==> & 'b UnionTypeDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/union_type_definition.rs impl=UnionTypeDefinitionPrinter fn=new id=UnionTypeDefinitionPrinter::new header="impl<'b, 'a> UnionTypeDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *union_type_definition
//@ sig fn new(union_type_definition: &'b UnionTypeDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/union_type_definition.rs impl=Display:UnionTypeDefinitionPrinter fn=fmt id=UnionTypeDefinitionPrinter::fmt header="impl<'b, 'a> UnionTypeDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] old(f).out() + p_td(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, $ix == $it.i, self.0.member_types.union_member_types@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_td(self.0.v(), k)] f0 + p_td(self.0.v(), k) == f.out() + p_names(ums_v($it.s@).skip($it.i as int), PunctuatorType::Pipe, $it.i > 0, k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_names_at(ums_v($it.s@), PunctuatorType::Pipe, $it.i - 1); }
//@end
//@item src=bluejay-printer/src/definition/directive_definition.rs name=DirectiveDefinitionPrinter subst="< 'a , D : DirectiveDefinition > ==> < 'b , 'a >;;& 'a D ==> & 'b DirectiveDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/directive_definition.rs impl=DirectiveDefinitionPrinter fn=new id=DirectiveDefinitionPrinter::new header="impl<'b, 'a> DirectiveDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *directive_definition
//@ sig fn new(directive_definition: &'b DirectiveDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/directive_definition.rs impl=Display:DirectiveDefinitionPrinter fn=fmt id=DirectiveDefinitionPrinter::fmt header="impl<'b, 'a> DirectiveDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_dd(self.0.v(), k)] old(f).out() + p_dd(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, $ix == $it.i, self.0.locations.0@ == $it.s@,
        forall|k: Seq<KTok>| #![trigger p_dd(self.0.v(), k)] f0 + p_dd(self.0.v(), k) == f.out() + p_locs(dls_v($it.s@).skip($it.i as int), $it.i > 0, k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_locs_at(dls_v($it.s@), $it.i - 1); }
//@end
